//! Reference model of the item graph and what the analyses must say about it,
//! written from the definitions (reachability, removal), not from the algorithms in /repo.
use std::collections::BTreeMap;
use twiggy_ir::{Code, Data, DebugInfo, Id, Item, Items, ItemsBuilder, Misc};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Code,
    Data,
    Misc,
    Debug,
}

/// An abstract item graph.
#[derive(Clone, Debug, Hash, Default)]
pub struct Spec {
    pub total: u32,
    pub names: Vec<String>,
    pub sizes: Vec<u32>,
    pub kinds: Vec<K>,
    pub adj: Vec<Vec<usize>>,
    pub roots: Vec<usize>,
    /// symbols of functions whose displayed name differs; may be empty
    pub raws: Vec<Option<&'static str>>,
}

/// Names, symbols and kinds as they occur in binaries, chosen so that they are prefixes, spellings, patterns or
/// look-alikes of each other: (displayed name, symbol, kind).
pub const STYLES: [[(&str, &str, K); 5]; 6] = [
    [
        ("global[0]", "global[0]", K::Data),
        ("code[0]", "code[0]", K::Code),
        ("export \"code[0]\"", "export \"code[0]\"", K::Misc),
        ("data[0]", "data[0]", K::Data),
        ("elem[0]", "elem[0]", K::Misc),
    ],
    [
        ("a::b", "_ZN1a1bE", K::Code),
        ("a", "a", K::Code),
        ("a::b::h0123456789abcdef", "_ZN1a1b17h0123456789abcdefE", K::Code),
        ("_ZN", "_ZN", K::Code),
        ("A", "A", K::Code),
    ],
    [
        ("a.b", "a.b", K::Misc),
        ("axb", "axb", K::Code),
        ("^a", "^a", K::Debug),
        ("[a]", "[a]", K::Code),
        ("(", "(", K::Data),
    ],
    [
        ("function headers", "function headers", K::Misc),
        ("type[0]: () -> nil", "type[0]: () -> nil", K::Misc),
        ("type[0]", "type[0]", K::Misc),
        ("\"function names\" subsection", "\"function names\" subsection", K::Debug),
        ("custom section 'name' headers", "custom section 'name' headers", K::Misc),
    ],
    [
        ("... and 1 more.", "... and 1 more.", K::Code),
        ("... and 1 more", "... and 1 more", K::Misc),
        ("\u{3a3} [1 Total Rows]", "\u{3a3} [1 Total Rows]", K::Data),
        ("1 potential false-positive data segments", "1 potential false-positive data segments", K::Code),
        ("Shallow", "Shallow", K::Code),
    ],
    [
        ("", "", K::Code),
        ("a -> b", "a -> b", K::Code),
        (" ", " ", K::Misc),
        ("a ", "a ", K::Data),
        ("\u{e9}, \"x\"", "\u{e9}, \"x\"", K::Code),
    ],
];

/// Sizes around the limits of signed and unsigned 32 bit numbers.
pub const LARGE: [u32; 6] = [0, 1, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe];

/// 1 to `max`, and counts around powers of two and ten up to `most`.
pub fn counts(max: usize, most: usize) -> Vec<usize> {
    let far = [63, 99, 127, 255, 511, 999, 1023, 2047, 4095].into_iter().flat_map(|k| k..k + 3).filter(|k| *k > max && *k <= most);
    (1..=max).chain(far).collect()
}

/// Counts that do not fit into 16 bits, and those next to them.
pub const HUGE: [usize; 4] = [65535, 65536, 65537, 131_073];

/// A graph of `n` items of a simple shape (a chain, a ring, a fan, a ladder, a binary tree, or all of them roots),
/// numbered forwards or backwards, and the facts about it, which are plain to see: the edges go from lower to higher
/// items, as do the dominators.
pub fn huge(n: usize, shape: usize, back: bool) -> (Spec, Facts) {
    let num = |i: usize| if back { n - 1 - i } else { i };
    let mut s = Spec::plain(n);
    s.names = (0..n).map(|i| format!("item {}", i)).collect();
    s.roots = vec![num(0)];
    let mut idom = vec![None; n];
    let mut pred = vec![vec![]; n];
    for i in 1..n {
        let mut from = match shape {
            0 | 1 => vec![i - 1],
            2 => vec![0],
            3 => vec![i - 1, i.saturating_sub(2)],
            4 => vec![(i - 1) / 2],
            _ => vec![],
        };
        from.dedup();
        for f in from {
            s.adj[num(f)].push(num(i));
            pred[num(i)].push(num(f));
        }
        idom[num(i)] = match shape {
            0 | 1 => Some(num(i - 1)),
            2 | 3 => Some(num(0)),
            4 => Some(num((i - 1) / 2)),
            _ => None,
        };
    }
    if shape == 1 {
        s.adj[num(n - 1)].push(num(0));
        pred[num(0)].push(num(n - 1));
    }
    if shape == 5 {
        s.roots = (0..n).collect();
    }
    s.sizes = (0..n).map(|i| (i as u32 * 79) % 1009 + 1).collect();
    s.total = s.sum();
    let mut retained = s.sizes.clone();
    for i in (1..n).rev() {
        if let Some(d) = idom[num(i)] {
            let d: usize = d;
            retained[d] += retained[num(i)];
        }
    }
    let root_retained = s.total;
    let f = Facts { reach: vec![true; n], idom, retained, pred, root_retained };
    (s, f)
}

/// Patterns and what they match, for names in `STYLES`.
pub const PATTERNS: [(&str, fn(&str) -> bool); 9] = [
    ("^ ?$", |n| n.is_empty() || n == " "),
    ("^a.b$", |n| n.chars().count() == 3 && n.starts_with('a') && n.ends_with('b')),
    ("a", |n| n.contains('a')),
    ("^a", |n| n.starts_with('a')),
    ("\\[0\\]$", |n| n.ends_with("[0]")),
    ("^_ZN", |n| n.starts_with("_ZN")),
    ("(?i)^a$", |n| n == "a" || n == "A"),
    ("code|data", |n| n.contains("code") || n.contains("data")),
    ("^\\(|more\\.?$", |n| n.starts_with('(') || n.ends_with("more") || n.ends_with("more.")),
];

pub fn letter(i: usize) -> String {
    if i < 26 {
        ((b'a' + i as u8) as char).to_string()
    } else {
        format!("n{}", i)
    }
}

impl Spec {
    /// `n` items a, b, c... without edges.
    pub fn plain(n: usize) -> Spec {
        Spec {
            total: 0,
            names: (0..n).map(letter).collect(),
            sizes: vec![0; n],
            kinds: vec![K::Misc; n],
            adj: vec![vec![]; n],
            roots: vec![],
            raws: vec![],
        }
    }
    /// Names, symbols and kinds of a style, starting with the `from`th.
    pub fn dress(&mut self, style: usize, from: usize) {
        for i in 0..self.n() {
            let (n, _, k) = STYLES[style][(i + from) % 5];
            self.names[i] = n.to_string();
            self.kinds[i] = k;
        }
        self.symbols();
    }
    /// Functions with a name in `STYLES` get its symbol.
    pub fn symbols(&mut self) {
        self.raws = (0..self.n())
            .map(|i| STYLES.iter().flatten().find(|x| x.0 == self.names[i] && x.0 != x.1 && self.kinds[i] == K::Code).map(|x| x.1))
            .collect();
    }
    pub fn n(&self) -> usize {
        self.names.len()
    }
    pub fn sum(&self) -> u32 {
        self.sizes.iter().sum()
    }
    /// Entries of several sections and section headers, not in the order of the items.
    pub fn id(i: usize) -> Id {
        match i % 4 {
            0 => Id::entry(9, i),
            1 => Id::entry(3, i),
            2 => Id::section(i),
            _ => Id::entry(3, i - 3),
        }
    }
    pub fn build(&self) -> Items {
        self.build_ids(&Self::id)
    }
    pub fn build_ids(&self, id: &dyn Fn(usize) -> Id) -> Items {
        let mut b = ItemsBuilder::new(self.total);
        let mut isroot = vec![false; self.n()];
        for &r in &self.roots {
            isroot[r] = true;
        }
        for i in 0..self.n() {
            let name = match self.raws.get(i) {
                Some(Some(r)) => r.to_string(),
                _ => self.names[i].clone(),
            };
            let it = match self.kinds[i] {
                K::Code => {
                    let c = Code::new(&name);
                    Item::new(id(i), name, self.sizes[i], c)
                }
                K::Data => Item::new(id(i), name, self.sizes[i], Data::new(None)),
                K::Misc => Item::new(id(i), name, self.sizes[i], Misc::new()),
                K::Debug => Item::new(id(i), name, self.sizes[i], DebugInfo::new()),
            };
            if isroot[i] {
                b.add_root(it);
            } else {
                b.add_item(it);
            }
        }
        for (i, v) in self.adj.iter().enumerate() {
            for &j in v {
                b.add_edge(id(i), id(j));
            }
        }
        b.finish()
    }
    /// What is reachable from the roots once item `removed` is gone.
    pub fn reach_without(&self, removed: Option<usize>) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        let mut todo: Vec<usize> = self.roots.iter().cloned().filter(|r| Some(*r) != removed).collect();
        while let Some(i) = todo.pop() {
            if seen[i] {
                continue;
            }
            seen[i] = true;
            for &j in &self.adj[i] {
                if !seen[j] && Some(j) != removed {
                    todo.push(j);
                }
            }
        }
        seen
    }
    pub fn facts(&self) -> Facts {
        let n = self.n();
        let reach = self.reach_without(None);
        let mut dominated = vec![vec![]; n]; // by i, strictly
        let mut ndom = vec![0usize; n]; // number of strict dominators of i
        let mut retained = self.sizes.clone();
        for i in 0..n {
            if !reach[i] {
                continue;
            }
            let r = self.reach_without(Some(i));
            for j in 0..n {
                if j != i && reach[j] && !r[j] {
                    dominated[i].push(j);
                    ndom[j] += 1;
                    retained[i] += self.sizes[j];
                }
            }
        }
        // The immediate dominator is the strict dominator with the most strict dominators itself.
        let mut idom = vec![None; n];
        for i in 0..n {
            for &j in &dominated[i] {
                let better = match idom[j] {
                    None => true,
                    Some(k) => ndom[i] > ndom[k as usize],
                };
                if better {
                    idom[j] = Some(i);
                }
            }
        }
        let mut pred = vec![vec![]; n];
        for i in 0..n {
            for &j in &self.adj[i] {
                if !pred[j].contains(&i) {
                    pred[j].push(i);
                }
            }
        }
        let root_retained = (0..n).filter(|i| reach[*i]).map(|i| self.sizes[i]).sum();
        Facts { reach, idom, retained, pred, root_retained }
    }
    pub fn by_name(&self) -> BTreeMap<&str, usize> {
        self.names.iter().enumerate().map(|(i, n)| (n.as_str(), i)).collect()
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for i in 0..self.n() {
            s.push_str(&format!(
                "{}{:?}[{}{}]->{{{}}} ",
                if self.roots.contains(&i) { "*" } else { "" },
                self.names[i],
                self.sizes[i],
                match self.kinds[i] {
                    K::Code => "c",
                    K::Data => "d",
                    K::Misc => "",
                    K::Debug => "g",
                },
                self.adj[i].iter().map(|j| self.names[*j].clone()).collect::<Vec<_>>().join(",")
            ));
        }
        format!("file size {}, items (* = root): {}", self.total, s)
    }
}

pub struct Facts {
    pub reach: Vec<bool>,
    /// None: the synthetic root (or unreachable)
    pub idom: Vec<Option<usize>>,
    /// own size for an unreachable item
    pub retained: Vec<u32>,
    pub pred: Vec<Vec<usize>>,
    pub root_retained: u32,
}

/// Enumerates a directed graph on `n` items: edges (with self loops if asked) and roots.
pub fn any_graph(ch: &mut crate::engine::Chooser, n: usize, loops: bool, one_root: bool) -> Spec {
    let mut s = Spec::plain(n);
    if one_root {
        if n > 0 {
            s.roots = vec![0];
        }
    } else {
        let m = ch.pick(1 << n);
        s.roots = (0..n).filter(|i| m >> i & 1 == 1).collect();
    }
    for i in 0..n {
        // the successors of one item are one choice, so that work splits well
        let others: Vec<usize> = (0..n).filter(|j| (*j != i || loops) && (!one_root || *j != 0)).collect();
        let m = ch.pick(1 << others.len());
        s.adj[i] = others.iter().enumerate().filter(|(b, _)| m >> b & 1 == 1).map(|(_, j)| *j).collect();
    }
    s
}

/// Sizes 1, 2, 4, ...: every set of items has its own sum.
pub fn binary_sizes(s: &mut Spec) {
    for i in 0..s.n() {
        s.sizes[i] = 1 << i;
    }
    s.total = s.sum().max(1);
}

/// All choices of sizes out of `LARGE` that fit into 32 bits together.
pub fn large_sizes(s: &mut Spec, ch: &mut crate::engine::Chooser) -> bool {
    s.sizes = (0..s.n()).map(|_| *ch.of(&LARGE)).collect();
    let sum: u64 = s.sizes.iter().map(|x| u64::from(*x)).sum();
    // functions can claim to be larger than their file
    s.total = if ch.flag() { 7 } else { (sum + 1).min(u64::from(u32::MAX)) as u32 };
    sum <= u64::from(u32::MAX)
}
