//! C09 (paths) and C13 (dominators report): tree shaped reports and their limits.
use crate::engine::*;
use crate::model::*;
use crate::report::*;
use crate::suite;
use crate::{rdr, Check, Tier};
use std::collections::BTreeMap;
use twiggy_ir::Items;

/// A printed line: depth, name and the numbers it shows.
#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub depth: Option<usize>,
    pub name: String,
    pub nums: Vec<Option<f64>>,
}

/// Indentation: `first` at depth 1 is `mark`, one more level is four blanks before it.
pub fn unindent(label: &str, mark: &str) -> (usize, String) {
    let mut rest = label;
    let mut d = 1;
    loop {
        if let Some(r) = rest.strip_prefix(mark) {
            return (d, r.to_string());
        }
        match rest.strip_prefix("    ") {
            Some(r) => rest = r,
            None => return (0, label.to_string()),
        }
        d += 1;
    }
}

// ---------------------------------------------------------------- paths

pub fn read_paths(fmt: Fmt, text: &str, descending: bool) -> Result<Vec<(Line, Option<String>)>, String> {
    match fmt {
        Fmt::Text => {
            let rows = text_rows(text, &["Shallow Bytes", "Shallow %", "Retaining Paths"], &[Col::N, Col::P])?;
            rows.into_iter()
                .map(|r| {
                    let (d, name) = unindent(&r.name, if descending { "  ↳ " } else { "  ⬑ " });
                    if (d == 0) != r.nums[0].is_some() || (d == 0) != r.nums[1].is_some() {
                        return Err(format!("sizes are shown for the first row of a tree only, not for {:?}", r));
                    }
                    Ok((Line { depth: Some(d), name, nums: r.nums }, None))
                })
                .collect()
        }
        Fmt::Json => {
            let j = rdr::parse_json(text)?;
            let mut out = vec![];
            fn walk(j: &rdr::Json, d: usize, out: &mut Vec<(Line, Option<String>)>) -> Result<(), String> {
                let name = j.get("name").and_then(|v| v.as_str()).ok_or("JSON: no name")?.to_string();
                let f = |k: &str| j.get(k).and_then(|v| v.as_f64());
                let nums = vec![f("shallow_size"), f("shallow_size_percent")];
                out.push((Line { depth: Some(d), name, nums }, None));
                for c in j.get("callers").and_then(|c| c.arr()).ok_or("JSON: no callers")? {
                    walk(c, d + 1, out)?;
                }
                Ok(())
            }
            for o in j.arr().ok_or("JSON: not an array")? {
                walk(o, 0, &mut out)?;
            }
            Ok(out)
        }
        Fmt::Csv => {
            let rows = rdr::parse_csv(text)?;
            if rows.is_empty() {
                return Ok(vec![]);
            }
            if rows[0] != ["Name", "ShallowSize", "ShallowSizePercent", "Path"] {
                return Err(format!("CSV header is {:?}", rows[0]));
            }
            rows[1..]
                .iter()
                .map(|r| {
                    let f = |s: &str| s.parse::<f64>().map_err(|_| format!("CSV: not a number: {:?}", s));
                    let nums = vec![Some(f(&r[1])?), Some(f(&r[2])?)];
                    Ok((Line { depth: None, name: r[0].clone(), nums }, Some(r[3].clone())))
                })
                .collect()
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Node {
    item: usize,
    kids: Vec<Node>,
}

fn to_trees(lines: &[(usize, usize)]) -> Result<Vec<Node>, String> {
    // lines: (depth, item) in preorder
    fn take(lines: &[(usize, usize)], at: &mut usize, depth: usize) -> Result<Vec<Node>, String> {
        let mut out = vec![];
        while *at < lines.len() {
            let (d, item) = lines[*at];
            if d < depth {
                break;
            }
            if d > depth {
                return Err(format!("row {} is indented too deep", at));
            }
            *at += 1;
            let kids = take(lines, at, depth + 1)?;
            out.push(Node { item, kids });
        }
        Ok(out)
    }
    let mut at = 0;
    take(lines, &mut at, 0)
}

fn check_path_node(s: &Spec, next: &[Vec<usize>], n: &Node, on_path: &mut Vec<usize>) -> Result<(), String> {
    on_path.push(n.item);
    let mut want: Vec<usize> = next[n.item].iter().cloned().filter(|i| !on_path.contains(i)).collect();
    let mut got: Vec<usize> = n.kids.iter().map(|k| k.item).collect();
    want.sort_unstable();
    got.sort_unstable();
    if want != got {
        let nm = |v: &[usize]| v.iter().map(|i| s.names[*i].clone()).collect::<Vec<_>>();
        return Err(format!("below {:?} are listed {:?}, expected {:?}", nm(on_path), nm(&got), nm(&want)));
    }
    for k in &n.kids {
        check_path_node(s, next, k, on_path)?;
    }
    on_path.pop();
    Ok(())
}

/// Preorder of the tree pruned to depth `d` and `p` children, with all child names of each node.
fn prune(trees: &[Node], d: usize, p: usize) -> Vec<(usize, usize, Vec<usize>)> {
    fn go(n: &Node, depth: usize, d: usize, p: usize, out: &mut Vec<(usize, usize, Vec<usize>)>) {
        out.push((depth, n.item, n.kids.iter().map(|k| k.item).collect()));
        if depth < d {
            for k in n.kids.iter().take(p) {
                go(k, depth + 1, d, p, out);
            }
        }
    }
    let mut out = vec![];
    for t in trees {
        go(t, 0, d, p, &mut out);
    }
    out
}

/// How the starting items are chosen.
#[derive(Clone, Debug, Hash)]
pub struct Args {
    pub names: Vec<String>,
    pub regex: bool,
}

impl Args {
    pub fn none() -> Args {
        Args { names: vec![], regex: false }
    }
    pub fn names(v: &[&str]) -> Args {
        Args { names: v.iter().map(|s| s.to_string()).collect(), regex: false }
    }
    /// The regular expressions used here with their own matchers.
    pub fn matches(&self, name: &str) -> bool {
        self.names.iter().any(|re| match re.as_str() {
            "." => true,
            "^[ac]$" => name == "a" || name == "c",
            "b" => name.contains('b'),
            "^zz$" => name == "zz",
            r if r.starts_with("^item ") && r.ends_with('$') => name == &r[1..r.len() - 1],
            r => match PATTERNS.iter().find(|p| p.0 == r) {
                Some(p) => p.1(name),
                None => panic!("harness: no matcher for {:?}", r),
            },
        })
    }
}

fn non_increasing(keys: &[u32], what: &str) -> Result<(), String> {
    if keys.windows(2).any(|w| w[0] < w[1]) {
        return Err(format!("{} are not by decreasing size: {:?}", what, keys));
    }
    Ok(())
}

/// Checks the starting items against the selection.
fn check_starts(s: &Spec, args: &Args, got: &[usize], default: Vec<usize>, key: &[u32], sorted_regex: bool) -> Result<(), String> {
    let sorted = |v: &[usize]| {
        let mut v = v.to_vec();
        v.sort_unstable();
        v
    };
    let keys: Vec<u32> = got.iter().map(|i| key[*i]).collect();
    if args.names.is_empty() {
        if sorted(got) != sorted(&default) {
            return Err(format!("starting items {:?}, expected {:?}", got, default));
        }
        non_increasing(&keys, "starting items")
    } else if args.regex {
        let want: Vec<usize> = (0..s.n()).filter(|i| args.matches(&s.names[*i])).collect();
        if sorted(got) != want {
            return Err(format!("starting items {:?}, expected {:?}", got, want));
        }
        if sorted_regex {
            non_increasing(&keys, "starting items")?;
        }
        Ok(())
    } else {
        let want: Vec<usize> = args.names.iter().filter_map(|n| s.names.iter().position(|m| m == n)).collect();
        if got != &want[..] {
            return Err(format!("starting items {:?}, expected {:?}", got, want));
        }
        Ok(())
    }
}

fn run_paths(s: &Spec, f: &Facts, items: &mut Items, args: &Args, desc: bool, limits: &[(Option<u32>, Option<u32>)], c: &Case) -> Result<(), String> {
    let by = s.by_name();
    let next = if desc { &s.adj } else { &f.pred };
    let total = f64::from(s.total);
    let o = crate::opts::paths(&args.names, args.regex, desc, Some(u32::MAX), Some(u32::MAX));
    let text = emit(|i| twiggy_analyze::paths(i, &o), items, Fmt::Text)?;
    c.trace();
    let idx = |n: &str| by.get(n).cloned().ok_or_else(|| format!("unknown item {:?} is listed", n));
    let lines: Vec<(usize, usize)> = read_paths(Fmt::Text, &text, desc)?
        .iter()
        .map(|(l, _)| Ok((l.depth.unwrap(), idx(&l.name)?)))
        .collect::<Result<_, String>>()?;
    let trees = to_trees(&lines)?;
    let starts: Vec<usize> = trees.iter().map(|t| t.item).collect();
    let default = if desc { s.roots.clone() } else { (0..s.n()).collect() };
    check_starts(s, args, &starts, default, &s.sizes, false).map_err(|e| format!("{}\n{}", e, text))?;
    for t in &trees {
        check_path_node(s, next, t, &mut vec![]).map_err(|e| format!("{}\n{}", e, text))?;
    }
    for &(d, p) in limits {
        let o = crate::opts::paths(&args.names, args.regex, desc, d, p);
        let want = prune(&trees, d.unwrap_or(10) as usize, p.unwrap_or(10) as usize);
        for fmt in FMTS {
            let text = emit(|i| twiggy_analyze::paths(i, &o), items, fmt)?;
            c.trace();
            let fail = |e: String| Err(format!("{} with depth {:?}, paths {:?}: {}\n{}", fmt.name(), d, p, e, text));
            let got = match read_paths(fmt, &text, desc) {
                Ok(g) => g,
                Err(e) => return fail(e),
            };
            if got.len() != want.len() {
                return fail(format!("{} rows, expected {}", got.len(), want.len()));
            }
            for ((l, path), (depth, item, kids)) in got.iter().zip(&want) {
                if l.name != s.names[*item] || l.depth.map_or(false, |d| d != *depth) {
                    return fail(format!("row {:?}, expected {:?} at depth {}", l, s.names[*item], depth));
                }
                if !(fmt == Fmt::Text && *depth > 0) {
                    if l.nums[0] != Some(f64::from(s.sizes[*item])) || !pct_ok(fmt, l.nums[1], f64::from(s.sizes[*item]), total) {
                        return fail(format!("wrong size of {:?}", l));
                    }
                }
                if let Some(path) = path {
                    let mut w: Vec<&str> = kids.iter().map(|k| s.names[*k].as_str()).collect();
                    if !w.is_empty() {
                        w.push(&s.names[*item]);
                    }
                    if *path != w.join(" -> ") {
                        return fail(format!("path of {:?} is {:?}, expected {:?}", l.name, path, w.join(" -> ")));
                    }
                }
            }
        }
    }
    Ok(())
}

fn all_args(n: usize) -> Vec<Args> {
    let names: Vec<String> = (0..n).map(letter).collect();
    let mut v = vec![Args::none(), Args::names(&["zz"])];
    for a in &names {
        v.push(Args::names(&[a]));
        for b in &names {
            v.push(Args::names(&[a, b]));
        }
    }
    if n > 0 {
        v.push(Args::names(&["zz", &names[n - 1], &names[0]]));
    }
    for r in [&["."][..], &["^[ac]$"], &["b"], &["^zz$"], &["b", "^[ac]$"], &["b", "."]] {
        v.push(Args { names: r.iter().map(|s| s.to_string()).collect(), regex: true });
    }
    v
}

/// Selections by the names of a style and by near misses of them.
pub fn style_args(style: usize) -> Vec<Args> {
    let mut v = vec![Args::none()];
    let mut add = |n: &str| v.push(Args::names(&[n]));
    for (n, raw, _) in STYLES[style] {
        add(n);
        if raw != n {
            add(raw);
        }
        let cut: String = n.chars().take(n.chars().count().saturating_sub(1)).collect();
        add(&cut);
        add(&n[n.char_indices().nth(1).map_or(n.len(), |x| x.0)..]);
        add(&format!("{} ", n));
        add(&n.to_uppercase());
    }
    add("");
    for w in STYLES[style].windows(2) {
        v.push(Args::names(&[w[1].0, w[0].0]));
    }
    for p in PATTERNS {
        v.push(Args { names: vec![p.0.to_string()], regex: true });
        v.push(Args::names(&[p.0]));
    }
    v.push(Args { names: vec!["^_ZN".into(), "\\[0\\]$".into()], regex: true });
    v
}

pub const MANY_ARGS: &str = "selections of up to 40 names or expressions (and numbers around powers of 2 and 10 up to 257, thorough 1025): all items in either order, every second one between unknown names, each one twice";

/// `MANY_ARGS` among the items called `item 0` to `item n-1`.
pub fn many_args(ch: &mut Chooser, n: usize) -> Args {
    let order = ch.pick(4);
    let regex = ch.flag();
    let name = |i: usize| if regex { format!("^item {}$", i) } else { format!("item {}", i) };
    let names = match order {
        0 => (0..n).map(name).collect(),
        1 => (0..n).rev().map(name).collect(),
        2 => (0..n).map(|i| name(if i % 2 == 0 { i } else { i + 10 * n + 100 })).collect(),
        _ => (0..n).map(|i| name(i / 2)).collect(),
    };
    Args { names, regex }
}

fn grid(d: usize, p: usize) -> Vec<(Option<u32>, Option<u32>)> {
    let mut v = vec![(None, None), (Some(u32::MAX), Some(1)), (Some(1), Some(u32::MAX))];
    for a in 0..=d {
        for b in 0..=p {
            v.push((Some(a as u32), Some(b as u32)));
        }
    }
    v
}

/// Named shapes with `n` items.
pub fn shape(kind: usize, n: usize) -> Spec {
    let mut s = Spec::plain(n);
    s.names = (0..n).map(|i| format!("item {}", i)).collect();
    for i in 0..n {
        match kind {
            // chain
            0 => {
                if i + 1 < n {
                    s.adj[i].push(i + 1)
                }
            }
            // ring
            1 => s.adj[i].push((i + 1) % n),
            // star out of 0
            2 => {
                if i > 0 {
                    s.adj[0].push(i)
                }
            }
            // star into 0
            3 => {
                if i > 0 {
                    s.adj[i].push(0)
                }
            }
            // binary tree
            4 => {
                for k in [2 * i + 1, 2 * i + 2] {
                    if k < n {
                        s.adj[i].push(k)
                    }
                }
            }
            // ladder: two successors each
            5 => {
                for k in [i + 1, i + 2] {
                    if k < n {
                        s.adj[i].push(k)
                    }
                }
            }
            // chain with links back to every earlier item and self references
            _ => {
                for k in 0..n.min(i + 2) {
                    s.adj[i].push(k)
                }
            }
        }
    }
    s.roots = if kind == 3 { (1..n).collect() } else { vec![0] };
    s.sizes = (0..n).map(|i| ((i * 7) % 5 + (i * 3) % 11) as u32).collect();
    s.total = s.sum() + 100;
    s
}

pub fn c09(tier: Tier) -> Check {
    let small = fam(
        "graphs",
        "all digraphs with self loops on 0..3 items, both directions, all root sets when descending; per graph: no arguments, all single names and ordered pairs, unknown names, the name of the synthetic root, regex sets; all depth limits 0..=n+1 and child limits 0..=n+1, defaults, three formats",
        |ch, c| {
            let n = ch.pick(4);
            let desc = ch.flag();
            let mut s = any_graph(ch, n, true, !desc && n > 0);
            if !desc {
                // predecessors do not depend on the roots; one_root leaves out edges to item 0
                for i in 0..n {
                    if ch.flag() {
                        s.adj[i].insert(0, 0);
                    }
                }
            }
            s.sizes = (0..n).map(|i| [4, 4, 2][i]).collect();
            s.total = s.sum() + 3;
            let f = s.facts();
            c.state((&s, desc));
            c.sample(|| format!("{} descending {}", s.show(), desc));
            if s.adj.iter().any(|a| !a.is_empty()) {
                c.nontrivial();
            }
            let mut items = s.build();
            let mut args = all_args(n);
            // the synthetic root cannot be named
            args.push(Args::names(&["<meta root>"]));
            for a in args {
                let limits = if a.names.is_empty() { grid(n + 1, n + 1) } else { grid(if a.names.len() > 1 { 1 } else { 3 }, 2) };
                run_paths(&s, &f, &mut items, &a, desc, &limits, c).map_err(|e| format!("{}\n{}\ndescending {} arguments {:?}", e, s.show(), desc, a))?;
            }
            Ok(())
        },
    );
    let four = fam(
        "graphs-4",
        "all digraphs on 4 items (thorough: with self loops), both directions, all items or all roots as start, depth limits 0..5, child limits 0..4",
        move |ch, c| {
            let desc = ch.flag();
            let mut s = Spec::plain(4);
            for i in 0..4 {
                let others: Vec<usize> = (0..4).filter(|j| *j != i || tier.thorough()).collect();
                let m = ch.pick(1 << others.len());
                s.adj[i] = others.iter().enumerate().filter(|(b, _)| m >> b & 1 == 1).map(|(_, j)| *j).collect();
            }
            s.roots = vec![0, 1, 2, 3];
            s.sizes = vec![1, 5, 3, 5];
            s.total = 20;
            let f = s.facts();
            c.state((&s, desc));
            c.sample(|| format!("{} descending {}", s.show(), desc));
            c.nontrivial();
            let mut items = s.build();
            run_paths(&s, &f, &mut items, &Args::none(), desc, &tier.pick(vec![(None, None), (Some(2), Some(2)), (Some(3), Some(1)), (Some(1), Some(3)), (Some(4), Some(4)), (Some(0), Some(5))], grid(5, 4)), c)
                .map_err(|e| format!("{}\n{}\ndescending {}", e, s.show(), desc))
        },
    );
    let named = fam(
        "names",
        "all digraphs on 2 items and 8 graphs on 5, both directions, names (also empty, blank and with arrows), symbols and kinds of every style, selections by every name, symbol, near miss (cut, extended, upper case), pattern as a literal and as a regular expression",
        move |ch, c| {
            let style = ch.pick(STYLES.len());
            let from = ch.pick(5);
            let desc = ch.flag();
            let mut s = if ch.flag() {
                any_graph(ch, 2, true, false)
            } else {
                let mut s = shape(ch.pick(7), 5);
                s.roots = vec![1, 3];
                s
            };
            if s.n() == 2 {
                s.sizes = vec![1, 2];
                s.total = 9;
            }
            s.dress(style, from);
            let f = s.facts();
            c.state((&s, desc));
            c.sample(|| format!("{} descending {}", s.show(), desc));
            c.nontrivial();
            let mut items = s.build();
            for a in style_args(style) {
                run_paths(&s, &f, &mut items, &a, desc, &[(None, None), (Some(1), Some(1))], c)
                    .map_err(|e| format!("{}\n{}\ndescending {} arguments {:?}", e, s.show(), desc, a))?;
            }
            Ok(())
        },
    );
    let large = fam(
        "large-sizes",
        "all digraphs without self loops on 1..3 items, all root sets, both directions, sizes 0, 1 and around 2^31 and 2^32 that add up to less than 2^32, in a file of their sum or of 7 bytes, no arguments and all items by regex",
        move |ch, c| {
            let n = ch.range(1, 3);
            let desc = ch.flag();
            let mut s = any_graph(ch, n, false, !desc);
            if !large_sizes(&mut s, ch) {
                return Ok(());
            }
            let f = s.facts();
            c.state((&s, desc));
            c.sample(|| format!("{} descending {}", s.show(), desc));
            c.nontrivial();
            let mut items = s.build();
            for a in [Args::none(), Args { names: vec![".".into()], regex: true }] {
                run_paths(&s, &f, &mut items, &a, desc, &[(None, None)], c).map_err(|e| format!("{}\n{}\ndescending {}", e, s.show(), desc))?;
            }
            Ok(())
        },
    );
    let wide = fam(
        "wide",
        "stars of up to 1025 (thorough 4097) items with default and large limits, both directions, all items or the centre",
        {
            let numbers = counts(1, tier.pick(1025, 4097));
            move |ch, c| {
                let kind = 2 + ch.pick(2);
                let n = *ch.of(&numbers);
                let desc = ch.flag();
                let s = shape(kind, n);
                let a = if ch.flag() { Args::none() } else { Args::names(&["item 0"]) };
                let f = s.facts();
                c.state((&s, desc, &a.names));
                c.sample(|| format!("{} descending {}", s.show(), desc));
                c.nontrivial();
                let l = [(None, None), (Some(1), Some((n as u32).saturating_sub(2))), (Some(1), Some((n as u32).saturating_sub(1))), (Some(2), Some(u32::MAX))];
                run_paths(&s, &f, &mut s.build(), &a, desc, &l[..if n < 3 { 1 } else { 4 }], c).map_err(|e| format!("{}\nstar {} of {} descending {}", e, kind, n, desc))
            }
        },
    );
    let shapes = fam(
        "shapes",
        "chains, rings, stars, trees, ladders, back-linked chains of 1..16 items, both directions, no arguments or one name, default limits and limits around the size",
        move |ch, c| {
            let kind = ch.pick(7);
            let n = ch.range(1, if kind >= 5 { tier.pick(7, 8) } else { tier.pick(16, 40) });
            let desc = ch.flag();
            let arg = ch.pick(3);
            let s = shape(kind, n);
            let f = s.facts();
            c.state((&s, desc, arg));
            c.sample(|| format!("{} descending {}", s.show(), desc));
            c.nontrivial();
            let mut items = s.build();
            let a = match arg {
                0 => Args::none(),
                1 => Args::names(&["item 0"]),
                _ => Args { names: vec![format!("item {}", n - 1)], regex: false },
            };
            let mut l = vec![(None, None), (None, Some(3)), (Some(3), None)];
            for x in [n - 1, n, n + 1, 9, 10, 11] {
                l.push((Some(x as u32), Some(u32::MAX)));
                l.push((Some(20), Some(x as u32)));
            }
            run_paths(&s, &f, &mut items, &a, desc, &l, c).map_err(|e| format!("{}\n{}\ndescending {}", e, s.show(), desc))
        },
    );
    let long = fam(
        "long",
        "chains and rings of 17..40 items and of numbers around powers of 2 and 10 up to 1025 (thorough 4097), both directions, from the first or last one, default limits and depths around the length",
        {
            let numbers: Vec<usize> = counts(40, tier.pick(1025, 4097)).into_iter().filter(|n| *n > 16).collect();
            move |ch, c| {
                let kind = ch.pick(2);
                let n = *ch.of(&numbers);
                let desc = ch.flag();
                let s = shape(kind, n);
                let a = Args { names: vec![format!("item {}", if ch.flag() { 0 } else { n - 1 })], regex: false };
                c.state((&s, desc, &a.names));
                c.sample(|| format!("{} descending {}", s.show(), desc));
                c.nontrivial();
                let l = [(None, None), (Some(n as u32 - 2), None), (Some(n as u32 - 1), Some(1)), (Some(u32::MAX), Some(u32::MAX))];
                run_paths(&s, &s.facts(), &mut s.build(), &a, desc, &l, c).map_err(|e| format!("{}\n{} of {} descending {} from {:?}", e, ["chain", "ring"][kind], n, desc, a.names))
            }
        },
    );
    let most = if tier.thorough() { &HUGE[..] } else { &HUGE[2..3] };
    let vast = fam("huge", format!("{:?} items in a fan or a binary tree, both directions, no arguments (fan) or the first or the last item; no limits and limits around 65536", most), move |ch, c| {
        let n = *ch.of(&most);
        let shape = *ch.of(&[2, 4]);
        let desc = ch.flag();
        let a = match ch.pick(3) {
            0 if shape == 2 => Args::none(),
            0 => return Ok(()),
            k => Args { names: vec![format!("item {}", (k - 1) * (n - 1))], regex: false },
        };
        let (s, f) = huge(n, shape, false);
        c.state((n, shape, desc, &a.names));
        c.sample(|| format!("{} items, shape {}", n, shape));
        c.nontrivial();
        let l = [(None, None), (Some(1), Some(65536)), (Some(40), Some(65535)), (Some(u32::MAX), Some(u32::MAX))];
        run_paths(&s, &f, &mut s.build(), &a, desc, &l, c).map_err(|e| format!("{}\n{} items, shape {}, descending {}, arguments {:?}", e.chars().take(1000).collect::<String>(), n, shape, desc, a.names))
    });
    let args = fam("many-arguments", MANY_ARGS, {
        let numbers = counts(40, tier.pick(257, 1025));
        move |ch, c| {
            let n = *ch.of(&numbers);
            let s = shape(2, n);
            let a = many_args(ch, n);
            let desc = ch.flag();
            c.state((n, &a, desc));
            c.sample(|| format!("{} items, arguments {:?}", n, a));
            c.nontrivial();
            run_paths(&s, &s.facts(), &mut s.build(), &a, desc, &[(None, None), (Some(1), Some(2))], c).map_err(|e| format!("{}\n{} items, arguments {:?}", e, n, a))
        }
    });
    let alike = super::alike::root_named(|n| {
        let (none, exact, re) = ([], [n.to_string(), "b".into()], ["(?i)ROOT>$".to_string()]);
        let mut v = vec![];
        for desc in [false, true] {
            v.push(suite::paths(&none, false, desc, None, None));
            v.push(suite::paths(&exact, false, desc, None, None));
            v.push(suite::paths(&re, true, desc, Some(1), Some(1)));
        }
        v
    });
    Check {
        id: "C09",
        level: "model_checking",
        families: vec![small, large, named, wide, shapes, long, vast, args, four, alike],
        assumptions: vec!["item names differ", "the file is not empty", "the order among the callers of one item is not specified, but is the same with and without limits"],
        hang_secs: 200,
    }
}

// ---------------------------------------------------------------- dominators

#[derive(Clone, Debug)]
struct DLine {
    /// depth below the synthetic root (CSV: unknown)
    depth: Option<usize>,
    /// None: the synthetic root
    item: Option<usize>,
    nums: [Option<f64>; 4], // shallow, %, retained, %
    id: String,
    idom: String,
}

type DReport = (Vec<DLine>, Option<(String, f64, Option<f64>)>);

fn read_dominators(s: &Spec, fmt: Fmt, text: &str, args: bool) -> Result<DReport, String> {
    let by = s.by_name();
    let idx = |n: &str| -> Result<Option<usize>, String> {
        if n == "<meta root>" {
            return Ok(None);
        }
        by.get(n).map(|i| Some(*i)).ok_or_else(|| format!("unknown item {:?} is listed", n))
    };
    let mut out = vec![];
    let mut summary = None;
    let is_summary = |n: &str| n.ends_with(" Unreachable Items]");
    match fmt {
        Fmt::Text => {
            let rows = text_rows(text, &["Retained Bytes", "Retained %", "Dominator Tree"], &[Col::N, Col::P])?;
            let last = rows.len();
            for (k, r) in rows.into_iter().enumerate() {
                if is_summary(&r.name) {
                    if k + 1 != last {
                        return Err("the summary is not the last row".into());
                    }
                    summary = Some((r.name, r.nums[0].ok_or("no size")?, r.nums[1]));
                    continue;
                }
                let (d, name) = unindent(&r.name, "  ⤷ ");
                let item = idx(&name)?;
                if item.is_none() {
                    return Err("the synthetic root is listed".into());
                }
                out.push(DLine { depth: Some(d + 1), item, nums: [None, None, r.nums[0], r.nums[1]], id: String::new(), idom: String::new() });
            }
        }
        Fmt::Json => {
            let j = rdr::parse_json(text)?;
            let f = |j: &rdr::Json, k: &str| j.get(k).and_then(|v| v.as_f64());
            fn walk(
                j: &rdr::Json,
                depth: usize,
                idx: &dyn Fn(&str) -> Result<Option<usize>, String>,
                out: &mut Vec<DLine>,
            ) -> Result<(), String> {
                let f = |k: &str| j.get(k).and_then(|v| v.as_f64());
                let item = idx(j.get("name").and_then(|v| v.as_str()).ok_or("JSON: no name")?)?;
                let nums = [f("shallow_size"), f("shallow_size_percent"), f("retained_size"), f("retained_size_percent")];
                out.push(DLine { depth: Some(depth), item, nums, id: String::new(), idom: String::new() });
                if let Some(cs) = j.get("children") {
                    for c in cs.arr().ok_or("JSON: children is not an array")? {
                        walk(c, depth + 1, idx, out)?;
                    }
                }
                Ok(())
            }
            for o in j.get("items").and_then(|v| v.arr()).ok_or("JSON: no items")? {
                walk(o, args as usize, &idx, &mut out)?;
            }
            if let Some(a) = j.get("summary") {
                let a = a.arr().ok_or("JSON: summary is not an array")?;
                if a.len() != 1 {
                    return Err("JSON: summary without or with several entries".into());
                }
                let n = a[0].get("name").and_then(|v| v.as_str()).ok_or("JSON: no name")?;
                summary = Some((n.to_string(), f(&a[0], "retained_size").ok_or("no size")?, f(&a[0], "retained_size_percent")));
            }
        }
        Fmt::Csv => {
            let rows = rdr::parse_csv(text)?;
            if !rows.is_empty()
                && rows[0] != ["Id", "Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent", "ImmediateDominator"]
            {
                return Err(format!("CSV header is {:?}", rows[0]));
            }
            for (k, r) in rows.iter().enumerate().skip(1) {
                let f = |i: usize| r[i].parse::<f64>().map_err(|_| format!("CSV: not a number: {:?}", r[i]));
                let nums = [Some(f(2)?), Some(f(3)?), Some(f(4)?), Some(f(5)?)];
                if r[0].is_empty() {
                    if k + 1 != rows.len() {
                        return Err("the summary is not the last row".into());
                    }
                    if nums[0] != nums[2] || nums[1] != nums[3] || !r[6].is_empty() {
                        return Err(format!("odd summary {:?}", r));
                    }
                    summary = Some((r[1].clone(), nums[2].unwrap(), nums[3]));
                    continue;
                }
                out.push(DLine { depth: None, item: idx(&r[1])?, nums, id: r[0].clone(), idom: r[6].clone() });
            }
        }
    }
    Ok((out, summary))
}

/// (depth, item) in preorder, children in the order the implementation chose.
type Flat = Vec<(usize, Option<usize>)>;

fn run_doms(s: &Spec, f: &Facts, items: &mut Items, args: &Args, limits: &[(Option<u32>, Option<u32>)], c: &Case) -> Result<(), String> {
    let given = !args.names.is_empty();
    let total = f64::from(s.total);
    let o = crate::opts::dominators(&args.names, args.regex, None, None);
    let text = emit(|i| twiggy_analyze::dominators(i, &o), items, Fmt::Json)?;
    c.trace();
    let show = |e: String| format!("{}\n{}", e, text);
    let (lines, _) = read_dominators(s, Fmt::Json, &text, given).map_err(show)?;
    let full: Flat = lines.iter().map(|l| (l.depth.unwrap(), l.item)).collect();
    // the tops
    let top = given as usize;
    let tops: Vec<Option<usize>> = full.iter().filter(|l| l.0 == top).map(|l| l.1).collect();
    if given {
        let t: Vec<usize> = tops.iter().map(|t| t.ok_or("the synthetic root is listed".to_string())).collect::<Result<_, _>>().map_err(show)?;
        check_starts(s, args, &t, vec![], &f.retained, true).map_err(show)?;
    } else if tops != [None] {
        return Err(show("the report does not start at the synthetic root".into()));
    }
    // children of every listed node
    let mut below: BTreeMap<Option<usize>, Vec<usize>> = BTreeMap::new();
    for i in (0..s.n()).filter(|i| f.reach[*i]) {
        below.entry(f.idom[i]).or_default().push(i);
    }
    for (k, &(d, who)) in full.iter().enumerate() {
        let mut kids = vec![];
        for &(d2, w2) in &full[k + 1..] {
            if d2 <= d {
                break;
            }
            if d2 == d + 1 {
                kids.push(w2.ok_or_else(|| show("the synthetic root is listed".into()))?);
            }
        }
        let mut want: Vec<usize> = match who {
            Some(w) if !f.reach[w] => vec![],
            _ => below.get(&who).cloned().unwrap_or_default(),
        };
        non_increasing(&kids.iter().map(|i| f.retained[*i]).collect::<Vec<_>>(), "children").map_err(show)?;
        kids.sort_unstable();
        want.sort_unstable();
        if kids != want {
            return Err(show(format!("below {:?} are {:?}, expected {:?}", who, kids, want)));
        }
    }
    let un: Vec<u32> = (0..s.n()).filter(|i| !f.reach[*i]).map(|i| s.sizes[i]).collect();
    let un_size: u32 = un.iter().sum();
    let want_summary = if !given && un_size > 0 { Some((format!("[{} Unreachable Items]", un.len()), un_size)) } else { None };
    let mut ids: BTreeMap<String, Option<usize>> = BTreeMap::new();
    for &(d, r) in limits {
        let o = crate::opts::dominators(&args.names, args.regex, d, r);
        let (dm, rm) = (d.unwrap_or(u32::MAX) as usize, r.unwrap_or(u32::MAX) as usize);
        let mut want: Flat = vec![];
        let mut n = 0;
        for &(depth, who) in &full {
            if depth == 0 {
                want.push((0, who));
            } else if depth <= dm && n < rm {
                n += 1;
                want.push((depth, who));
            }
        }
        for fmt in FMTS {
            let text = emit(|i| twiggy_analyze::dominators(i, &o), items, fmt)?;
            c.trace();
            let fail = |e: String| Err(format!("{} with depth {:?}, rows {:?}: {}\n{}", fmt.name(), d, r, e, text));
            let (mut got, summary) = match read_dominators(s, fmt, &text, given) {
                Ok(g) => g,
                Err(e) => return fail(e),
            };
            match (&summary, &want_summary) {
                (None, None) => {}
                (Some((n, b, p)), Some((wn, wb))) if n == wn && *b == f64::from(*wb) && pct_ok(fmt, *p, f64::from(*wb), total) => {}
                _ => return fail(format!("summary {:?}, expected {:?}", summary, want_summary)),
            }
            // the row of the synthetic root is not shown in text, and need not be shown with no rows
            let mut w = want.clone();
            let has_root = got.first().map_or(false, |l| l.item.is_none());
            if !has_root && w.first().map_or(false, |l| l.0 == 0) && (fmt == Fmt::Text || rm == 0) {
                w.remove(0);
            }
            if got.len() != w.len() {
                return fail(format!("{} rows, expected {}", got.len(), w.len()));
            }
            for (l, (depth, who)) in got.iter().zip(&w) {
                if l.item != *who || l.depth.map_or(false, |d| d != *depth) {
                    return fail(format!("row {:?}, expected {:?} at depth {}", l, who, depth));
                }
                let (sh, re) = match who {
                    None => (0, f.root_retained),
                    Some(i) => (s.sizes[*i], f.retained[*i]),
                };
                let (sh, re) = (f64::from(sh), f64::from(re));
                if l.nums[2] != Some(re) || !pct_ok(fmt, l.nums[3], re, total) {
                    return fail(format!("retained size in {:?}, expected {}", l, re));
                }
                if fmt != Fmt::Text && (l.nums[0] != Some(sh) || !pct_ok(fmt, l.nums[1], sh, total)) {
                    return fail(format!("shallow size in {:?}, expected {}", l, sh));
                }
            }
            if fmt == Fmt::Csv {
                for l in &got {
                    if *ids.entry(l.id.clone()).or_insert(l.item) != l.item {
                        return fail(format!("id {} stands for two items", l.id));
                    }
                }
                for l in got.drain(..) {
                    // the dominator's id, if that item was listed at any time
                    if let (Some(i), Some(d)) = (l.item, ids.get(&l.idom)) {
                        let want = if f.reach[i] { f.idom[i] } else { Some(i) };
                        if *d != want {
                            return fail(format!("immediate dominator of {:?} is {:?}", s.names[i], d));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c13(tier: Tier) -> Check {
    let run = |s: &Spec, args: &[Args], limits: &dyn Fn(&Args) -> Vec<(Option<u32>, Option<u32>)>, c: &Case| -> Result<(), String> {
        let f = s.facts();
        c.state(s);
        c.sample(|| s.show());
        if f.reach.iter().filter(|r| **r).count() > 1 {
            c.nontrivial();
        }
        let mut items = s.build();
        for a in args {
            run_doms(s, &f, &mut items, a, &limits(a), c).map_err(|e| format!("{}\n{}\narguments {:?}", e, s.show(), a))?;
        }
        Ok(())
    };
    let small = fam(
        "graphs",
        "all digraphs on 0..3 items (thorough: with self loops), all root sets; per graph: no arguments, all single names and ordered pairs, unknown names, regex sets; all depth limits 0..=n+1 and row limits 0..=n+1 for no argument, smaller grids for arguments; three formats",
        move |ch, c| {
            let n = ch.pick(4);
            let mut s = any_graph(ch, n, tier.thorough(), false);
            binary_sizes(&mut s);
            s.total += 4;
            run(&s, &all_args(n), &|a| if a.names.is_empty() { grid(n + 1, n + 1) } else { grid(2, 3) }, c)
        },
    );
    let sizes = fam(
        "sizes",
        "all digraphs without self loops on 1..3 items, all root sets, all sizes 0..2 (ties, nothing unreachable to report), no arguments and all items by regex, limits (depth 0..2) x (rows 0..3)",
        move |ch, c| {
            let n = ch.range(1, 3);
            let mut s = any_graph(ch, n, false, false);
            s.sizes = (0..n).map(|_| ch.pick(3) as u32).collect();
            s.total = s.sum() + 1;
            run(&s, &[Args::none(), Args { names: vec![".".into()], regex: true }], &|_| grid(2, 3), c)
        },
    );
    let four = fam(
        "graphs-4",
        "all digraphs on 4 items (thorough: with self loops), all root sets, no argument, one name, two names; limits on the boundary",
        move |ch, c| {
            let mut s = any_graph(ch, 4, tier.thorough(), false);
            s.sizes = vec![3, 1, 2, 2];
            s.total = 11;
            run(
                &s,
                &[Args::none(), Args::names(&["c"]), Args::names(&["b", "a"])],
                &|_| vec![(None, None), (Some(2), Some(3)), (Some(3), Some(2)), (Some(1), Some(4)), (Some(4), Some(1))],
                c,
            )
        },
    );
    let named = fam(
        "names",
        "all digraphs on 2 items and 7 graphs on 5, names (also empty, blank and with arrows), symbols and kinds of every style, selections by every name, symbol, near miss (cut, extended, upper case), pattern as a literal and as a regular expression",
        move |ch, c| {
            let style = ch.pick(STYLES.len());
            let from = ch.pick(5);
            let mut s = if ch.flag() { any_graph(ch, 2, true, false) } else { shape(ch.pick(7), 5) };
            if s.n() == 2 {
                s.sizes = vec![1, 2];
                s.total = 9;
            }
            s.dress(style, from);
            run(&s, &style_args(style), &|_| vec![(None, None), (Some(1), Some(1))], c)
        },
    );
    let large = fam(
        "large-sizes",
        "all digraphs without self loops on 1..3 items, all root sets, sizes 0, 1 and around 2^31 and 2^32 that add up to less than 2^32, in a file of their sum or of 7 bytes, no arguments and all items by regex",
        move |ch, c| {
            let n = ch.range(1, 3);
            let mut s = any_graph(ch, n, false, false);
            if !large_sizes(&mut s, ch) {
                return Ok(());
            }
            run(&s, &[Args::none(), Args { names: vec![".".into()], regex: true }], &|_| vec![(None, None), (Some(1), Some(2))], c)
        },
    );
    let most = if tier.thorough() { &HUGE[..] } else { &HUGE[2..3] };
    let vast = fam("huge", format!("{:?} items in a fan, a binary tree, or all of them roots; no arguments or the first item; no limits and limits of 65535 to 65537 rows", most), move |ch, c| {
        let n = *ch.of(&most);
        let shape = *ch.of(&[2, 4, 5]);
        let back = tier.thorough() && ch.flag();
        let (s, f) = huge(n, shape, back);
        let a = if ch.flag() { Args::none() } else { Args { names: vec![s.names[s.roots[0]].clone()], regex: false } };
        c.state((n, shape, back, &a.names));
        c.sample(|| format!("{} items, shape {}", n, shape));
        c.nontrivial();
        let l = [(None, None), (Some(1), Some(65536)), (Some(40), Some(65535)), (None, Some(65537))];
        run_doms(&s, &f, &mut s.build(), &a, &l, c).map_err(|e| format!("{}\n{} items, shape {}, backwards {}, arguments {:?}", e.chars().take(1000).collect::<String>(), n, shape, back, a.names))
    });
    let numbers = counts(tier.pick(40, 120), tier.pick(513, 1025));
    let shapes = fam(
        "shapes",
        "chains, rings, stars, trees, ladders, back-linked chains of 1..40 items and (except the latter) of numbers around powers of 2 and 10 up to 513 (thorough: 120, 1025); no arguments, first, last, all by regex; limits around the size",
        move |ch, c| {
            let kind = ch.pick(7);
            let n = if kind < 6 { *ch.of(&numbers) } else { ch.range(1, tier.pick(40, 120)) };
            let garbage = if n > 40 && !tier.thorough() { 1 } else { ch.pick(3) };
            let mut s = shape(kind, n + garbage);
            // the last items are cut off
            for i in 0..n {
                s.adj[i].retain(|j| *j < n);
            }
            s.roots.retain(|r| *r < n);
            if s.roots.is_empty() {
                s.roots.push(0);
            }
            let args = [Args::none(), Args::names(&["item 0"]), Args { names: vec![format!("item {}", n - 1), "item 0".into()], regex: false }, Args { names: vec![".".into()], regex: true }];
            let a = ch.pick(args.len());
            run(
                &s,
                &args[a..a + 1],
                &|_| {
                    let mut l = vec![(None, None)];
                    if n > 120 || n > 40 && !tier.thorough() {
                        l.extend([(Some(1), None), (None, Some(n as u32)), (Some(2), Some(n as u32 - 1))]);
                        return l;
                    }
                    for x in [1, 2, 5, n - 1, n, n + 1] {
                        l.push((Some(x as u32), None));
                        l.push((None, Some(x as u32)));
                        l.push((Some(3), Some(x as u32)));
                    }
                    l
                },
                c,
            )
        },
    );
    let many = fam("many-arguments", MANY_ARGS, {
        let numbers = counts(40, tier.pick(257, 1025));
        move |ch, c| {
            let n = *ch.of(&numbers);
            let s = shape(2, n);
            let a = many_args(ch, n);
            run(&s, &[a], &|_| vec![(None, None), (Some(1), None), (None, Some(n as u32))], c)
        }
    });
    let alike = super::alike::root_named(|n| {
        let (none, exact, re) = ([], [n.to_string(), "b".into()], ["(?i)ROOT>$".to_string()]);
        vec![
            suite::dominators(&none, false, None, None),
            suite::dominators(&none, false, Some(1), Some(2)),
            suite::dominators(&exact, false, None, None),
            suite::dominators(&re, true, Some(1), None),
        ]
    });
    Check {
        id: "C13",
        level: "model_checking",
        families: vec![small, sizes, large, named, shapes, vast, many, four, alike],
        assumptions: vec!["item names differ", "the file is not empty"],
        hang_secs: 200,
    }
}
