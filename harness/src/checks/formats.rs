//! C14 (JSON and names), C15 (the formats agree) and C16 (no influence of earlier analyses).
use super::flat::{read_garbage, read_top};
use super::sums::{read_diff, read_monos};
use super::trees::{read_paths, unindent};
use crate::engine::*;
use crate::model::*;
use crate::rdr::Json;
use crate::report::*;
use crate::suite::{self, Ana};
use crate::{rdr, wasmgen, Check, Tier};
use std::collections::BTreeMap;
use twiggy_ir::Items;

const H1: &str = "::h0123456789abcdef";
const H2: &str = "::h1111111111111111";
const H3: &str = "::hffffffffffffffff";

/// Items whose names are made of `w`, all sums of sizes distinct, in every role a report knows.
fn named_spec(w: &str, new: bool) -> Spec {
    let mut s = Spec::plain(0);
    let mut add = |name: String, kind: K, old: u32, newsize: u32, adj: &[usize], root: bool| {
        let size = if new { newsize } else { old };
        let i = s.names.len();
        s.names.push(name);
        s.kinds.push(kind);
        s.sizes.push(size);
        s.adj.push(adj.to_vec());
        if root {
            s.roots.push(i);
        }
    };
    add("start".into(), K::Code, 1024, 1024, &[1, 2], true);
    add(w.into(), K::Misc, 512, 100, &[3], false);
    add(format!("{}{}", w, H1), K::Code, 256, 257, &[3, 4], false);
    add(format!("{}{}", w, H2), K::Code, 128, 0, &[], false);
    add(format!("g{}", H3), K::Code, 64, 70, &[], false);
    add(format!("{}g", w), K::Misc, 32, 32, &[6], false);
    add(format!("{}d", w), K::Data, 16, 30, &[], false);
    add(format!("r{}", w), K::Debug, 8, 60, &[1], true);
    s.total = s.sum() + 13;
    s
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn map_strings(j: &Json, f: &dyn Fn(&str) -> String) -> Json {
    match j {
        Json::Str(s) => Json::Str(f(s)),
        Json::Arr(a) => Json::Arr(a.iter().map(|x| map_strings(x, f)).collect()),
        Json::Obj(o) => Json::Obj(o.iter().map(|(k, v)| (k.clone(), map_strings(v, f))).collect()),
        x => x.clone(),
    }
}

/// Analyses with the names they are asked for made of `w`.
fn asked(w: &str) -> Vec<Ana> {
    let h = format!("{}{}", w, H1);
    let r = format!("r{}", w);
    let no = &[];
    vec![
        suite::top(u32::MAX, false),
        suite::top(3, true),
        suite::dominators(no, false, None, None),
        suite::dominators(&strs(&[w, &r]), false, None, None),
        suite::paths(no, false, false, Some(u32::MAX), Some(u32::MAX)),
        suite::paths(&strs(&[w]), false, true, Some(1), Some(1)),
        suite::paths(&strs(&[&h, w]), false, false, None, None),
        suite::monos(no, false, false, None, None),
        suite::monos(&strs(&[w]), false, false, None, Some(1)),
        suite::garbage(10, true),
        suite::garbage(1, false),
        suite::diff(no, false, None),
        suite::diff(&strs(&[&h]), false, None),
    ]
}

fn json_names(w: &str, c: &Case) -> Result<(), String> {
    let (a, b) = (named_spec(w, false), named_spec(w, true));
    let (ra, rb) = (named_spec("Q", false), named_spec("Q", true));
    let (mut a, mut b, mut ra, mut rb) = (a.build(), b.build(), ra.build(), rb.build());
    for (t, r) in asked(w).iter().zip(asked("Q")) {
        let want = map_strings(&rdr::parse_json(&r.text(&mut ra, &mut rb, Fmt::Json)?)?, &|s| s.replace('Q', w));
        let text = t.text(&mut a, &mut b, Fmt::Json)?;
        c.trace();
        let got = rdr::parse_json(&text).map_err(|e| format!("name {:?}, {}: {}\n{}", w, t.name, e, text))?;
        if got != want {
            return Err(format!("name {:?}, {}: decoded {:?}\nexpected {:?}", w, t.name, got, want));
        }
    }
    Ok(())
}

const JSON_CHARS: [char; 36] = [
    '"', '\\', '/', '\0', '\u{1}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1b}', '\u{1f}', ' ', '\u{7f}', '\u{80}',
    '\u{9f}', '\u{a0}', 'é', '\u{7ff}', '\u{800}', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}',
    '\u{1f600}', '\u{10ffff}', '<', 'u', 'n', '{', ']', ',', '%',
];

fn word(ch: &mut Chooser, alphabet: &[char], max: usize) -> String {
    let n = ch.range(0, max);
    (0..n).map(|_| *ch.of(alphabet)).collect()
}

/// A name of `n` bytes or a few more with `c` at the start, in the middle, at the end, at the three places or everywhere.
fn long_name(ch: &mut Chooser, n: usize, c: char) -> String {
    let way = ch.pick(5);
    let mut w: Vec<char> = vec!['a'; n];
    for (k, i) in [0, n / 2, n - 1].into_iter().enumerate() {
        if way == k || way == 3 {
            w[i] = c;
        }
    }
    if way == 4 {
        w = vec![c; n];
    }
    w.into_iter().collect()
}

fn long_lengths(max: usize) -> Vec<usize> {
    let mut ns = crate::model::counts(30, max.min(1025));
    for k in [2048, 4096, 8192, 16384, 32768, 65536] {
        ns.extend([k - 1, k, k + 1]);
    }
    ns.retain(|&n| n <= max);
    ns
}

pub fn c14(tier: Tier) -> Check {
    let ns = long_lengths(tier.pick(8193, 65537));
    let long = fam(
        "long-names",
        format!("names of {:?} characters that are plain except for one of 6 (quote, backslash, newline, U+1, é, U+1F600) at the start, in the middle, at the end, at the three places or everywhere, in the roles and analyses of the words", ns),
        move |ch, c| {
            let n = *ch.of(&ns);
            let x = *ch.of(&['"', '\\', '\n', '\u{1}', 'é', '\u{1f600}']);
            let w = long_name(ch, n, x);
            c.state(&w);
            c.sample(|| format!("{} characters with {:?}", n, x));
            c.nontrivial();
            json_names(&w, c).map_err(|e| e.chars().take(2000).collect())
        },
    );
    let words = fam(
        "words",
        "all names of up to 3 (thorough 4) characters over 36 characters (quote, backslash, controls, DEL, C1 controls, separators, non-BMP, structural characters), as item, generic, instance, garbage and debug names and as arguments, in 13 analyses",
        move |ch, c| {
            let w = word(ch, &JSON_CHARS, tier.pick(3, 4));
            c.state(&w);
            c.sample(|| format!("{:?}", w));
            if w.chars().any(|x| x < ' ' || x == '"' || x == '\\') {
                c.nontrivial();
            }
            json_names(&w, c)
        },
    );
    let scalars = fam(
        "all-characters",
        "every Unicode scalar value in a name, 256 per module, in all analyses without limits",
        |ch, c| {
            let hi = ch.pick(0x110);
            let lo = ch.pick(16);
            let base = (hi * 4096 + lo * 256) as u32;
            let cs: Vec<char> = (base..base + 256).filter_map(char::from_u32).collect();
            if cs.is_empty() {
                return Ok(());
            }
            c.state(base);
            c.sample(|| format!("U+{:04X}..", base));
            c.nontrivial();
            let mk = |f: &dyn Fn(usize) -> String, new: bool| {
                let mut s = Spec::plain(cs.len());
                for i in 0..cs.len() {
                    s.names[i] = f(i);
                    s.sizes[i] = (if new { 3 } else { 1 }) * (i as u32 + 1);
                    s.kinds[i] = if i % 3 == 0 { K::Code } else { K::Misc };
                    if i % 2 == 0 && i + 1 < cs.len() {
                        s.adj[i].push(i + 1);
                        s.roots.push(i);
                    }
                }
                s.total = s.sum() + 1;
                s
            };
            let suffix = |i: usize| if i % 3 == 0 { H1 } else { "" };
            let real = |i: usize| format!("x{}{}", cs[i], suffix(i));
            let plain = |i: usize| format!("Q{}.{}", i, suffix(i));
            let (mut a, mut b) = (mk(&real, false).build(), mk(&real, true).build());
            let (mut ra, mut rb) = (mk(&plain, false).build(), mk(&plain, true).build());
            let no = &[];
            let all = u32::MAX;
            let anas = vec![
                suite::top(all, false),
                suite::dominators(no, false, None, None),
                suite::paths(no, false, true, None, None),
                suite::monos(no, false, false, Some(all), Some(all)),
                suite::garbage(all, true),
                suite::diff(no, false, Some(all)),
            ];
            let back = |s: &str| -> String {
                match s.strip_prefix('Q').and_then(|r| r.split_once('.')) {
                    Some((n, rest)) => format!("x{}{}", cs[n.parse::<usize>().unwrap()], rest),
                    None => s.to_string(),
                }
            };
            for t in &anas {
                let want = map_strings(&rdr::parse_json(&t.text(&mut ra, &mut rb, Fmt::Json)?)?, &back);
                let text = t.text(&mut a, &mut b, Fmt::Json)?;
                c.trace();
                let got = rdr::parse_json(&text).map_err(|e| format!("{}: {}", t.name, e))?;
                if got != want {
                    return Err(format!("characters from U+{:04X}, {}: decoded names differ", base, t.name));
                }
            }
            Ok(())
        },
    );
    let shapes = fam(
        "shapes",
        "all digraphs of up to 3 items (loops, any roots, kinds by position) with hostile names under every combination of the option grid of C15: one valid document, unique keys, finite numbers",
        move |ch, c| {
            let n = ch.range(0, 3);
            let mut s = any_graph(ch, n, true, false);
            hostile(&mut s);
            c.state(&s);
            c.sample(|| s.show());
            c.nontrivial();
            let mut b = s.clone();
            for (i, x) in b.sizes.iter_mut().enumerate() {
                *x = [5, 0, 9][i];
            }
            let (mut a, mut b) = (s.build(), b.build());
            for (_, t) in grid(&s.names) {
                let text = t.text(&mut a, &mut b, Fmt::Json)?;
                c.trace();
                rdr::parse_json(&text).map_err(|e| format!("{}: {}\n{}\n{}", t.name, e, s.show(), text))?;
            }
            Ok(())
        },
    );
    let modules = fam(
        "wasm-names",
        "all names of up to 3 (thorough 4) of the characters in the name section (functions, data, module), as import module and field, export and custom section name of a module: decoded names of top and garbage equal the module's",
        move |ch, c| {
            let w = word(ch, &JSON_CHARS, tier.pick(3, 4));
            use wasmgen::*;
            let mut m = Module::default();
            m.sects = vec![
                Sect::Types(vec![FuncType(vec![], vec![])]),
                Sect::Imports(vec![Import { module: w.clone(), field: format!("f{}", w), kind: ImportKind::Func(0) }]),
                Sect::Funcs(vec![0, 0]),
                Sect::Mems(vec![(1, None)]),
                Sect::Globals(vec![(I32, false, Expr::I32(1))]),
                Sect::Exports(vec![
                    Export { name: w.clone(), space: Space::Func, index: 1 },
                    Export { name: format!("m{}", w), space: Space::Memory, index: 0 },
                ]),
                Sect::Code(vec![
                    Body { locals: vec![], ops: vec![Op::Call(0)] },
                    Body { locals: vec![], ops: vec![Op::Nop, Op::Nop] },
                ]),
                Sect::Datas(vec![Data { flag: 0, off: Expr::I32(0), bytes: vec![1, 2, 3] }]),
                Sect::Custom(format!("c{}", w), vec![1, 2, 3, 4, 5, 6]),
                Sect::Name(vec![NameSub::Module(w.clone()), NameSub::Funcs(vec![(1, format!("x{}", w)), (2, w.clone())])]),
            ];
            c.state(&w);
            c.sample(|| format!("{:?}", w));
            c.nontrivial();
            let x = expect(&m);
            let mut items = twiggy_parser::parse(&m.bytes()).map_err(|e| format!("not parsed: {}", e))?;
            let mut other = Spec::plain(0).build();
            let text = suite::top(u32::MAX, false).text(&mut items, &mut other, Fmt::Json)?;
            c.trace();
            let mut got: Vec<String> = read_top(Fmt::Json, &text, false)?.into_iter().map(|r| r.name).collect();
            let mut want: Vec<String> = x.items.iter().map(|i| i.name.clone()).collect();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("name {:?}: decoded {:?}\nexpected {:?}", w, got, want));
            }
            for t in asked(&w) {
                let text = t.text(&mut items, &mut other, Fmt::Json)?;
                c.trace();
                rdr::parse_json(&text).map_err(|e| format!("{}: {}\n{}", t.name, e, text))?;
            }
            Ok(())
        },
    );
    Check {
        id: "C14",
        level: "model_checking",
        families: vec![shapes, words, long, modules, scalars],
        assumptions: vec!["the JSON reader accepts exactly RFC 8259 documents with unique keys"],
        hang_secs: 60,
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Top(bool),
    Dominators,
    Paths(bool),
    Monos,
    Garbage,
    Diff,
}

fn hostile(s: &mut Spec) {
    let names = ["a,\"b", "say \"x\", y::h0123456789abcdef", "l1\"\\é\t", "v<,>"];
    for i in 0..s.n() {
        s.names[i] = names[i].into();
        s.kinds[i] = [K::Data, K::Code, K::Misc, K::Code][i];
        s.sizes[i] = 1 << i;
    }
    s.total = 19;
}

/// Every analysis under a product of options.
fn grid(names: &[String]) -> Vec<(Kind, Ana)> {
    let mut v = vec![];
    for n in [0, 1, 2, u32::MAX] {
        for r in [false, true] {
            v.push((Kind::Top(r), suite::top(n, r)));
        }
    }
    let mut args: Vec<(Vec<String>, bool)> = vec![(vec![], false), (strs(&[".*"]), true), (strs(&["no such"]), false)];
    if let Some(l) = names.last() {
        args.push((vec![l.clone(), names[0].clone()], false));
    }
    for (a, re) in &args {
        for d in [None, Some(0), Some(1), Some(2)] {
            for r in [None, Some(0), Some(1), Some(3)] {
                v.push((Kind::Dominators, suite::dominators(a, *re, d, r)));
                for desc in [false, true] {
                    v.push((Kind::Paths(desc), suite::paths(a, *re, desc, d, r)));
                }
            }
        }
        // generics are named without the hash
        let g: Vec<String> = a.iter().map(|n| n.split("::h").next().unwrap().to_string()).collect();
        for only in [false, true] {
            for g_ in [None, Some(0), Some(1)] {
                for m in [None, Some(0), Some(1)] {
                    v.push((Kind::Monos, suite::monos(&g, *re, only, g_, m)));
                }
            }
        }
        for n in [None, Some(0), Some(1), Some(2)] {
            v.push((Kind::Diff, suite::diff(a, *re, n)));
            v.push((Kind::Diff, suite::diff_as_new(a, *re, n)));
        }
    }
    for n in [0, 1, 2, 10] {
        for show in [false, true] {
            v.push((Kind::Garbage, suite::garbage(n, show)));
        }
    }
    v
}

/// One row as far as the formats share it: indentation, name, numbers; None is not shown.
#[derive(Clone, Debug, PartialEq)]
struct Fact {
    depth: Option<usize>,
    name: String,
    nums: Vec<Option<f64>>,
    /// which of the numbers are percentages
    pct: Vec<bool>,
}

fn flat(rows: Vec<Row>, pct: &[bool]) -> Vec<Fact> {
    rows.into_iter().map(|r| Fact { depth: None, name: r.name, nums: r.nums, pct: pct.to_vec() }).collect()
}

fn is_summary(n: &str) -> bool {
    n.ends_with(" Unreachable Items]") && n.starts_with("Σ [") || n.starts_with("Σ [") && n.ends_with(" Total Rows]") || n.starts_with("... and ") && n.ends_with(" more.")
}

fn facts(kind: Kind, fmt: Fmt, text: &str) -> Result<Vec<Fact>, String> {
    let np = [false, true, false, true];
    Ok(match kind {
        Kind::Top(ret) => {
            let mut r = read_top(fmt, text, ret)?;
            if fmt == Fmt::Text {
                r.retain(|r| !is_summary(&r.name));
            } else {
                // text shows one pair of numbers
                if r.iter().any(|r| ret && r.nums[2].is_none() || r.nums[0].is_none()) {
                    return Err("a size is missing".into());
                }
            }
            flat(r, &np)
        }
        Kind::Garbage => flat(read_garbage(fmt, text)?, &[false, true]),
        Kind::Diff => flat(read_diff(fmt, text)?, &[false]),
        Kind::Paths(desc) => read_paths(fmt, text, desc)?
            .into_iter()
            .map(|(l, _)| Fact { depth: l.depth, name: l.name, nums: l.nums, pct: vec![false, true] })
            .collect(),
        Kind::Monos => {
            let mut out = vec![];
            let cells = if fmt == Fmt::Csv { rdr::parse_csv(text)? } else { vec![] };
            for (i, g) in read_monos(fmt, text)?.into_iter().enumerate() {
                out.push(Fact { depth: Some(0), name: g.name, nums: vec![g.bloat, g.bloat_pct, g.size, g.pct], pct: np.to_vec() });
                if fmt == Fmt::Csv {
                    // one cell for all instances
                    out.push(Fact { depth: None, name: cells[i + 1][5].clone(), nums: vec![], pct: vec![] });
                } else {
                    for (n, s, p) in g.insts {
                        out.push(Fact { depth: Some(1), name: n, nums: vec![None, None, s, p], pct: np.to_vec() });
                    }
                }
            }
            out
        }
        Kind::Dominators => {
            let mut out = vec![];
            let mut put = |depth, name: String, nums: Vec<Option<f64>>| {
                if name != "<meta root>" {
                    out.push(Fact { depth, name, nums, pct: np.to_vec() })
                }
            };
            match fmt {
                Fmt::Text => {
                    for r in text_rows(text, &["Retained Bytes", "Retained %", "Dominator Tree"], &[Col::N, Col::P])? {
                        let nums = vec![None, None, r.nums[0], r.nums[1]];
                        if is_summary(&r.name) {
                            put(None, r.name, nums);
                        } else {
                            let (d, n) = unindent(&r.name, "  ⤷ ");
                            put(Some(d), n, nums);
                        }
                    }
                }
                Fmt::Json => {
                    let j = rdr::parse_json(text)?;
                    fn walk(j: &Json, d: usize, put: &mut dyn FnMut(Option<usize>, String, Vec<Option<f64>>)) {
                        let f = |k: &str| j.get(k).and_then(|v| v.as_f64());
                        let name = j.get("name").and_then(|v| v.as_str()).unwrap_or("?").to_string();
                        // the synthetic root is not a row of the text
                        let below = if name == "<meta root>" { 0 } else { d + 1 };
                        put(Some(d), name, vec![f("shallow_size"), f("shallow_size_percent"), f("retained_size"), f("retained_size_percent")]);
                        for k in j.get("children").and_then(|c| c.arr()).unwrap_or(&[]) {
                            walk(k, below, put);
                        }
                    }
                    for o in j.get("items").and_then(|v| v.arr()).ok_or("JSON: no items")? {
                        walk(o, 0, &mut put);
                    }
                    for o in j.get("summary").and_then(|v| v.arr()).unwrap_or(&[]) {
                        let f = |k: &str| o.get(k).and_then(|v| v.as_f64());
                        let n = o.get("name").and_then(|v| v.as_str()).ok_or("JSON: no name")?;
                        put(None, n.into(), vec![None, None, f("retained_size"), f("retained_size_percent")]);
                    }
                }
                Fmt::Csv => {
                    for r in rdr::parse_csv(text)?.iter().skip(1) {
                        let f = |i: usize| r[i].parse::<f64>().map(Some).map_err(|_| format!("CSV: not a number: {:?}", r[i]));
                        let nums = vec![f(2)?, f(3)?, f(4)?, f(5)?];
                        put(None, r[1].clone(), nums);
                    }
                }
            }
            out
        }
    })
}

/// CSV has the instances of a generic in one cell: fold those of the other format alike.
fn fold_insts(v: Vec<Fact>) -> Vec<Fact> {
    let mut out: Vec<Fact> = vec![];
    let mut names: Vec<String> = vec![];
    let mut open = false;
    for f in v {
        if f.depth == Some(0) {
            if open {
                out.push(Fact { depth: None, name: names.join(", "), nums: vec![], pct: vec![] });
                names.clear();
            }
            open = true;
            out.push(f);
        } else {
            names.push(f.name);
        }
    }
    if open {
        out.push(Fact { depth: None, name: names.join(", "), nums: vec![], pct: vec![] });
    }
    out
}

/// The rows of `a` and `b` agree in everything both show. `round`: one of them shows two decimals.
fn agree(a: &[Fact], b: &[Fact], round: bool) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} rows against {}", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        let mut bad = x.name != y.name || x.depth.is_some() && y.depth.is_some() && x.depth != y.depth;
        for i in 0..x.nums.len().min(y.nums.len()) {
            if let (Some(p), Some(q)) = (x.nums[i], y.nums[i]) {
                bad |= if x.pct[i] && round { (p - q).abs() > 0.005001 } else { p != q };
            }
        }
        if bad {
            return Err(format!("rows differ: {:?}\n        against {:?}", x, y));
        }
    }
    Ok(())
}

fn three(kind: Kind, t: &Ana, a: &mut Items, b: &mut Items, lines: bool, c: &Case) -> Result<(), String> {
    let mut texts = vec![];
    for f in FMTS {
        texts.push(t.text(a, b, f)?);
        c.trace();
    }
    let fail = |e: String| format!("{}: {}\n{}\n{}\n{}", t.name, e, texts[0], texts[1], texts[2]);
    let json = facts(kind, Fmt::Json, &texts[1]).map_err(fail)?;
    let csv = facts(kind, Fmt::Csv, &texts[2]).map_err(fail)?;
    let same = if kind == Kind::Monos { agree(&fold_insts(json.clone()), &csv, false) } else { agree(&json, &csv, false) };
    same.map_err(|e| fail(format!("JSON and CSV: {}", e)))?;
    if let Kind::Paths(desc) = kind {
        // the path cell starts with the callers (callees) that are listed
        let rows = read_paths(Fmt::Csv, &texts[2], desc)?;
        for (i, f) in json.iter().enumerate() {
            let d = f.depth.unwrap();
            let kids: Vec<&str> = json[i + 1..]
                .iter()
                .take_while(|k| k.depth.unwrap() > d)
                .filter(|k| k.depth.unwrap() == d + 1)
                .map(|k| k.name.as_str())
                .collect();
            let p = rows[i].1.as_deref().unwrap_or("");
            if !kids.is_empty() && !p.starts_with(&format!("{} -> ", kids.join(" -> "))) {
                return Err(fail(format!("CSV path {:?} of {:?} lacks {:?}", p, f.name, kids)));
            }
        }
    }
    if lines {
        let text = facts(kind, Fmt::Text, &texts[0]).map_err(fail)?;
        agree(&text, &json, true).map_err(|e| fail(format!("text and JSON: {}", e)))?;
    }
    Ok(())
}

pub fn c15(tier: Tier) -> Check {
    let words = fam(
        "words",
        "all names of up to 3 (thorough 4) of the characters , \" newline CR blank tab = é - U+1F600 ; ' > as item, generic, instance and data names in one graph with all roles, over the whole option grid (every analysis, limit and selection)",
        move |ch, c| {
            let w = word(ch, &[',', '"', '\n', '\r', ' ', '\t', '=', 'é', '-', '\u{1f600}', ';', '\'', '>'], tier.pick(3, 4));
            c.state(&w);
            c.sample(|| format!("{:?}", w));
            if w.contains([',', '"', '\n', '\r']) {
                c.nontrivial();
            }
            let (a, b) = (named_spec(&w, false), named_spec(&w, true));
            let names = [a.names[1].clone(), a.names[2].clone()];
            let (mut a, mut b) = (a.build(), b.build());
            for (k, t) in grid(&names) {
                three(k, &t, &mut a, &mut b, !w.contains('\n'), c).map_err(|e| format!("name {:?}, {}", w, e))?;
            }
            Ok(())
        },
    );
    let ns = long_lengths(tier.pick(513, 4097));
    let long = fam(
        "long-names",
        format!("names of {:?} characters that are plain except for one of comma, quote, carriage return, é at the start, in the middle, at the end, at the three places or everywhere, in the roles of the words, over the option grid", ns),
        move |ch, c| {
            let n = *ch.of(&ns);
            let x = *ch.of(&[',', '"', '\r', 'é']);
            let w = long_name(ch, n, x);
            c.state(&w);
            c.sample(|| format!("{} characters with {:?}", n, x));
            c.nontrivial();
            let (a, b) = (named_spec(&w, false), named_spec(&w, true));
            let names = [a.names[1].clone(), a.names[2].clone()];
            let (mut a, mut b) = (a.build(), b.build());
            for (k, t) in grid(&names) {
                three(k, &t, &mut a, &mut b, true, c).map_err(|e| {
                    let e: String = e.chars().take(2000).collect();
                    format!("{} characters with {:?}, {}", n, x, e)
                })?;
            }
            Ok(())
        },
    );
    let graphs = fam(
        "graphs",
        "all digraphs of up to 3 (thorough: 4 without loops) items with any set of roots, hostile names, sizes 1, 2, 4, over the option grid",
        move |ch, c| {
            let n = ch.range(0, tier.pick(3, 4));
            let mut s = any_graph(ch, n, n < 4, false);
            hostile(&mut s);
            c.state(&s);
            c.sample(|| s.show());
            c.nontrivial();
            let mut b = s.clone();
            for (i, x) in b.sizes.iter_mut().enumerate() {
                *x = [5, 0, 9, 4][i];
            }
            let (mut a, mut b) = (s.build(), b.build());
            for (k, t) in grid(&s.names) {
                three(k, &t, &mut a, &mut b, true, c).map_err(|e| format!("{}\n{}", e, s.show()))?;
            }
            Ok(())
        },
    );
    let sizes = fam(
        "widths",
        "three items with all combinations of sizes 0, 9, 10, 99999, 10^6, 4*10^9 against a file of 4*10^9 or their sum: columns of every width",
        |ch, c| {
            let v = [0u32, 9, 10, 99_999, 1_000_000, 1_000_000_000];
            let mut s = Spec::plain(3);
            let mut d = Spec::plain(3);
            hostile(&mut s);
            hostile(&mut d);
            for i in 0..3 {
                s.sizes[i] = *ch.of(&v);
                d.sizes[i] = s.sizes[(i + 1) % 3];
            }
            s.roots = vec![0];
            s.adj[0] = vec![1];
            d.adj[1] = vec![2];
            s.total = if ch.flag() { 4_000_000_000 } else { s.sum().max(1) };
            d.total = s.total;
            c.state(&s);
            c.sample(|| s.show());
            c.nontrivial();
            let (mut a, mut b) = (s.build(), d.build());
            for (k, t) in grid(&s.names) {
                three(k, &t, &mut a, &mut b, true, c).map_err(|e| format!("{}\n{}", e, s.show()))?;
            }
            Ok(())
        },
    );
    let pool = ["f<a>", "f<b>", "f", "f::h0123456789abcdef", "f::h0123456789abcdee", "_ZN1f17h0123456789abcdefE", "f<a>, f<b>", "g"];
    let repeats = fam(
        "repeated-names",
        format!("four functions with all choices (in order) out of {:?}, several with the same name, in a star or a chain, sizes all equal or all different, old and new file with different choices of sizes, over the option grid", pool),
        move |ch, c| {
            let mut s = Spec::plain(4);
            let mut k = 0;
            for i in 0..4 {
                k = ch.range(k, pool.len() - 1);
                s.names[i] = pool[k].into();
                s.kinds[i] = K::Code;
            }
            let chain = ch.flag();
            s.roots = vec![0];
            if chain {
                s.adj = vec![vec![1], vec![2], vec![3], vec![]];
            } else {
                s.adj[0] = vec![1, 2, 3];
            }
            let equal = ch.flag();
            s.sizes = if equal { vec![5; 4] } else { vec![4, 3, 7, 2] };
            s.total = 40;
            let mut d = s.clone();
            d.sizes = vec![5, 2, 5, 5];
            c.state(&s);
            c.sample(|| s.show());
            c.nontrivial();
            let (mut a, mut b) = (s.build(), d.build());
            for (k, t) in grid(&["f".to_string(), "f<a>".to_string()]) {
                three(k, &t, &mut a, &mut b, true, c).map_err(|e| format!("{}\n{}", e, s.show()))?;
            }
            Ok(())
        },
    );
    let ns = crate::model::counts(1, if tier.thorough() { 4097 } else { 1025 });
    let wide = fam(
        "many-rows",
        format!("{:?} functions below one root, in a chain or unreachable, as instances of one generic or as one generic each, all of size 9 in a large file, new file with other sizes; all analyses without limits and with limits (of rows, of depth for the chain) one below, at and above the number of rows", ns),
        move |ch, c| {
            let n = *ch.of(&ns);
            let shape = ch.pick(3);
            let generics = ch.pick(2);
            let mut s = Spec::plain(n);
            for i in 0..n {
                s.names[i] = if generics == 0 { format!("f<{}>", i) } else { format!("g{}<a>", i / 2) };
                s.kinds[i] = K::Code;
                s.sizes[i] = 9;
            }
            if shape < 2 {
                s.roots = vec![0];
                if shape == 0 {
                    s.adj[0] = (1..n).collect();
                } else {
                    for i in 1..n.min(300) {
                        s.adj[i - 1].push(i);
                    }
                }
            }
            s.total = 1_000_000;
            let mut d = s.clone();
            for (i, x) in d.sizes.iter_mut().enumerate() {
                *x = 10 + i as u32 % 3;
            }
            c.state(&(n, shape, generics));
            c.sample(|| format!("{} items, shape {}", n, shape));
            if n > 1 {
                c.nontrivial();
            }
            let (mut a, mut b) = (s.build(), d.build());
            let k = n as u32;
            let mut limits = vec![0, k - 1, k, k + 1, u32::MAX];
            limits.dedup();
            for l in limits {
                let all: &[String] = &[];
                let mut v = vec![
                    (Kind::Top(false), suite::top(l, false)),
                    (Kind::Top(true), suite::top(l, true)),
                    (Kind::Garbage, suite::garbage(l, true)),
                    (Kind::Diff, suite::diff(all, false, Some(l))),
                    (Kind::Dominators, suite::dominators(all, false, None, Some(l))),
                    (Kind::Monos, suite::monos(all, false, false, Some(l), None)),
                    (Kind::Monos, suite::monos(all, false, false, None, Some(l))),
                ];
                if n <= 260 || shape != 1 {
                    v.push((Kind::Paths(true), suite::paths(all, false, true, None, Some(l))));
                }
                if shape == 1 {
                    // deep trees
                    let ends = [vec![s.names[0].clone()], vec![s.names[n.min(300) - 1].clone()]];
                    v.push((Kind::Dominators, suite::dominators(&ends[0], false, Some(l), None)));
                    v.push((Kind::Paths(true), suite::paths(&ends[0], false, true, Some(l), None)));
                    v.push((Kind::Paths(false), suite::paths(&ends[1], false, false, Some(l), None)));
                }
                for (k, t) in v {
                    three(k, &t, &mut a, &mut b, true, c).map_err(|e| {
                        let e: String = e.chars().take(3000).collect();
                        format!("{} items, shape {}, generics {}: {}", n, shape, generics, e)
                    })?;
                }
            }
            Ok(())
        },
    );
    Check {
        id: "C15",
        level: "model_checking",
        families: vec![graphs, words, long, sizes, repeats, wide],
        assumptions: vec![
            "the text format is not compared for names with line breaks",
            "an empty CSV report may consist of nothing or of the header only",
        ],
        hang_secs: 60,
    }
}

// ---------------------------------------------------------------- C16

/// Everything the items themselves say.
pub fn snapshot(items: &Items) -> Vec<String> {
    let mut v = vec![format!("{} {:?}", items.size(), items.meta_root())];
    for i in items.iter() {
        let nb: Vec<String> = items.neighbors(i.id()).map(|n| format!("{:?}", n)).collect();
        v.push(format!("{:?} {:?} {} {:?} -> {:?}", i.id(), i.name(), i.size(), i.kind(), nb));
    }
    v
}

pub fn subject(k: usize) -> (Spec, Spec) {
    match k {
        0 => (named_spec("f", false), named_spec("f", true)),
        1 => {
            // ties everywhere: equal sizes, equal names
            let mk = |z: u32| {
                let mut s = Spec::plain(9);
                for i in 0..9 {
                    s.names[i] = ["a::h0123456789abcdef", "b", "a::h0123456789abcde0", "c<x>", "d<y>", "c<z>", "b", "g", "h"][i].into();
                    s.sizes[i] = 4 + z * (i as u32 % 2);
                    s.kinds[i] = if i % 3 == 1 { K::Misc } else { K::Code };
                }
                s.adj = vec![vec![1, 2], vec![3, 4], vec![3, 4], vec![5], vec![5, 0], vec![1], vec![7, 8], vec![8], vec![7]];
                s.roots = vec![0, 6];
                s.total = 50;
                s
            };
            (mk(0), mk(1))
        }
        2 => {
            // unreachable parts and a cycle
            let mut s = Spec::plain(5);
            s.sizes = vec![3, 5, 7, 11, 13];
            s.kinds = vec![K::Code, K::Data, K::Data, K::Code, K::Debug];
            s.adj = vec![vec![1], vec![0], vec![1, 4], vec![4, 2], vec![]];
            s.roots = vec![0];
            s.total = 40;
            let mut t = s.clone();
            t.sizes = vec![4, 4, 7, 1, 20];
            t.roots = vec![0, 3];
            (s, t)
        }
        3 => {
            // no roots at all
            let mut s = Spec::plain(3);
            s.sizes = vec![1, 1, 2];
            s.adj = vec![vec![1], vec![2], vec![0]];
            s.total = 4;
            (s.clone(), s)
        }
        _ => (Spec { total: 1, ..Spec::plain(0) }, Spec { total: 2, ..Spec::plain(1) }),
    }
}

pub fn c16(tier: Tier) -> Check {
    let seqs = fam(
        "sequences",
        "all sequences of 4 (thorough 5) of 15 analyses (restrictive and default options, diff in both roles) on one pair of items for 5 graphs (all roles; ties; cycles and garbage; no roots; empty); each emitted in three formats at once and again at the end, all bytes equal to those of fresh items; items unchanged",
        move |ch, c| {
            let k = ch.pick(5);
            let anas = all16();
            let n = tier.pick(4, 5);
            let seq: Vec<usize> = (0..n).map(|_| ch.pick(anas.len())).collect();
            c.state((k, &seq));
            c.sample(|| format!("graph {}: {}", k, seq.iter().map(|i| anas[*i].name.clone()).collect::<Vec<_>>().join("; ")));
            if seq.windows(2).any(|w| w[0] != w[1]) {
                c.nontrivial();
            }
            let want = fresh(k);
            let (s, t) = subject(k);
            let (mut a, mut b) = (s.build(), t.build());
            let (sa, sb) = (snapshot(&a), snapshot(&b));
            let mut kept = vec![];
            for (step, i) in seq.iter().enumerate() {
                let e = (anas[*i].run)(&mut a, &mut b).map_err(|e| format!("{}: analysis failed: {}", anas[*i].name, e))?;
                for r in 0..3 {
                    let f = (r + step) % 3;
                    let out = emit_of(&*e, &a, FMTS[f])?;
                    c.trace();
                    if out != want[*i][f] {
                        return Err(differs(&anas[*i], FMTS[f], &out, &want[*i][f]));
                    }
                }
                kept.push((*i, e));
            }
            for (i, e) in &kept {
                for f in 0..3 {
                    let out = emit_of(&**e, &a, FMTS[f])?;
                    c.trace();
                    if out != want[*i][f] {
                        return Err(format!("emitted again at the end: {}", differs(&anas[*i], FMTS[f], &out, &want[*i][f])));
                    }
                }
            }
            if snapshot(&a) != sa || snapshot(&b) != sb {
                return Err("the items have changed".into());
            }
            Ok(())
        },
    );
    let memo = fam(
        "memo-calls",
        "all sequences of 4 (thorough 6) of the public calls compute_predecessors, compute_dominators, compute_dominator_tree, compute_retained_sizes on the items before each analysis, same comparison",
        move |ch, c| {
            let k = ch.pick(5);
            let n = tier.pick(4, 6);
            let seq: Vec<usize> = (0..n).map(|_| ch.pick(4)).collect();
            c.state((k, &seq));
            c.sample(|| format!("graph {}: calls {:?}", k, seq));
            c.nontrivial();
            let anas = all16();
            let want = fresh(k);
            let (s, t) = subject(k);
            let (mut a, mut b) = (s.build(), t.build());
            for (step, q) in seq.iter().enumerate() {
                let x = if step % 2 == 0 { &mut a } else { &mut b };
                match q {
                    0 => x.compute_predecessors(),
                    1 => x.compute_dominators(),
                    2 => x.compute_dominator_tree(),
                    _ => x.compute_retained_sizes(),
                }
                if step < 2 {
                    match q {
                        0 => b.compute_predecessors(),
                        1 => b.compute_dominators(),
                        2 => b.compute_dominator_tree(),
                        _ => b.compute_retained_sizes(),
                    }
                }
            }
            for (i, an) in anas.iter().enumerate() {
                let e = (an.run)(&mut a, &mut b).map_err(|e| format!("{}: analysis failed: {}", an.name, e))?;
                for f in 0..3 {
                    let out = emit_of(&*e, &a, FMTS[f])?;
                    c.trace();
                    if out != want[i][f] {
                        return Err(differs(an, FMTS[f], &out, &want[i][f]));
                    }
                }
            }
            Ok(())
        },
    );
    let repeat = fam(
        "repetition",
        "each analysis on freshly built items 40 times over (hash maps are seeded differently every time), for all digraphs of 3 items with equal sizes and names that repeat, and the 5 graphs: same bytes",
        |ch, c| {
            let anas = all16();
            let (s, t) = if ch.flag() {
                let mut s = any_graph(ch, 3, false, false);
                s.names = strs(&["x<a>", "x<b>", ["y", "x<b>"][ch.pick(2)]]);
                s.kinds = vec![K::Code; 3];
                s.sizes = vec![2; 3];
                s.total = 7;
                let mut t = s.clone();
                t.sizes = vec![1, 3, 1];
                (s, t)
            } else {
                let k = ch.pick(5);
                subject(k)
            };
            c.state((&s, &t));
            c.sample(|| s.show());
            c.nontrivial();
            let i = ch.pick(anas.len());
            let mut first: Option<Vec<String>> = None;
            for _ in 0..40 {
                let (mut a, mut b) = (s.build(), t.build());
                let e = (anas[i].run)(&mut a, &mut b).map_err(|e| format!("{}: analysis failed: {}", anas[i].name, e))?;
                let outs = FMTS.iter().map(|f| emit_of(&*e, &a, *f)).collect::<Result<Vec<_>, _>>()?;
                c.traces(3);
                match &first {
                    None => first = Some(outs),
                    Some(w) => {
                        for f in 0..3 {
                            if w[f] != outs[f] {
                                return Err(differs(&anas[i], FMTS[f], &outs[f], &w[f]));
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    );
    Check {
        id: "C16",
        level: "model_checking",
        families: vec![repeat, memo, seqs],
        assumptions: vec!["hash seeds differ between instances of a hash map as they do between processes"],
        hang_secs: 60,
    }
}

fn differs(a: &Ana, f: Fmt, got: &str, want: &str) -> String {
    format!("{} -f {} gives\n{}\nand on fresh items\n{}", a.name, f.name(), got, want)
}

fn all16() -> &'static Vec<Ana> {
    static A: std::sync::OnceLock<Vec<Ana>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let mut v = suite::all();
        v.push(suite::top(2, false));
        v.push(suite::paths(&strs(&["f", "b", "c"]), false, false, Some(1), Some(1)));
        v
    })
}

/// The output of every analysis and format on items of its own.
fn fresh(k: usize) -> &'static Vec<Vec<String>> {
    static F: std::sync::OnceLock<BTreeMap<usize, Vec<Vec<String>>>> = std::sync::OnceLock::new();
    let m = F.get_or_init(|| {
        (0..5)
            .map(|k| {
                let v = all16()
                    .iter()
                    .map(|an| {
                        FMTS.iter()
                            .map(|f| {
                                let (s, t) = subject(k);
                                let (mut a, mut b) = (s.build(), t.build());
                                an.text(&mut a, &mut b, *f).unwrap_or_else(|e| e)
                            })
                            .collect()
                    })
                    .collect();
                (k, v)
            })
            .collect()
    });
    &m[&k]
}
