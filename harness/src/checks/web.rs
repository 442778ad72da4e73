//! C23: the WebAssembly build of twiggy, run in node without the generated glue (web/driver.js).
use super::cli::{library, subject, sv};
use crate::engine::*;
use crate::rdr::{parse_json, Json};
use crate::util::hex;
use crate::wasmgen::*;
use crate::{Check, Tier};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn start() -> Node {
    let root = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let wasm = std::env::var("TWIGGY_WASM").unwrap_or_else(|_| format!("{}/.build/web/wasm32-unknown-unknown/release/twiggy_wasm_api.wasm", root));
    let mut child = Command::new("node")
        .arg("--stack-size=900")
        .arg(format!("{}/web/driver.js", root))
        .arg(wasm)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("harness: cannot run node");
    let to = child.stdin.take().unwrap();
    let from = child.stdout.take().unwrap();
    Node { child, to, from }
}

/// Sends one list of calls to a fresh instance; the results of the calls.
fn send(calls: &[String]) -> Result<Vec<Json>, String> {
    let req = format!("[{}]", calls.join(","));
    let text = NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(start);
        let r = (|| -> std::io::Result<Vec<u8>> {
            node.to.write_all(&(req.len() as u32).to_le_bytes())?;
            node.to.write_all(req.as_bytes())?;
            node.to.flush()?;
            let mut h = [0; 4];
            node.from.read_exact(&mut h)?;
            let mut b = vec![0; u32::from_le_bytes(h) as usize];
            node.from.read_exact(&mut b)?;
            Ok(b)
        })();
        if r.is_err() {
            *n = None;
        }
        r
    });
    let text = text.map_err(|e| format!("the process that runs the module died: {}", e))?;
    let j = parse_json(std::str::from_utf8(&text).unwrap()).unwrap_or_else(|e| panic!("harness: reply of the driver: {}", e));
    Ok(j.arr().expect("harness: reply of the driver").to_vec())
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A setter call or its equivalent on the command line.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Set {
    Num(&'static str, u32),
    Flag(&'static str, bool),
    Name(&'static str),
}
use Set::*;

const CLASSES: [&str; 5] = ["top", "dominators", "paths", "monos", "diff"];

fn setters(class: &str) -> Vec<Set> {
    const M: u32 = u32::MAX;
    let nums = |n: &'static str| vec![Num(n, 0), Num(n, 1), Num(n, 3), Num(n, M)];
    let flags = |n: &'static str| vec![Flag(n, true), Flag(n, false)];
    match class {
        "top" => [nums("max_items"), flags("retained")].concat(),
        "dominators" => [nums("max_depth"), nums("max_rows"), flags("using_regexps")].concat(),
        "paths" => [
            nums("max_depth"),
            nums("max_paths"),
            flags("descending"),
            flags("using_regexps"),
            vec![Name("main"), Name("f<b>"), Name("f.*"), Name("gr\u{fc}n \u{1f600}\0\""), Name("")],
        ]
        .concat(),
        "monos" => [nums("max_generics"), nums("max_monos"), flags("only_generics")].concat(),
        _ => [nums("max_items"), flags("using_regexps")].concat(),
    }
}

fn getters(class: &str) -> &'static [&'static str] {
    match class {
        "top" => &["max_items", "retained", "retaining_paths"],
        "dominators" => &["max_depth", "max_rows", "using_regexps"],
        "paths" => &["max_depth", "max_paths", "descending", "using_regexps"],
        "monos" => &["max_generics", "max_monos", "only_generics", "using_regexps"],
        _ => &["max_items", "using_regexps"],
    }
}

/// The state of an option object and the command line that means the same.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Opts {
    class: &'static str,
    nums: Vec<(&'static str, u32)>,
    flags: Vec<(&'static str, bool)>,
    names: Vec<&'static str>,
}

impl Opts {
    fn new(class: &'static str) -> Opts {
        Opts { class, ..Default::default() }
    }
    fn set(&mut self, s: &Set) {
        match s {
            Num(n, v) => {
                self.nums.retain(|x| x.0 != *n);
                self.nums.push((n, *v));
            }
            Flag(n, v) => {
                self.flags.retain(|x| x.0 != *n);
                self.flags.push((n, *v));
            }
            Name(s) => self.names.push(s),
        }
    }
    fn get(&self, name: &str) -> u32 {
        if let Some(x) = self.nums.iter().find(|x| x.0 == name) {
            return x.1;
        }
        if let Some(x) = self.flags.iter().find(|x| x.0 == name) {
            return u32::from(x.1);
        }
        match (self.class, name) {
            ("top", "max_items") | ("dominators", "max_depth") | ("dominators", "max_rows") => u32::MAX,
            ("diff", "max_items") => 20,
            (_, n) if n.starts_with("max") => 10,
            _ => 0,
        }
    }
    fn line(&self) -> Vec<String> {
        let mut a = sv(&[self.class, "a.wasm"]);
        if self.class == "diff" {
            a.push("b.wasm".into());
        }
        a.extend(sv(&["-f", "json"]));
        for (n, v) in &self.nums {
            let o = match (self.class, *n) {
                (_, "max_items") | (_, "max_monos") => "-n",
                (_, "max_depth") => "-d",
                (_, "max_generics") => "-m",
                _ => "-r",
            };
            a.push(o.into());
            a.push(v.to_string());
        }
        for (n, v) in &self.flags {
            if *v {
                a.push(
                    match *n {
                        "retained" => "--retained",
                        "descending" => "--descending",
                        "only_generics" => "-g",
                        _ => "--regex",
                    }
                    .into(),
                );
            }
        }
        if !self.names.is_empty() {
            a.push("--".into());
            a.extend(self.names.iter().map(|s| s.to_string()));
        }
        a
    }
    /// Calls that make the object as call number `at`.
    fn calls(&self, at: usize) -> Vec<String> {
        let mut v = vec![format!("[\"new\",\"{}\"]", self.class)];
        for (n, x) in &self.nums {
            v.push(setter(self.class, at, &Num(n, *x)));
        }
        for (n, x) in &self.flags {
            v.push(setter(self.class, at, &Flag(n, *x)));
        }
        for s in &self.names {
            v.push(setter(self.class, at, &Name(s)));
        }
        v
    }
}

fn setter(class: &str, at: usize, s: &Set) -> String {
    match s {
        Num(n, v) => format!("[\"set\",\"{}\",\"set_{}\",{},{}]", class, n, at, v),
        Flag(n, v) => format!("[\"set\",\"{}\",\"set_{}\",{},{}]", class, n, at, u32::from(*v)),
        Name(s) => format!("[\"set\",\"{}\",\"add_function\",{},{}]", class, at, quote(s)),
    }
}

fn parse_call(b: &[u8]) -> String {
    format!("[\"parse\",\"{}\"]", hex(b))
}

/// What the command line prints.
fn wanted(o: &Opts, a: &[u8], b: &[u8]) -> Result<String, String> {
    let mut x = twiggy_parser::parse(a).map_err(|e| e.to_string())?;
    let mut y = if o.class == "diff" { Some(twiggy_parser::parse(b).map_err(|e| e.to_string())?) } else { None };
    library(&o.line(), &mut x, y.as_mut()).map(|v| String::from_utf8(v).unwrap())
}

fn failure(j: &Json) -> Option<&str> {
    j.get("error").and_then(|e| e.as_str())
}

fn same(what: &dyn Fn() -> String, got: &Json, want: &str) -> Result<(), String> {
    if let Some(e) = failure(got) {
        return Err(format!("{}: fails: {}", what(), e));
    }
    match got.as_str() {
        Some(g) if g == want => Ok(()),
        _ => Err(format!("{}:\n{:?}\nthe command line prints\n{}", what(), got, want)),
    }
}

/// One call of each analysis, with default and restrictive options.
fn menu() -> Vec<Opts> {
    let mk = |class: &'static str, s: &[Set]| {
        let mut o = Opts::new(class);
        for x in s {
            o.set(x);
        }
        o
    };
    vec![
        mk("top", &[]),
        mk("top", &[Num("max_items", 2), Flag("retained", true)]),
        mk("dominators", &[]),
        mk("dominators", &[Num("max_depth", 2), Num("max_rows", 3)]),
        mk("paths", &[]),
        mk("paths", &[Flag("descending", true), Num("max_depth", 2)]),
        mk("paths", &[Flag("using_regexps", true), Name(".*"), Num("max_paths", 1)]),
        mk("monos", &[]),
        mk("monos", &[Flag("only_generics", true), Num("max_generics", 1)]),
        mk("diff", &[]),
        mk("diff", &[Num("max_items", 1)]),
    ]
}

/// All analyses of the menu on one module, the differences against another one.
fn all_on(a: &[u8], b: &[u8], what: &str, c: &Case) -> Result<(), String> {
    let mut calls = vec![parse_call(a), parse_call(b)];
    let mut at = vec![];
    for o in menu() {
        let n = calls.len();
        calls.extend(o.calls(n));
        at.push((calls.len(), o.clone()));
        calls.push(format!("[\"call\",\"{}\",0,{}{}]", o.class, if o.class == "diff" { "1," } else { "" }, n));
    }
    let r = send(&calls)?;
    for (n, o) in &at {
        let want = wanted(o, a, b)?;
        match r.get(*n) {
            None => return Err(format!("{}: fails before {:?}: {:?}", what, o.line(), r.last().and_then(failure))),
            Some(j) => same(&|| format!("{}, {:?}", what, o.line()), j, &want)?,
        }
        c.trace();
    }
    Ok(())
}

pub fn chain(n: usize) -> Vec<u8> {
    Module {
        sects: vec![
            Sect::Types(vec![FuncType(vec![], vec![])]),
            Sect::Funcs(vec![0; n]),
            Sect::Exports(vec![Export { name: "main".into(), space: Space::Func, index: 0 }]),
            Sect::Code((0..n).map(|i| Body { locals: vec![], ops: if i + 1 < n { vec![Op::Call(i as u32 + 1)] } else { vec![] } }).collect()),
        ],
        pad: 0,
        pad_counts: 0,
                pad_inner: 0,
    }
    .bytes()
}

/// Functions with the given calls, exports and names.
fn graph(adj: &[Vec<usize>], exports: &[usize], names: &[&str], data: bool) -> Vec<u8> {
    let n = adj.len();
    let mut sects = vec![Sect::Types(vec![FuncType(vec![], vec![])]), Sect::Funcs(vec![0; n])];
    if data {
        sects.push(Sect::Mems(vec![(1, None)]));
    }
    sects.push(Sect::Exports(exports.iter().map(|e| Export { name: format!("e{}", e), space: Space::Func, index: *e as u32 }).collect()));
    sects.push(Sect::Code(
        adj.iter()
            .enumerate()
            .map(|(i, a)| Body { locals: vec![], ops: a.iter().map(|t| Op::Call(*t as u32)).chain((0..3 * i).map(|_| Op::Nop)).collect() })
            .collect(),
    ));
    if data {
        sects.push(Sect::Datas(vec![Data { flag: 0, off: Expr::I32(8), bytes: vec![1; 10] }]));
    }
    if !names.is_empty() {
        sects.push(Sect::Name(vec![NameSub::Funcs(names.iter().take(n).enumerate().map(|(i, s)| (i as u32, s.to_string())).collect())]));
    }
    Module { sects, pad: 0, pad_counts: 0, pad_inner: 0 }.bytes()
}

pub fn c23(tier: Tier) -> Check {
    let len = tier.pick(3, 4);
    let sets = fam(
        "setters",
        format!("all sequences of up to {} setter calls (limits 0, 1, 3, 2^32-1; switches on and off; names, regular expressions, non-ASCII names) on each of the 5 option classes: every getter, and the report against the command line with the last values", len),
        move |ch, c| {
            let class = *ch.of(&CLASSES);
            let all = setters(class);
            let n = ch.range(0, len);
            let seq: Vec<Set> = (0..n).map(|_| ch.of(&all).clone()).collect();
            c.state((class, &seq));
            c.sample(|| format!("{} {:?}", class, seq));
            let mut o = Opts::new(class);
            let (a, b) = (subject(0), subject(1));
            let mut calls = vec![parse_call(&a), parse_call(&b), format!("[\"new\",\"{}\"]", class)];
            for s in &seq {
                o.set(s);
                calls.push(setter(class, 2, s));
            }
            let at = calls.len();
            for g in getters(class) {
                calls.push(format!("[\"get\",\"{}\",\"{}\",2]", class, g));
            }
            let call = calls.len();
            calls.push(format!("[\"call\",\"{}\",0,{}2]", class, if class == "diff" { "1," } else { "" }));
            let r = send(&calls)?;
            c.trace();
            if n > 0 {
                c.nontrivial();
            }
            for (i, g) in getters(class).iter().enumerate() {
                let got = r.get(at + i).and_then(|j| j.as_f64());
                if got != Some(f64::from(o.get(g))) {
                    return Err(format!("{} after {:?}: {}() is {:?}, expected {} ({:?})", class, seq, g, got, o.get(g), r.last()));
                }
            }
            let what = || format!("{} after {:?}", class, seq);
            match wanted(&o, &a, &b) {
                Ok(w) => same(&what, r.get(call).unwrap_or(&Json::Null), &w),
                Err(_) => match r.get(call).and_then(failure) {
                    Some(_) => Ok(()),
                    None => Err(format!("{}: the command line refuses this", what())),
                },
            }
        },
    );
    let depth = tier.pick(4, 5);
    let hist = fam(
        "histories",
        format!("all sequences of {} calls out of 14 (each analysis on either of two modules with default or restrictive options, differences in both directions, options changed in between, freeing and parsing again): every answer equals the one on freshly parsed items", depth),
        move |ch, c| {
            let seq: Vec<usize> = (0..depth).map(|_| ch.pick(14)).collect();
            c.state(&seq);
            c.sample(|| format!("{:?}", seq));
            c.nontrivial();
            let m = [subject(0), subject(1)];
            let mut calls = vec![parse_call(&m[0]), parse_call(&m[1])];
            let mut opts: Vec<(usize, Opts)> = vec![];
            for class in CLASSES {
                opts.push((calls.len(), Opts::new(class)));
                calls.push(format!("[\"new\",\"{}\"]", class));
            }
            // which call made the items that stand for each module, and what module they are of
            let mut items = [(0, 0), (1, 1)];
            let mut expect: Vec<(usize, Vec<String>, String)> = vec![];
            for s in &seq {
                let (class, which) = match s {
                    0 => (0, 0),
                    1 => (1, 0),
                    2 => (2, 0),
                    3 => (3, 0),
                    4 => (4, 0),
                    5 => (4, 1),
                    6 => (1, 1),
                    7 => (2, 1),
                    8 | 9 | 10 | 11 => {
                        let (k, set) = match s {
                            8 => (0, Flag("retained", true)),
                            9 => (2, Flag("descending", opts[2].1.get("descending") == 0)),
                            10 => (1, Num("max_rows", 2)),
                            _ => (2, Name("f<b>")),
                        };
                        let at = opts[k].0;
                        opts[k].1.set(&set);
                        calls.push(setter(CLASSES[k], at, &set));
                        (k, 0)
                    }
                    12 => {
                        calls.push(format!("[\"free\",\"items\",{}]", items[0].0));
                        items[0] = (calls.len(), 1 - items[0].1);
                        calls.push(parse_call(&m[items[0].1]));
                        (0, 0)
                    }
                    _ => {
                        items.swap(0, 1);
                        (3, 1)
                    }
                };
                let (at, o) = &opts[class];
                let (x, y) = (items[which], items[1 - which]);
                expect.push((calls.len(), o.line(), wanted(o, &m[x.1], &m[y.1])?));
                let second = if o.class == "diff" { format!("{},", y.0) } else { String::new() };
                calls.push(format!("[\"call\",\"{}\",{},{}{}]", o.class, x.0, second, at));
            }
            let r = send(&calls)?;
            for (i, line, w) in &expect {
                match r.get(*i) {
                    None => return Err(format!("{:?}: fails before {:?}: {:?}", seq, line, r.last().and_then(failure))),
                    Some(j) => same(&|| format!("{:?} within {:?}", line, seq), j, w)?,
                }
                c.trace();
            }
            Ok(())
        },
    );
    let n = 3;
    let more = tier.thorough();
    let graphs = fam(
        "modules",
        "all modules with up to 3 functions, every call graph and set of exports, with and without names (generic, escaped and non-ASCII ones) and a data segment (quick: one choice of these two): all analyses",
        move |ch, c| {
            let k = ch.range(1, n);
            let adj: Vec<Vec<usize>> = (0..k).map(|_| (0..k).filter(|_| ch.flag()).collect()).collect();
            let exports: Vec<usize> = (0..k).filter(|_| ch.flag()).collect();
            let style = if more { ch.pick(4) } else { (adj.iter().map(|a| a.len()).sum::<usize>() + exports.len()) % 4 };
            let names: &[&str] = if style % 2 == 1 { &["a<b>", "a<\"\u{1f600}\\\n>", "m::h0123456789abcdef"] } else { &[] };
            let a = graph(&adj, &exports, names, style / 2 == 1);
            let mut rev = adj.clone();
            rev.reverse();
            let b = graph(&rev, &exports, names, style / 2 == 0);
            c.state((&adj, &exports, style));
            c.sample(|| format!("{:?} exports {:?}", adj, exports));
            c.nontrivial();
            all_on(&a, &b, &format!("calls {:?} exports {:?} style {}", adj, exports, style), c)
        },
    );
    let broken = fam(
        "damaged",
        "every prefix and every change of one byte to one of 4 other values of a module with all kinds of entries: accepted by the web API exactly if by the native parser, then with the same report",
        |ch, c| {
            let w = subject(0);
            let at = ch.pick(w.len());
            let how = ch.pick(5);
            let mut m = w.clone();
            match how {
                0 => m.truncate(at),
                _ => m[at] = [0, 0xff, 0x80, m[at] ^ 1][how - 1],
            }
            c.state(&m);
            c.sample(|| format!("{} at {}", how, at));
            let calls = [parse_call(&m), "[\"new\",\"top\"]".to_string(), "[\"call\",\"top\",0,1]".to_string()];
            let r = send(&calls)?;
            c.trace();
            match wanted(&Opts::new("top"), &m, &[]) {
                Ok(x) => same(&|| format!("damaged module {}", hex(&m)), r.get(2).or(r.last()).unwrap(), &x),
                Err(_) => {
                    c.nontrivial();
                    match r.last().and_then(failure) {
                        Some(_) => Ok(()),
                        None => Err(format!("the damaged module {} is accepted: {:?}", hex(&m), r)),
                    }
                }
            }
        },
    );
    let files = fam(
        "large",
        "all analyses on call chains of 100, 1000, 3000 (thorough: 10000) functions, a star of 2000, and the wasm files among the repository's fixtures",
        move |ch, c| {
            let mut all: Vec<(String, Vec<u8>)> = [100, 1000, 3000].iter().map(|n| (format!("chain of {}", n), chain(*n))).collect();
            if more {
                all.push(("chain of 10000".into(), chain(10000)));
            }
            let mut star = vec![vec![]; 2000];
            star[0] = (1..2000).collect();
            all.push(("star of 2000".into(), graph(&star, &[0], &[], false)));
            if let Ok(d) = std::fs::read_dir("/repo/twiggy/tests/all/fixtures") {
                let mut f: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "wasm")).collect();
                f.sort();
                for p in f {
                    if let Ok(b) = std::fs::read(&p) {
                        if twiggy_parser::parse(&b).is_ok() {
                            all.push((p.display().to_string(), b));
                        }
                    }
                }
            }
            let (name, b) = ch.of(&all).clone();
            c.state(&name);
            c.sample(|| name.clone());
            c.nontrivial();
            all_on(&b, &subject(0), &name, c)
        },
    );
    Check {
        id: "C23",
        level: "model_checking",
        families: vec![sets, hist, graphs, broken, files],
        assumptions: vec![
            "the module is called through the ABI of wasm-bindgen 0.2 directly, because the wasm-bindgen command is not available to generate the JavaScript glue",
            "what the command line prints is computed by the same library calls as the command makes; C19 checks that the command prints that",
        ],
        hang_secs: 120,
    }
}
