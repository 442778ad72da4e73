//! C17: what flags and setters mean.
use crate::engine::*;
use crate::opts;
use crate::report::*;
use crate::{Check, Tier};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use twiggy_analyze as an;
use twiggy_opt as opt;
use twiggy_opt::CommonCliOptions;

const CMDS: [&str; 6] = ["top", "dominators", "paths", "monos", "diff", "garbage"];
const MAX: u32 = u32::MAX;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum V {
    N(u32),
    B(bool),
    L(Vec<String>),
    S(String),
}

type Vals = BTreeMap<&'static str, V>;

/// What the documentation promises: one value per option, and for some limits whether it is lifted.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Model {
    vals: Vals,
    lifted: BTreeSet<&'static str>,
}

impl Model {
    fn new(cmd: &str) -> Model {
        let mut v: Vals = BTreeMap::new();
        v.insert("input", V::S("in".into()));
        v.insert("output", V::S("-".into()));
        v.insert("format", V::S("text".into()));
        v.insert("mode", V::S("auto".into()));
        match cmd {
            "top" => {
                v.insert("max_items", V::N(MAX));
                v.insert("retaining_paths", V::B(false));
                v.insert("retained", V::B(false));
            }
            "dominators" => {
                v.insert("names", V::L(vec![]));
                v.insert("max_depth", V::N(MAX));
                v.insert("max_rows", V::N(MAX));
                v.insert("regex", V::B(false));
            }
            "paths" => {
                v.insert("names", V::L(vec![]));
                v.insert("max_depth", V::N(10));
                v.insert("max_paths", V::N(10));
                v.insert("descending", V::B(false));
                v.insert("regex", V::B(false));
            }
            "monos" => {
                v.insert("names", V::L(vec![]));
                v.insert("only_generics", V::B(false));
                v.insert("max_generics", V::N(10));
                v.insert("max_monos", V::N(10));
                v.insert("regex", V::B(false));
            }
            "diff" => {
                v.insert("new_input", V::S("new".into()));
                v.insert("names", V::L(vec![]));
                v.insert("max_items", V::N(20));
                v.insert("regex", V::B(false));
            }
            _ => {
                v.insert("max_items", V::N(10));
                v.insert("show_data", V::B(false));
            }
        }
        Model { vals: v, lifted: BTreeSet::new() }
    }
    fn set(&mut self, key: &'static str, v: V) {
        self.vals.insert(key, v);
    }
    /// A limit set through a setter: in force from now on.
    fn limit(&mut self, key: &'static str, n: u32) {
        self.vals.insert(key, V::N(n));
        self.lifted.remove(key);
    }
    fn effective(&self) -> Vals {
        let mut v = self.vals.clone();
        for k in &self.lifted {
            v.insert(k, V::N(MAX));
        }
        v
    }
}

#[derive(Clone, Debug)]
enum Obj {
    Top(opt::Top),
    Dominators(opt::Dominators),
    Paths(opt::Paths),
    Monos(opt::Monos),
    Diff(opt::Diff),
    Garbage(opt::Garbage),
}

impl Obj {
    fn new(cmd: &str, default: bool) -> Obj {
        match (cmd, default) {
            ("top", false) => Obj::Top(opt::Top::new()),
            ("dominators", false) => Obj::Dominators(opt::Dominators::new()),
            ("paths", false) => Obj::Paths(opt::Paths::new()),
            ("monos", false) => Obj::Monos(opt::Monos::new()),
            ("diff", false) => Obj::Diff(opt::Diff::new()),
            (_, false) => Obj::Garbage(opt::Garbage::new()),
            ("top", true) => Obj::Top(Default::default()),
            ("dominators", true) => Obj::Dominators(Default::default()),
            ("paths", true) => Obj::Paths(Default::default()),
            ("monos", true) => Obj::Monos(Default::default()),
            ("diff", true) => Obj::Diff(Default::default()),
            (_, true) => Obj::Garbage(Default::default()),
        }
    }
    fn of(o: opt::Options) -> Obj {
        match o {
            opt::Options::Top(x) => Obj::Top(x),
            opt::Options::Dominators(x) => Obj::Dominators(x),
            opt::Options::Paths(x) => Obj::Paths(x),
            opt::Options::Monos(x) => Obj::Monos(x),
            opt::Options::Diff(x) => Obj::Diff(x),
            opt::Options::Garbage(x) => Obj::Garbage(x),
        }
    }
    fn read(&self) -> Vals {
        fn common<T: CommonCliOptions>(v: &mut Vals, o: &T) {
            v.insert("input", V::S(o.input().to_string_lossy().into_owned()));
            v.insert("mode", V::S(format!("{:?}", o.parse_mode()).to_lowercase()));
            v.insert("format", V::S(format!("{:?}", o.output_format()).to_lowercase()));
            v.insert(
                "output",
                V::S(match o.output_destination() {
                    opt::OutputDestination::Stdout => "-".into(),
                    opt::OutputDestination::Path(p) => p.to_string_lossy().into_owned(),
                }),
            );
        }
        let mut v: Vals = BTreeMap::new();
        match self {
            Obj::Top(o) => {
                common(&mut v, o);
                v.insert("max_items", V::N(o.max_items()));
                v.insert("retaining_paths", V::B(o.retaining_paths()));
                v.insert("retained", V::B(o.retained()));
            }
            Obj::Dominators(o) => {
                common(&mut v, o);
                v.insert("names", V::L(o.items().to_vec()));
                v.insert("max_depth", V::N(o.max_depth()));
                v.insert("max_rows", V::N(o.max_rows()));
                v.insert("regex", V::B(o.using_regexps()));
            }
            Obj::Paths(o) => {
                common(&mut v, o);
                v.insert("names", V::L(o.functions().to_vec()));
                v.insert("max_depth", V::N(o.max_depth()));
                v.insert("max_paths", V::N(o.max_paths()));
                v.insert("descending", V::B(o.descending()));
                v.insert("regex", V::B(o.using_regexps()));
            }
            Obj::Monos(o) => {
                common(&mut v, o);
                v.insert("names", V::L(o.functions().to_vec()));
                v.insert("only_generics", V::B(o.only_generics()));
                v.insert("max_generics", V::N(o.max_generics()));
                v.insert("max_monos", V::N(o.max_monos()));
                v.insert("regex", V::B(o.using_regexps()));
            }
            Obj::Diff(o) => {
                common(&mut v, o);
                v.insert("new_input", V::S(o.new_input().to_string_lossy().into_owned()));
                v.insert("names", V::L(o.items().to_vec()));
                v.insert("max_items", V::N(o.max_items()));
                v.insert("regex", V::B(o.using_regexps()));
            }
            Obj::Garbage(o) => {
                common(&mut v, o);
                v.insert("max_items", V::N(o.max_items()));
                v.insert("show_data", V::B(o.show_data_segments()));
            }
        }
        v
    }
    /// All setter calls with boundary values, applied to copies of the object and of the model.
    fn steps(&self, m: &Model) -> Vec<(String, Obj, Model)> {
        let mut out = vec![];
        let mut go = |name: String, o: Obj, f: &dyn Fn(&mut Model)| {
            let mut k = m.clone();
            f(&mut k);
            out.push((name, o, k));
        };
        macro_rules! num {
            ($var:ident, $o:expr, $set:ident, $key:expr) => {
                for n in [0, 1, 7, MAX] {
                    let mut x = $o.clone();
                    x.$set(n);
                    go(format!("{}({})", stringify!($set), n), Obj::$var(x), &|k| k.limit($key, n));
                }
            };
        }
        macro_rules! sw {
            ($var:ident, $o:expr, $set:ident, $key:expr) => {
                for b in [false, true] {
                    let mut x = $o.clone();
                    x.$set(b);
                    go(format!("{}({})", stringify!($set), b), Obj::$var(x), &|k| k.set($key, V::B(b)));
                }
            };
        }
        match self {
            Obj::Top(o) => {
                num!(Top, o, set_max_items, "max_items");
                sw!(Top, o, set_retaining_paths, "retaining_paths");
                sw!(Top, o, set_retained, "retained");
            }
            Obj::Dominators(o) => {
                num!(Dominators, o, set_max_depth, "max_depth");
                num!(Dominators, o, set_max_rows, "max_rows");
                sw!(Dominators, o, set_using_regexps, "regex");
            }
            Obj::Paths(o) => {
                num!(Paths, o, set_max_depth, "max_depth");
                num!(Paths, o, set_max_paths, "max_paths");
                sw!(Paths, o, set_descending, "descending");
                sw!(Paths, o, set_using_regexps, "regex");
                if o.functions().len() < 2 {
                    for n in ["a", ""] {
                        let mut x = o.clone();
                        x.add_function(n.to_string());
                        go(format!("add_function({:?})", n), Obj::Paths(x), &|k| {
                            if let Some(V::L(l)) = k.vals.get_mut("names") {
                                l.push(n.to_string());
                            }
                        });
                    }
                }
            }
            Obj::Monos(o) => {
                num!(Monos, o, set_max_generics, "max_generics");
                num!(Monos, o, set_max_monos, "max_monos");
                sw!(Monos, o, set_only_generics, "only_generics");
            }
            Obj::Diff(o) => {
                num!(Diff, o, set_max_items, "max_items");
                sw!(Diff, o, set_using_regexps, "regex");
            }
            Obj::Garbage(o) => {
                num!(Garbage, o, set_max_items, "max_items");
            }
        }
        out
    }
}

fn cmp(o: &Obj, m: &Model, skip_cli: bool, how: &dyn Fn() -> String) -> Result<(), String> {
    let mut want = m.effective();
    let mut got = o.read();
    if skip_cli {
        for k in ["input", "new_input", "mode", "format", "output"] {
            want.remove(k);
            got.remove(k);
        }
    }
    if want == got {
        return Ok(());
    }
    let d: Vec<String> = want
        .iter()
        .filter(|(k, v)| got.get(*k) != Some(*v))
        .map(|(k, v)| format!("{} is {:?}, expected {:?}", k, got.get(k), v))
        .collect();
    Err(format!("{}: {}", how(), d.join("; ")))
}

/// Explores every state that setter calls reach from `o`.
fn closure(o: Obj, m: Model, c: &Case, depth: usize, skip: bool, from: &str) -> Result<(), String> {
    let mut seen: BTreeSet<(String, Model)> = BTreeSet::new();
    let mut todo: VecDeque<(Obj, Model, Vec<String>)> = VecDeque::new();
    seen.insert((format!("{:?}", o), m.clone()));
    todo.push_back((o, m, vec![]));
    while let Some((o, m, path)) = todo.pop_front() {
        c.state((from, &m));
        if path.len() >= depth {
            continue;
        }
        for (name, o2, m2) in o.steps(&m) {
            c.trace();
            cmp(&o2, &m2, skip, &|| format!("{} then {}{}", from, path.join(", "), if path.is_empty() { name.clone() } else { format!(", {}", name) }))?;
            if seen.insert((format!("{:?}", o2), m2.clone())) {
                let mut p = path.clone();
                p.push(name);
                todo.push_back((o2, m2, p));
            }
        }
    }
    Ok(())
}

/// One option as given on the command line.
#[derive(Clone)]
struct Flag {
    args: Vec<String>,
    id: &'static str,
    bad: bool,
    f: std::sync::Arc<dyn Fn(&mut Model) + Send + Sync>,
}

fn flags(cmd: &str, full: bool) -> Vec<Flag> {
    let mut v: Vec<Flag> = vec![];
    fn push(v: &mut Vec<Flag>, args: &[&str], id: &'static str, bad: bool, f: impl Fn(&mut Model) + Send + Sync + 'static) {
        v.push(Flag { args: args.iter().map(|s| s.to_string()).collect(), id, bad, f: std::sync::Arc::new(f) });
    }
    /// All spellings of an option with a value.
    fn spell(short: &str, long: &str, val: &str, full: bool) -> Vec<Vec<String>> {
        let mut out = vec![];
        if !short.is_empty() {
            out.push(vec![short.to_string(), val.to_string()]);
            if full {
                out.push(vec![format!("{}{}", short, val)]);
                out.push(vec![format!("{}={}", short, val)]);
            }
        }
        if !long.is_empty() && (full || short.is_empty()) {
            out.push(vec![long.to_string(), val.to_string()]);
            out.push(vec![format!("{}={}", long, val)]);
        }
        out
    }
    let num = |v: &mut Vec<Flag>, short: &str, long: &str, key: &'static str| {
        let vals: &[u32] = if full { &[0, 1, 7, MAX] } else { &[0, 3] };
        for n in vals {
            for a in spell(short, long, &n.to_string(), full) {
                let n = *n;
                let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
                push(v, &a, key, false, move |m| m.set(key, V::N(n)));
            }
        }
        if full {
            for b in ["-1", "4294967296", "x", "", "1.5", "0x1", " 1", "1 "] {
                let s = if short.is_empty() { long } else { short };
                push(v, &[s, b], key, true, |_| {});
            }
        }
    };
    let word = |v: &mut Vec<Flag>, short: &str, long: &str, key: &'static str, vals: &[&str], bad: &[&str]| {
        for w in vals {
            for a in spell(short, long, w, full) {
                let w = w.to_string();
                let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
                push(v, &a, key, false, move |m| m.set(key, V::S(w.clone())));
            }
        }
        if full {
            for b in bad {
                let s = if long.is_empty() { short } else { long };
                push(v, &[s, b], key, true, |_| {});
            }
        }
    };
    let sw = |v: &mut Vec<Flag>, names: &[&str], key: &'static str| {
        for n in names.iter().take(if full { 9 } else { 1 }) {
            push(v, &[n], key, false, move |m| m.set(key, V::B(true)));
        }
    };
    word(&mut v, "-f", "--format", "format", if full { &["text", "json", "csv"] } else { &["json"] }, &["", "xml", "JSON", "json "]);
    let mode_short = if cmd == "monos" { "-d" } else { "" };
    word(&mut v, mode_short, "--mode", "mode", if full { &["auto", "wasm", "dwarf"] } else { &["wasm"] }, &["", "elf", "Wasm"]);
    word(&mut v, "-o", "", "output", if full { &["-", "out.txt", "a b/ä", "json"] } else { &["out.txt"] }, &[]);
    match cmd {
        "top" => {
            num(&mut v, "-n", "", "max_items");
            sw(&mut v, &["--retained"], "retained");
            sw(&mut v, &["-r", "--retaining-paths"], "retaining_paths");
        }
        "dominators" => {
            num(&mut v, "-d", "", "max_depth");
            num(&mut v, "-r", "", "max_rows");
            sw(&mut v, &["--regex"], "regex");
        }
        "paths" => {
            num(&mut v, "-d", "", "max_depth");
            num(&mut v, "-r", "", "max_paths");
            sw(&mut v, &["--descending"], "descending");
            sw(&mut v, &["--regex"], "regex");
        }
        "monos" => {
            num(&mut v, "-m", "--max-generics", "max_generics");
            num(&mut v, "-n", "--max-monos", "max_monos");
            sw(&mut v, &["-g", "--only-generics"], "only_generics");
            sw(&mut v, &["--regex"], "regex");
            for a in if full { &["-a", "--all"][..] } else { &["-a"][..] } {
                push(&mut v, &[a], "all", false, |m| {
                    m.lifted.insert("max_generics");
                    m.lifted.insert("max_monos");
                });
            }
            push(&mut v, &["--all-generics"], "all_generics", false, |m| {
                m.lifted.insert("max_generics");
            });
            push(&mut v, &["--all-monos"], "all_monos", false, |m| {
                m.lifted.insert("max_monos");
            });
        }
        "diff" => {
            num(&mut v, "-n", "", "max_items");
            sw(&mut v, &["--regex"], "regex");
        }
        _ => {
            num(&mut v, "-n", "", "max_items");
            sw(&mut v, &["--show-data-segments"], "show_data");
        }
    }
    if cmd == "diff" || cmd == "garbage" {
        for a in if full { &["-a", "--all"][..] } else { &["-a"][..] } {
            push(&mut v, &[a], "all", false, |m| {
                m.lifted.insert("max_items");
            });
        }
    }
    v
}

fn takes_names(cmd: &str) -> bool {
    !matches!(cmd, "top" | "garbage")
}

/// The command line with the flags `seq` in order; the positional arguments come before, between or after.
fn line(cmd: &str, seq: &[Flag], place: usize, names: &[&str]) -> Vec<String> {
    let mut pos: Vec<String> = vec!["in".into()];
    if cmd == "diff" {
        pos.push("new".into());
    }
    pos.extend(names.iter().map(|s| s.to_string()));
    let mut a = vec![cmd.to_string()];
    match place {
        0 => {
            a.extend(pos);
            for f in seq {
                a.extend(f.args.clone());
            }
        }
        1 => {
            for f in seq {
                a.extend(f.args.clone());
            }
            a.extend(pos);
        }
        2 => {
            // one positional after each flag, the rest at the end
            let mut p = pos.into_iter();
            for f in seq {
                a.extend(f.args.clone());
                a.extend(p.next());
            }
            a.extend(p);
        }
        _ => {
            for f in seq {
                a.extend(f.args.clone());
            }
            a.push("--".into());
            a.extend(pos);
        }
    }
    a
}

fn check_line(cmd: &str, a: &[String], seq: &[Flag], names: &[&str], c: &Case) -> Result<Option<(Obj, Model)>, String> {
    let mut m = Model::new(cmd);
    for f in seq {
        (f.f)(&mut m);
    }
    if takes_names(cmd) {
        m.set("names", V::L(names.iter().map(|s| s.to_string()).collect()));
    }
    let bad = seq.iter().any(|f| f.bad);
    let repeated = (0..seq.len()).any(|i| (0..i).any(|j| seq[i].id == seq[j].id));
    c.trace();
    match opts::parse(a) {
        Err(e) => {
            if bad || repeated {
                return Ok(None);
            }
            Err(format!("{:?} is rejected: {}", a, e))
        }
        Ok(o) => {
            if bad {
                return Err(format!("{:?} is accepted: {:?}", a, o));
            }
            {
                let (i, f) = (o.input().to_string_lossy().into_owned(), format!("{:?}", o.output_format()).to_lowercase());
                let md = format!("{:?}", o.parse_mode()).to_lowercase();
                let w = m.effective();
                if w["input"] != V::S(i.clone()) || w["format"] != V::S(f.clone()) || w["mode"] != V::S(md.clone()) {
                    return Err(format!("{:?}: the command sees input {:?}, format {}, mode {}; expected {:?}", a, i, f, md, w));
                }
                let d = match o.output_destination() {
                    opt::OutputDestination::Stdout => "-".to_string(),
                    opt::OutputDestination::Path(p) => p.to_string_lossy().into_owned(),
                };
                if w["output"] != V::S(d.clone()) {
                    return Err(format!("{:?}: the output goes to {:?}", a, d));
                }
            }
            let o = Obj::of(o);
            cmp(&o, &m, false, &|| format!("{:?}", a))?;
            Ok(Some((o, m)))
        }
    }
}

/// Runs the analysis for the options on a subject with more rows than any default limit.
fn report(o: &Obj) -> Result<[String; 3], String> {
    let (s, t) = big();
    let (mut a, mut b) = (s.build(), t.build());
    let e = match o {
        Obj::Top(o) => an::top(&mut a, o),
        Obj::Dominators(o) => an::dominators(&mut a, o),
        Obj::Paths(o) => an::paths(&mut a, o),
        Obj::Monos(o) => an::monos(&mut a, o),
        Obj::Diff(o) => an::diff(&mut a, &mut b, o),
        Obj::Garbage(o) => an::garbage(&a, o),
    }
    .map_err(|e| format!("the analysis fails: {}", e))?;
    Ok([emit_of(&*e, &a, Fmt::Text)?, emit_of(&*e, &a, Fmt::Json)?, emit_of(&*e, &a, Fmt::Csv)?])
}

/// 13 generics with 12 instances each, a chain of depth 13, garbage code and data.
fn big() -> &'static (crate::model::Spec, crate::model::Spec) {
    use crate::model::*;
    static B: std::sync::OnceLock<(Spec, Spec)> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let mut names = vec![];
        for g in 0..13 {
            for i in 0..12 {
                names.push(format!("g{}::h{:016x}", g, i));
            }
        }
        for i in 0..13 {
            names.push(format!("chain{}", i));
        }
        for i in 0..14 {
            names.push(format!("dead{}", i));
        }
        for i in 0..3 {
            names.push(format!("data[{}]", i));
        }
        let n = names.len();
        let mut s = Spec::plain(n);
        s.names = names;
        for i in 0..n {
            s.sizes[i] = 3 + (i as u32 * 7) % 101;
            s.kinds[i] = if i >= n - 3 { K::Data } else { K::Code };
        }
        s.roots = vec![156, 0];
        for i in 156..168 {
            s.adj[i].push(i + 1);
        }
        for i in 1..156 {
            s.adj[168 - i % 3].push(i);
        }
        s.total = s.sum();
        let mut t = s.clone();
        for i in 0..n {
            t.sizes[i] += (i as u32 * 5) % 17 + 1;
        }
        t.total = t.sum();
        (s, t)
    })
}

/// An object with the same effective options that never saw an `all` flag.
fn plain(cmd: &str, m: &Model) -> Obj {
    let v = m.effective();
    let n = |k: &str| match &v[k] {
        V::N(n) => *n,
        _ => unreachable!(),
    };
    let b = |k: &str| v[k] == V::B(true);
    let l = |k: &str| match &v[k] {
        V::L(l) => l.clone(),
        _ => unreachable!(),
    };
    match cmd {
        "top" => {
            let mut o = opt::Top::new();
            o.set_max_items(n("max_items"));
            o.set_retained(b("retained"));
            o.set_retaining_paths(b("retaining_paths"));
            Obj::Top(o)
        }
        "dominators" => Obj::Dominators(opts::dominators(&l("names"), b("regex"), Some(n("max_depth")), Some(n("max_rows")))),
        "paths" => Obj::Paths(opts::paths(&l("names"), b("regex"), b("descending"), Some(n("max_depth")), Some(n("max_paths")))),
        "monos" => {
            Obj::Monos(opts::monos(&l("names"), b("regex"), b("only_generics"), Some(n("max_generics")), Some(n("max_monos"))))
        }
        "diff" => Obj::Diff(opts::diff(&l("names"), b("regex"), Some(n("max_items")))),
        _ => Obj::Garbage(opts::garbage(n("max_items"), b("show_data"))),
    }
}

pub fn c17(tier: Tier) -> Check {
    let setters = fam(
        "setters",
        "for each of the 6 option types, from new() and default(): every state that setter calls with the values 0, 1, 7, u32::MAX / false, true (names: up to two) reach, to a fixed point; all getters after every call",
        |ch, c| {
            let cmd = *ch.of(&CMDS);
            let d = ch.flag();
            let from = format!("{}::{}()", cmd, if d { "default" } else { "new" });
            c.nontrivial();
            c.sample(|| from.clone());
            let (o, m) = (Obj::new(cmd, d), Model::new(cmd));
            cmp(&o, &m, true, &|| from.clone())?;
            closure(o, m, c, 64, true, &from)
        },
    );
    let spellings = fam(
        "spellings",
        "for each command, every ordered pair of (option, spelling, value), values 0, 1, 7, u32::MAX and malformed ones, every format, mode and destination; positional arguments before, after, between, or after --; then every single setter call",
        |ch, c| {
            let cmd = *ch.of(&CMDS);
            let fl = flags(cmd, true);
            let n = ch.pick(3);
            let seq: Vec<Flag> = (0..n).map(|_| ch.of(&fl).clone()).collect();
            let place = ch.pick(4);
            let names: &[&str] = if takes_names(cmd) { [&[][..], &["b", "a c", "b"][..]][ch.pick(2)] } else { &[] };
            let a = line(cmd, &seq, place, names);
            c.state(&a);
            c.sample(|| a.join(" "));
            if n == 2 {
                c.nontrivial();
            }
            if let Some((o, m)) = check_line(cmd, &a, &seq, names, c)? {
                if place == 0 {
                    closure(o, m, c, 1, false, &format!("{:?}", a))?;
                }
            }
            Ok(())
        },
    );
    let numbers = crate::model::counts(40, tier.pick(1025, 4097));
    let names = fam(
        "names",
        "for each command that takes names, up to 40 of them and numbers around powers of 2 and 10 up to 1025 (thorough 4097), in ascending or descending order, all the same, or of every length up to the number; odd names (blank, empty, with spaces, signs, quotes, other scripts, `-` and options after `--`); before, after or between other options",
        move |ch, c| {
            let cmd = *ch.of(&["dominators", "paths", "monos", "diff"]);
            let n = *ch.of(&numbers);
            let kind = ch.pick(6);
            let place = ch.pick(4);
            let odd = ["", " ", "a b", "\u{e9}\u{1f600}", "'", "\"", "a=b", "*", "\\", "$x", "in", "new", cmd, "\n", "a,b", "1", "+1", "core::ptr::drop_in_place<T>"];
            let dashed = ["-", "--", "-x", "-n", "--regex", "-n1", "--max-items=1", "-h", "--help", "-V"];
            let v: Vec<String> = (0..n)
                .map(|i| match kind {
                    0 => format!("f{}", i),
                    1 => format!("f{}", n - i),
                    2 => "f".into(),
                    3 => "x".repeat(i + 1),
                    4 => odd[i % odd.len()].to_string(),
                    _ => dashed[(i + n) % dashed.len()].to_string(),
                })
                .collect();
            // only after -- are these names
            if kind == 5 && place != 3 {
                return Ok(());
            }
            let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            let fl = flags(cmd, false);
            let f = ch.pick(fl.len() + 1);
            let seq: Vec<Flag> = if f == 0 { vec![] } else { vec![fl[f - 1].clone()] };
            let a = line(cmd, &seq, place, &v);
            c.state((cmd, n, kind, place, f));
            c.sample(|| format!("{} with {} names", cmd, n));
            if n > 1 {
                c.nontrivial();
            }
            check_line(cmd, &a, &seq, &v, c).map(|_| ()).map_err(|e| e.chars().take(3000).collect())
        },
    );
    let depth = tier.pick(4, 6);
    let orders = fam(
        "flag-orders",
        format!("for each command, every sequence of up to {} of its options (two values per limit, one spelling; repetitions may be refused but must not change the meaning), then every sequence of two setter calls", depth),
        move |ch, c| {
            let cmd = *ch.of(&CMDS);
            let fl = flags(cmd, false);
            let n = ch.range(0, depth);
            let mut seq: Vec<Flag> = vec![];
            for _ in 0..n {
                // repetitions only next to each other
                let rest: Vec<&Flag> = fl
                    .iter()
                    .filter(|f| seq.iter().rev().skip(1).all(|g| g.id != f.id) && (n < 4 || seq.iter().all(|g| g.id != f.id)))
                    .collect();
                if rest.is_empty() {
                    return Ok(());
                }
                seq.push((*ch.of(&rest)).clone());
            }
            let a = line(cmd, &seq, 1, &[]);
            c.state(&a);
            c.sample(|| a.join(" "));
            if n > 1 {
                c.nontrivial();
            }
            if let Some((o, m)) = check_line(cmd, &a, &seq, &[], c)? {
                if n <= 3 {
                    closure(o, m, c, 2, false, &format!("{:?}", a))?;
                }
            }
            Ok(())
        },
    );
    let observed = fam(
        "observed",
        "for each command, every set of up to 3 options and then up to one setter call: the three reports on 186 items equal those of an object on which only the expected effective limits were set",
        |ch, c| {
            let cmd = *ch.of(&CMDS);
            let fl: Vec<Flag> = flags(cmd, false).into_iter().filter(|f| !matches!(f.id, "format" | "mode" | "output" | "retaining_paths")).collect();
            let mut seq: Vec<Flag> = vec![];
            let mut k = 0;
            for _ in 0..3 {
                let i = ch.pick(fl.len() - k + 1);
                if i == 0 {
                    break;
                }
                k += i;
                let f = fl[k - 1].clone();
                if seq.iter().any(|g| g.id == f.id) {
                    return Ok(());
                }
                seq.push(f);
            }
            let names: &[&str] = if takes_names(cmd) { [&[][..], &["g1"][..], &["chain1.*", "g[0-9]$"][..]][ch.pick(3)] } else { &[] };
            let a = line(cmd, &seq, 0, names);
            let (o, m) = match check_line(cmd, &a, &seq, names, c)? {
                Some(x) => x,
                None => return Ok(()),
            };
            let mut st = o.steps(&m);
            st.insert(0, ("nothing".into(), o, m));
            st.retain(|s| s.2.vals.get("retaining_paths") != Some(&V::B(true)));
            let (name, o, m) = ch.of(&st).clone();
            c.state((&a, &m));
            c.sample(|| format!("{} then {}", a.join(" "), name));
            c.nontrivial();
            let (x, y) = (report(&o)?, report(&plain(cmd, &m))?);
            c.traces(3);
            if x != y {
                let f = (0..3).find(|f| x[*f] != y[*f]).unwrap();
                return Err(format!("{:?} then {} prints\n{}\nbut these limits mean\n{}", a, name, x[f], y[f]));
            }
            Ok(())
        },
    );
    let refused = fam(
        "refused",
        "command lines that are no command: unknown commands and options, missing files, options of another command",
        |ch, c| {
            let cmd = *ch.of(&CMDS);
            let other: Vec<Flag> = CMDS.iter().flat_map(|x| flags(x, true)).collect();
            let f = ch.of(&other).clone();
            let own = flags(cmd, true);
            let head = |f: &Flag| {
                let h = &f.args[0];
                if h.starts_with("--") { h.split('=').next().unwrap().to_string() } else { h[..2].to_string() }
            };
            c.state((cmd, &f.args));
            c.sample(|| format!("{} {:?}", cmd, f.args));
            c.trace();
            c.nontrivial();
            let known = own.iter().any(|g| head(g) == head(&f));
            if !known {
                let mut a = line(cmd, &[f.clone()], 0, &[]);
                if opts::parse(&a).is_ok() {
                    return Err(format!("{:?} is accepted", a));
                }
                a.remove(1);
            }
            // no input at all, and for diff only one
            let mut a: Vec<String> = vec![cmd.into()];
            if opts::parse(&a).is_ok() {
                return Err(format!("{:?} is accepted", a));
            }
            if cmd == "diff" {
                a.push("in".into());
            }
            if !f.bad && own.iter().any(|g| g.args == f.args) {
                a.extend(f.args.clone());
                if opts::parse(&a).is_ok() {
                    return Err(format!("{:?} is accepted", a));
                }
            }
            if !takes_names(cmd) {
                let a: Vec<String> = vec![cmd.into(), "in".into(), "more".into()];
                if opts::parse(&a).is_ok() {
                    return Err(format!("{:?} is accepted", a));
                }
            }
            for a in [vec![], vec!["".to_string()], vec!["tops".to_string(), "in".to_string()]] {
                if opts::parse(&a).is_ok() {
                    return Err(format!("{:?} is accepted", a));
                }
            }
            Ok(())
        },
    );
    Check {
        id: "C17",
        level: "model_checking",
        families: vec![setters, refused, observed, spellings, names, orders],
        assumptions: vec![
            "an option given twice may be refused instead of the last value winning",
            "--retaining-paths is parsed but the analysis says it is not implemented",
        ],
        hang_secs: 60,
    }
}
