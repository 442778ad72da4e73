//! C24: the work is bounded, and deep inputs do not exhaust the stack.
use super::elf;
use crate::engine::*;
use crate::model::*;
use crate::report::*;
use crate::suite;
use crate::wasmgen::*;
use crate::{Check, Tier};

/// Small on purpose: recursion along a chain of thousands of items does not fit.
const STACK: usize = 512 << 10;
/// CPU time of one analysis and report; what is run here takes a hundredth of it, or a tenth for
/// the quadratic ones.
const CPU_SECS: f64 = 30.0;

fn cpu_secs() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

/// Runs `f` with little stack and measures it.
fn confined<T: Send>(what: &dyn Fn() -> String, f: impl FnOnce() -> Result<T, String> + Send) -> Result<T, String> {
    let (r, t) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let t = cpu_secs();
                let r = guarded(f).unwrap_or_else(|p| Err(format!("panic: {}", p)));
                (r, cpu_secs() - t)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    if t > CPU_SECS {
        return Err(format!("{}: takes {:.1} s", what(), t));
    }
    r.map_err(|e| format!("{}: {}", what(), e))
}

/// Graph shapes with very many paths, all items of a layer alike. The layers are the numbers of
/// items; the edges go from each item to ...
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Dense {
    /// every other item
    Complete,
    /// all items of the next layer
    Layers(usize),
    /// all items of the next layer, the last layer to the first
    Circle(usize),
    /// every other item, also to itself
    Loops,
}

impl Dense {
    fn spec(self, n: usize) -> Spec {
        let mut s = Spec::plain(n);
        s.names = (0..n).map(|i| format!("i{}", i)).collect();
        s.sizes = (0..n).map(|i| (i % 7) as u32 + 1).collect();
        s.total = s.sum() + 1;
        for i in 0..n {
            s.adj[i] = match self {
                Dense::Complete => (0..n).filter(|j| *j != i).collect(),
                Dense::Loops => (0..n).collect(),
                Dense::Layers(w) => (0..n).filter(|j| j / w == i / w + 1).collect(),
                Dense::Circle(w) => (0..n).filter(|j| j / w == (i / w + 1) % (n / w)).collect(),
            };
        }
        s.roots = match self {
            Dense::Layers(w) => (0..w).collect(),
            _ => vec![0],
        };
        s
    }
    /// Number of children of an item `k` steps into a path that started in layer `l`.
    fn kids(self, n: usize, l: usize, k: usize, desc: bool) -> usize {
        match self {
            Dense::Complete | Dense::Loops => n - k - 1,
            Dense::Layers(w) => {
                if desc {
                    if l + k + 1 < n / w { w } else { 0 }
                } else if l > k {
                    w
                } else {
                    0
                }
            }
            // an item is not met twice: each time round there is one less
            Dense::Circle(w) => w - (k + 1) / (n / w),
        }
    }
}

/// Number of rows of the tree below one item.
fn rows(g: Dense, n: usize, l: usize, desc: bool, d: u32, p: u32, cap: u64) -> u64 {
    let mut level = 1u64;
    let mut sum = 1u64;
    let mut k = 0;
    while k < d as usize && level > 0 && sum <= cap {
        level *= (g.kids(n, l, k, desc) as u64).min(u64::from(p));
        sum += level;
        k += 1;
    }
    sum
}

/// A row of a report, whatever the format: the number of entries.
fn count(fmt: Fmt, text: &str) -> usize {
    match fmt {
        Fmt::Text => text.lines().filter(|l| !l.is_empty()).count().saturating_sub(2),
        Fmt::Json => text.matches("\"name\":").count(),
        Fmt::Csv => text.lines().count().saturating_sub(1),
    }
}

/// Chains and their kin of `n` items.
fn long(kind: usize, n: usize) -> (&'static str, Spec) {
    let mut s = Spec::plain(n);
    s.names = (0..n).map(|i| format!("i{}", i)).collect();
    s.sizes = vec![1; n];
    s.total = s.sum() + 1;
    s.roots = vec![0];
    let name = match kind {
        0 => {
            (0..n - 1).for_each(|i| s.adj[i].push(i + 1));
            "chain"
        }
        1 => {
            (0..n).for_each(|i| s.adj[i].push((i + 1) % n));
            "ring"
        }
        2 => {
            s.roots.clear();
            (0..n - 1).for_each(|i| s.adj[i].push(i + 1));
            "unreachable chain"
        }
        3 => {
            for i in 0..n {
                (i + 1..n.min(i + 3)).for_each(|j| s.adj[i].push(j));
            }
            "ladder"
        }
        4 => {
            for i in 0..n {
                if i + 1 < n {
                    s.adj[i].push(i + 1);
                }
                if i > 0 {
                    s.adj[i].push(i - 1);
                }
            }
            "two-way chain"
        }
        _ => {
            (1..n).for_each(|i| s.adj[0].push(i));
            (1..n - 1).for_each(|i| s.adj[i].push(n - 1));
            "fan"
        }
    };
    (name, s)
}

pub fn c24(tier: Tier) -> Check {
    let max = tier.pick(40, 120);
    let dense = fam(
        "dense",
        format!("complete digraphs (with and without self references), layered graphs and circles of layers (widths 2..5) of 2..{} items, both directions, all items or one as start, every depth limit 0..4 or none, every limit on the children 0..3 or none, as far as the listing has at most 20000 rows: the listing has exactly the rows within the limits and takes less than {} s", max, CPU_SECS),
        move |ch, c| {
            let n = ch.range(2, max);
            let g = match ch.pick(10) {
                0 => Dense::Complete,
                1 => Dense::Loops,
                k if k < 6 => Dense::Layers(k),
                k => Dense::Circle(k - 4),
            };
            if let Dense::Layers(w) | Dense::Circle(w) = g {
                if n % w != 0 || n < 2 * w {
                    return Ok(());
                }
            }
            let desc = ch.flag();
            let one = ch.flag();
            let s = g.spec(n);
            let mut items = s.build();
            let name = vec!["i0".to_string()];
            let last = vec![format!("i{}", n - 1)];
            let mut starts: Vec<usize> = match (one, desc) {
                (true, true) => vec![0],
                (true, false) => vec![n - 1],
                (false, true) => s.roots.clone(),
                (false, false) => (0..n).collect(),
            };
            let w = match g {
                Dense::Layers(w) | Dense::Circle(w) => w,
                _ => 1,
            };
            starts.iter_mut().for_each(|x| *x /= w);
            for d in [0, 1, 2, 3, 4, u32::MAX] {
                for p in [0, 1, 2, 3, u32::MAX] {
                    let cap = 20_000;
                    let want: u64 = starts.iter().map(|l| rows(g, n, *l, desc, d, p, cap)).sum();
                    if want > cap {
                        continue;
                    }
                    c.state((n, g, desc, one, d, p));
                    c.sample(|| format!("{:?} of {} items, descending {}, one start {}, -d {} -r {}: {} rows", g, n, desc, one, d, p, want));
                    c.nontrivial();
                    let args: &[String] = if !one { &[] } else if desc { &name } else { &last };
                    let o = crate::opts::paths(args, false, desc, Some(d), Some(p));
                    for fmt in FMTS {
                        // the text and JSON reports of a path indent every line by its depth
                        let what = || format!("paths of {:?} with {} items, descending {}, from {}, -d {} -r {}, {}", g, n, desc, if one { "one item" } else { "all" }, d, p, fmt.name());
                        let text = confined(&what, || emit(|i| twiggy_analyze::paths(i, &o), &mut items, fmt))?;
                        c.trace();
                        let got = count(fmt, &text);
                        if got as u64 != want {
                            return Err(format!("{}: {} rows, expected {}", what(), got, want));
                        }
                    }
                }
            }
            Ok(())
        },
    );
    let big = tier.pick(400, 1000);
    let others = fam(
        "dense-others",
        format!("the same graphs of 2 and {} items: top, dominators, monos, garbage, diff with default and restrictive options, three formats", big),
        move |ch, c| {
            let g = match ch.pick(10) {
                0 => Dense::Complete,
                1 => Dense::Loops,
                k if k < 6 => Dense::Layers(k),
                k => Dense::Circle(k - 4),
            };
            let n = match g {
                Dense::Layers(w) | Dense::Circle(w) => *ch.of(&[2 * w, big / w * w]),
                _ => *ch.of(&[2, big]),
            };
            let s = g.spec(n);
            c.state((g, n));
            c.sample(|| format!("{:?} of {} items", g, n));
            c.nontrivial();
            let (mut a, mut b) = (s.build(), Dense::Complete.spec(3).build());
            for x in suite::all().iter().filter(|x| !x.name.starts_with("paths")) {
                for fmt in FMTS {
                    confined(&|| format!("{} {} of {:?} with {} items", x.name, fmt.name(), g, n), || x.text(&mut a, &mut b, fmt))?;
                    c.trace();
                }
            }
            Ok(())
        },
    );
    let len = tier.pick(30_000, 50_000);
    let chains = fam(
        "long",
        format!("chains, rings, unreachable chains, ladders, two-way chains and fans of {} items, every analysis without limits that would cut them (paths without limits on ladders excepted, and paths in the text format with -d 300, because indentation makes that report quadratic), three formats, on a stack of {} KiB: under {} s of CPU time each", len, STACK >> 10, CPU_SECS),
        move |ch, c| {
            let kind = ch.pick(6);
            let fmt = *ch.of(&FMTS);
            let which = ch.pick(8);
            let text = fmt == Fmt::Text;
            // indentation makes the text report of a chain quadratic in its length
            let len = if which == 1 && text { len / 8 } else { len };
            let (name, s) = long(kind, len);
            let no: &[String] = &[];
            let first = ["i0".to_string()];
            let last = [format!("i{}", len - 1)];
            let depth = Some(if text { 300 } else { u32::MAX });
            let depth = if kind == 3 { Some(8) } else { depth };
            let x = match which {
                0 => suite::top(u32::MAX, true),
                1 => suite::dominators(no, false, Some(u32::MAX), Some(u32::MAX)),
                2 => suite::paths(&last, false, false, depth, Some(u32::MAX)),
                3 => suite::paths(&first, false, true, depth, Some(u32::MAX)),
                4 => suite::paths(no, false, false, Some(1), Some(5)),
                5 => suite::monos(no, false, false, Some(u32::MAX), Some(u32::MAX)),
                6 => suite::garbage(u32::MAX, true),
                _ => suite::diff(no, false, None),
            };
            c.state((kind, fmt, which));
            c.sample(|| format!("{} {} of a {} of {}", x.name, fmt.name(), name, len));
            c.nontrivial();
            let (mut a, mut b) = (s.build(), Spec::plain(1).build());
            let out = confined(&|| format!("{} {} of a {} of {} items", x.name, fmt.name(), name, len), || x.text(&mut a, &mut b, fmt))?;
            c.trace();
            // the fewest and the most rows, totals included
            let want = match (which, kind) {
                (0, _) => len..len + 3,
                (2, 0 | 1 | 2 | 4) | (3, 0 | 1 | 2 | 4) => {
                    let n = if text { 301 } else { len };
                    n..n + 1
                }
                (6, 2) => len..len + 3,
                _ => 0..usize::MAX,
            };
            let got = count(fmt, &out);
            if !want.contains(&got) {
                return Err(format!("{} {} of a {} of {} items: {} rows, expected {:?}", x.name, fmt.name(), name, len, got, want));
            }
            Ok(())
        },
    );
    let files = fam(
        "files",
        format!("modules with {0} functions calling each other in a chain, {0} nested blocks, {0} custom sections, {0} types, exports or data segments, 900 parameters, a name of 30000 nested brackets (half as many in a Rust and in a C++ symbol), and an object file with {0} nested entries: parsed within {1} s on a stack of {2} KiB, then top and monos", len, CPU_SECS, STACK >> 10),
        move |ch, c| {
            let n = len;
            // the parser accepts names of up to 100000 bytes
            let k = n.min(30_000);
            let nm = |s: String| {
                Module {
                    sects: vec![
                        Sect::Types(vec![FuncType(vec![], vec![])]),
                        Sect::Funcs(vec![0]),
                        Sect::Code(vec![Body { locals: vec![], ops: vec![] }]),
                        Sect::Name(vec![NameSub::Funcs(vec![(0, s)])]),
                    ],
                    pad: 0,
                    pad_counts: 0,
                pad_inner: 0,
                }
                .bytes()
            };
            let module = |sects: Vec<Sect>| Module { sects, pad: 0, pad_counts: 0, pad_inner: 0 }.bytes();
            let ty = || Sect::Types(vec![FuncType(vec![], vec![])]);
            let (what, bytes) = match ch.pick(12) {
                0 => ("chain of functions", super::web::chain(n)),
                1 => (
                    "nested blocks",
                    module(vec![ty(), Sect::Funcs(vec![0]), Sect::Code(vec![Body { locals: vec![], ops: std::iter::repeat(Op::Raw(vec![2, 0x40])).take(n).chain(std::iter::repeat(Op::Raw(vec![0xb])).take(n)).collect() }])]),
                ),
                2 => ("custom sections", module((0..n).map(|i| Sect::Custom(format!("c{}", i), vec![])).collect())),
                3 => ("types", module(vec![Sect::Types(vec![FuncType(vec![], vec![]); n])])),
                4 => ("parameters", module(vec![Sect::Types(vec![FuncType(vec![0x7f; 900], vec![]); n / 100])])),
                5 => ("exports", module(vec![ty(), Sect::Funcs(vec![0]), Sect::Exports((0..n).map(|i| Export { name: format!("e{}", i), space: Space::Func, index: 0 }).collect()), Sect::Code(vec![Body { locals: vec![], ops: vec![] }])])),
                6 => ("data segments", module(vec![Sect::Mems(vec![(1, None)]), Sect::Datas((0..n).map(|i| Data { flag: 0, off: Expr::I32(i as i32), bytes: vec![1] }).collect())])),
                7 => ("brackets", nm(format!("a{}{}", "<a".repeat(k), ">".repeat(k)))),
                8 => ("brackets in a Rust symbol", nm(format!("_ZN{}{}E", 2 * k, "$LT$".repeat(k / 2)))),
                9 => ("nested C++ templates", nm(format!("_Z1f{}i{}", "I1AI".repeat(k / 2), "EE".repeat(k / 2)))),
                10 => ("nested v0 types", nm(format!("_RINvC1a1f{}hE", "R".repeat(k)))),
                _ => ("nested entries of an object file", std::thread::Builder::new().stack_size(512 << 20).spawn(move || elf::nested(n)).unwrap().join().unwrap()),
            };
            c.state(what);
            c.sample(|| what.to_string());
            c.nontrivial();
            let r = confined(&|| format!("{} {}", n, what), || {
                let mut i = elf::read_as(&bytes, twiggy_traits::ParseMode::Auto).map_err(|e| e.to_string())?;
                let no: &[String] = &[];
                for x in [suite::top(u32::MAX, false), suite::monos(no, false, false, None, None)] {
                    let mut b = Spec::plain(1).build();
                    x.text(&mut i, &mut b, Fmt::Text)?;
                }
                Ok(())
            });
            c.trace();
            r
        },
    );
    Check {
        id: "C24",
        level: "model_checking",
        families: vec![dense, others, chains, files],
        assumptions: vec![
            "\"polynomial\" is decided by a limit on the CPU time that the current code stays far below on these inputs and any exponential enumeration exceeds by orders of magnitude; \"the stack\" by running on one of 512 KiB",
        ],
        hang_secs: 120,
    }
}
