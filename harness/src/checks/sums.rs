//! C11 (diff) and C12 (monos): grouped sums with folded rows.
use super::trees::{many_args, Args, MANY_ARGS};
use crate::engine::*;
use crate::model::*;
use crate::report::*;
use crate::suite;
use crate::{rdr, Check, Tier};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- diff

pub fn read_diff(fmt: Fmt, text: &str) -> Result<Vec<Row>, String> {
    match fmt {
        Fmt::Text => text_rows(text, &["Delta Bytes", "Item"], &[Col::S]),
        Fmt::Json => json_rows(text, "name", &["delta_bytes"]),
        Fmt::Csv => {
            let rows = rdr::parse_csv(text)?;
            if rows.is_empty() || rows[0] != ["DeltaBytes", "Item"] {
                return Err("CSV: wrong header".into());
            }
            rows[1..]
                .iter()
                .map(|r| {
                    if !r[0].starts_with(['+', '-']) {
                        return Err(format!("CSV: no sign: {:?}", r));
                    }
                    let v: f64 = r[0].parse().map_err(|_| format!("CSV: not a number: {:?}", r))?;
                    Ok(Row { name: r[1].clone(), nums: vec![Some(v)] })
                })
                .collect()
        }
    }
}

fn sizes_by_name(s: &Spec) -> BTreeMap<&str, i64> {
    let mut m = BTreeMap::new();
    for i in 0..s.n() {
        *m.entry(s.names[i].as_str()).or_insert(0) += i64::from(s.sizes[i]);
    }
    m
}

fn oracle_diff(old: &Spec, new: &Spec, args: &Args, limit: u32, fmt: Fmt, text: &str) -> Result<(), String> {
    let (o, n) = (sizes_by_name(old), sizes_by_name(new));
    let mut want: BTreeMap<&str, i64> = BTreeMap::new();
    for name in o.keys().chain(n.keys()) {
        let d = n.get(name).unwrap_or(&0) - o.get(name).unwrap_or(&0);
        let selected = args.names.is_empty() || if args.regex { args.matches(name) } else { args.names.iter().any(|a| a == name) };
        if d != 0 && selected {
            want.insert(name, d);
        }
    }
    let rows = read_diff(fmt, text)?;
    let k = want.len().min(limit as usize);
    let more = want.len() - k;
    if rows.len() != k + 1 + (more > 0) as usize {
        return Err(format!("{} rows, expected {}", rows.len(), k + 1 + (more > 0) as usize));
    }
    let mut mags: Vec<i64> = want.values().map(|d| d.abs()).collect();
    mags.sort_unstable_by(|a, b| b.cmp(a));
    let mut shown = 0;
    let mut seen = BTreeSet::new();
    for (i, r) in rows[..k].iter().enumerate() {
        let d = *want.get(r.name.as_str()).ok_or_else(|| format!("{:?} must not be listed", r.name))?;
        if !seen.insert(&r.name) {
            return Err(format!("{:?} is listed twice", r.name));
        }
        if r.nums[0] != Some(d as f64) {
            return Err(format!("{:?} changed by {:?}, expected {}", r.name, r.nums[0], d));
        }
        if d.abs() != mags[i] {
            return Err(format!("row {} is {:?} with {}, the rank has magnitude {}", i, r.name, d, mags[i]));
        }
        shown += d;
    }
    let all: i64 = want.values().sum();
    let mut sums = vec![];
    if more > 0 {
        sums.push((format!("... and {} more.", more), all - shown));
    }
    let total = if args.names.is_empty() { i64::from(new.total) - i64::from(old.total) } else { all };
    sums.push((format!("Σ [{} Total Rows]", want.len()), total));
    for (r, (name, v)) in rows[k..].iter().zip(sums) {
        if r.name != name || r.nums[0] != Some(v as f64) {
            return Err(format!("summary {:?} {:?}, expected {:?} {}", r.name, r.nums[0], name, v));
        }
    }
    Ok(())
}

fn run_diff(old: &Spec, new: &Spec, args: &Args, limits: &[Option<u32>], c: &Case) -> Result<(), String> {
    let (mut a, mut b) = (old.build(), new.build());
    for l in limits {
        let o = crate::opts::diff(&args.names, args.regex, *l);
        let e = twiggy_analyze::diff(&mut a, &mut b, &o).map_err(|e| format!("diff fails: {}", e))?;
        for fmt in FMTS {
            let t = emit_of(&*e, &a, fmt)?;
            c.trace();
            oracle_diff(old, new, args, l.unwrap_or(20), fmt, &t).map_err(|e| {
                format!("{}: {}\n{}\nold {}\nnew {}\narguments {:?} limit {:?}", fmt.name(), e, t, old.show(), new.show(), args, l)
            })?;
        }
    }
    Ok(())
}

/// A list of (name, size) with non-decreasing positions in the pool.
fn multiset(ch: &mut Chooser, max: usize, pool: usize) -> Vec<usize> {
    let n = ch.range(0, max);
    let mut v: Vec<usize> = vec![];
    for _ in 0..n {
        let lo = v.last().cloned().unwrap_or(0);
        v.push(lo + ch.pick(pool - lo));
    }
    v
}

fn diff_side(ids: &[usize], names: &[&str], nsizes: usize, slack: u32) -> Spec {
    let mut s = Spec::plain(ids.len());
    for (i, p) in ids.iter().enumerate() {
        s.names[i] = names[p / nsizes].to_string();
        s.sizes[i] = (p % nsizes) as u32;
        s.kinds[i] = [K::Misc, K::Code, K::Data][i % 3];
    }
    s.total = s.sum() + slack;
    s
}

pub fn c11(tier: Tier) -> Check {
    let pairs = fam(
        "pairs",
        "all pairs of multisets of up to 3 items over names a, b, c (names may repeat) and sizes 0..2; limits 0..4 and the default without arguments; named and regex selections; three formats",
        |ch, c| {
            let (x, y) = (multiset(ch, 3, 9), multiset(ch, 3, 9));
            let (old, new) = (diff_side(&x, &["a", "b", "c"], 3, 8), diff_side(&y, &["a", "b", "c"], 3, 9));
            c.state((&x, &y));
            c.sample(|| format!("{} against {}", old.show(), new.show()));
            if x != y {
                c.nontrivial();
            }
            run_diff(&old, &new, &Args::none(), &[None, Some(0), Some(1), Some(2), Some(3)], c)?;
            run_diff(&old, &new, &Args::names(&["b"]), &[None, Some(0)], c)?;
            run_diff(&old, &new, &Args::names(&["c", "zz", "a"]), &[Some(1)], c)?;
            run_diff(&old, &new, &Args { names: vec!["^[ac]$".into()], regex: true }, &[None, Some(1)], c)
        },
    );
    let four = fam(
        "four-names",
        "all pairs of lists of 4 (thorough 5) differently named items, each absent or of size 0..2 on either side; all limits",
        move |ch, c| {
            let n = tier.pick(4, 5);
            let names = ["a", "b", "c", "d", "e"];
            let mut side = || -> Vec<usize> {
                (0..n)
                    .filter_map(|i| {
                        let v = ch.pick(4);
                        if v == 3 {
                            None
                        } else {
                            Some(i * 3 + v)
                        }
                    })
                    .collect()
            };
            let (x, y) = (side(), side());
            let (old, new) = (diff_side(&x, &names, 3, 1), diff_side(&y, &names, 3, 0));
            c.state((&x, &y));
            c.sample(|| format!("{} against {}", old.show(), new.show()));
            if x != y {
                c.nontrivial();
            }
            if old.total == 0 || new.total == 0 {
                return Ok(());
            }
            run_diff(&old, &new, &Args::none(), &[Some(0), Some(2), Some(4)], c)?;
            run_diff(&old, &new, &Args { names: vec![".".into()], regex: true }, &[Some(1), Some(3)], c)
        },
    );
    let named = fam(
        "names",
        "all pairs of lists of 3 names out of each style, each absent, with its symbol or plain, of size 1 or 2, selections by every name, symbol, near miss, pattern as a literal and as a regular expression",
        |ch, c| {
            let style = ch.pick(STYLES.len());
            let from = ch.pick(5);
            let mut side = || {
                let mut s = Spec::plain(0);
                for i in 0..3 {
                    let v = ch.pick(3);
                    if v > 0 {
                        let (n, _, k) = STYLES[style][(i + from) % 5];
                        s.names.push(n.into());
                        s.kinds.push(k);
                        s.sizes.push(v as u32 * (i as u32 + 1));
                        s.adj.push(vec![]);
                    }
                }
                s.total = s.sum() + 3;
                s.symbols();
                s
            };
            let (old, new) = (side(), side());
            c.state((&old, &new));
            c.sample(|| format!("{} against {}", old.show(), new.show()));
            c.nontrivial();
            for a in super::trees::style_args(style) {
                run_diff(&old, &new, &a, &[None, Some(1)], c)?;
            }
            Ok(())
        },
    );
    let numbers = [counts(45, tier.pick(1025, 4097)), HUGE.to_vec()].concat();
    let many = fam(
        "many",
        "1..45 names (and numbers around powers of 2 and 10 up to 1025, thorough 4097, and around 65536) shrinking, growing or alternating by patterns, values up to 4 GiB, default limit and limits around the count",
        move |ch, c| {
            let n = *ch.of(&numbers);
            let pat = ch.pick(4);
            let scale = *ch.of(if n > 5000 { &[1u32][..] } else if n > 45 { &[1, 1000] } else { &[1, 1_000_000] });
            let mut old = Spec::plain(n);
            let mut new = Spec::plain(n);
            for i in 0..n {
                let v = ((i * 13) % 29) as u32 * scale;
                let (o, w) = match pat {
                    0 => (v, 0),
                    1 => (0, v),
                    2 => if i % 2 == 0 { (v, 1) } else { (1, v) },
                    _ => (v, v + (i % 3) as u32),
                };
                old.sizes[i] = o;
                new.sizes[i] = w;
                old.names[i] = format!("item {}", i);
                new.names[i] = format!("item {}", i);
            }
            old.total = old.sum() + 3;
            new.total = new.sum() + 2;
            c.state((n, pat, scale));
            c.sample(|| format!("{} names, pattern {}", n, pat));
            c.nontrivial();
            let l: Vec<Option<u32>> = vec![None, Some(n as u32 - 1), Some(n as u32), Some(n as u32 + 1), Some(u32::MAX), Some(5)];
            if n > 5000 {
                return run_diff(&old, &new, &Args::none(), &l[..3], c).map_err(|e| e.chars().take(300).collect());
            }
            run_diff(&old, &new, &Args::none(), &l, c)?;
            run_diff(&old, &new, &Args { names: vec![".".into()], regex: true }, &l, c)
        },
    );
    let args = fam("many-arguments", MANY_ARGS, {
        let numbers = counts(40, tier.pick(257, 1025));
        move |ch, c| {
            let n = *ch.of(&numbers);
            let a = many_args(ch, n);
            let side = ch.pick(3);
            let (mut old, mut new) = (Spec::plain(n), Spec::plain(n));
            for i in 0..n {
                old.names[i] = format!("item {}", i);
                new.names[i] = if side == 2 && i % 2 == 1 { format!("other {}", i) } else { format!("item {}", i) };
                old.sizes[i] = if side == 1 { 0 } else { (i * 7 % 5) as u32 };
                new.sizes[i] = (i * 3 % 4) as u32;
            }
            old.total = old.sum() + 3;
            new.total = new.sum() + 2;
            c.state((n, &a, side));
            c.sample(|| format!("{} items, arguments {:?}", n, a));
            c.nontrivial();
            run_diff(&old, &new, &a, &[None, Some(n as u32 / 2), Some(u32::MAX)], c)
        }
    });
    let huge = fam("huge", "two names with sizes 0, 1, 2^31-1, 2^31, 2^32-1 on either side", |ch, c| {
        let v = [0u32, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
        let mut mk = |both: bool| {
            let mut s = Spec::plain(1 + both as usize);
            s.sizes[0] = *ch.of(&v);
            if both {
                s.sizes[1] = if s.sizes[0] == 0 { *ch.of(&v) } else { 0 };
            }
            s.total = *ch.of(&[1u32, 0x8000_0000, u32::MAX]);
            s
        };
        let (old, new) = (mk(true), mk(false));
        let (o2, n2) = (mk(false), mk(true));
        c.state((&old, &new, &o2, &n2));
        c.nontrivial();
        run_diff(&old, &new, &Args::none(), &[None, Some(1)], c)?;
        run_diff(&o2, &n2, &Args::names(&["b", "a"]), &[None, Some(0)], c)
    });
    let alike = super::alike::root_named(|n| {
        let (none, exact, re) = ([], [n.to_string()], ["(?i)ROOT>$".to_string()]);
        vec![suite::diff(&none, false, None), suite::diff_as_new(&none, false, Some(1)), suite::diff(&exact, false, None), suite::diff(&re, true, None)]
    });
    Check {
        id: "C11",
        level: "model_checking",
        families: vec![pairs, four, named, many, args, huge, alike],
        assumptions: vec!["the order among rows of equal magnitude is not specified"],
        hang_secs: 60,
    }
}

// ---------------------------------------------------------------- monos

#[derive(Clone, Debug)]
pub struct Gen {
    pub name: String,
    pub bloat: Option<f64>,
    pub bloat_pct: Option<f64>,
    pub size: Option<f64>,
    pub pct: Option<f64>,
    /// name, size, percent
    pub insts: Vec<(String, Option<f64>, Option<f64>)>,
}

pub fn read_monos(fmt: Fmt, text: &str) -> Result<Vec<Gen>, String> {
    let mut out: Vec<Gen> = vec![];
    match fmt {
        Fmt::Text => {
            let h = ["Apprx. Bloat Bytes", "Apprx. Bloat %", "Bytes", "%", "Monomorphizations"];
            for r in text_rows(text, &h, &[Col::N, Col::P, Col::N, Col::P])? {
                if r.nums[0].is_some() {
                    out.push(Gen { name: r.name, bloat: r.nums[0], bloat_pct: r.nums[1], size: r.nums[2], pct: r.nums[3], insts: vec![] });
                } else {
                    let name = r.name.strip_prefix("    ").ok_or_else(|| format!("instance {:?} is not indented", r.name))?;
                    if r.nums[1].is_some() {
                        return Err(format!("bloat for an instance: {:?}", r));
                    }
                    let g = out.last_mut().ok_or("an instance without a generic")?;
                    g.insts.push((name.to_string(), r.nums[2], r.nums[3]));
                }
            }
        }
        Fmt::Json => {
            let j = rdr::parse_json(text)?;
            for o in j.arr().ok_or("JSON: not an array")? {
                let f = |o: &rdr::Json, k: &str| o.get(k).and_then(|v| v.as_f64());
                let st = |o: &rdr::Json, k: &str| o.get(k).and_then(|v| v.as_str()).map(|s| s.to_string()).ok_or(format!("JSON: no {}", k));
                let mut insts = vec![];
                for m in o.get("monomorphizations").and_then(|m| m.arr()).ok_or("JSON: no monomorphizations")? {
                    insts.push((st(m, "name")?, f(m, "shallow_size"), f(m, "shallow_size_percent")));
                }
                out.push(Gen {
                    name: st(o, "generic")?,
                    bloat: f(o, "approximate_monomorphization_bloat_bytes"),
                    bloat_pct: f(o, "approximate_monomorphization_bloat_percent"),
                    size: f(o, "total_size"),
                    pct: f(o, "total_size_percent"),
                    insts,
                });
            }
        }
        Fmt::Csv => {
            let rows = rdr::parse_csv(text)?;
            let h = [
                "Generic",
                "ApproximateMonomorphizationBloatBytes",
                "ApproximateMonomorphizationBloatPercent",
                "TotalSize",
                "TotalSizePercent",
                "Monomorphizations",
            ];
            if rows.is_empty() || rows[0] != h {
                return Err("CSV: wrong header".into());
            }
            for r in &rows[1..] {
                let f = |i: usize| r[i].parse::<f64>().map(Some).map_err(|_| format!("CSV: not a number: {:?}", r));
                let insts = r[5].split(", ").filter(|s| !s.is_empty()).map(|s| (s.to_string(), None, None)).collect();
                out.push(Gen { name: r[0].clone(), bloat: f(1)?, bloat_pct: f(2)?, size: f(3)?, pct: f(4)?, insts });
            }
        }
    }
    Ok(out)
}

#[derive(Clone, Copy, Debug, Hash)]
struct MOpt {
    only: bool,
    generics: Option<u32>,
    monos: Option<u32>,
}

fn oracle_monos(s: &Spec, of: &dyn Fn(usize) -> Option<String>, args: &Args, o: MOpt, fmt: Fmt, text: &str) -> Result<(), String> {
    let mut groups: BTreeMap<String, Vec<(String, u32)>> = BTreeMap::new();
    for i in 0..s.n() {
        if let Some(g) = of(i) {
            let sel = args.names.is_empty() || if args.regex { args.matches(&g) } else { args.names.contains(&g) };
            if sel {
                groups.entry(g).or_default().push((s.names[i].clone(), s.sizes[i]));
            }
        }
    }
    let (mg, mm) = (o.generics.unwrap_or(10) as usize, o.monos.unwrap_or(10) as usize);
    let stat = |v: &[(String, u32)]| -> (u32, u32) {
        let t: u32 = v.iter().map(|x| x.1).sum();
        let k = v.len() as u32;
        let max = v.iter().map(|x| x.1).max().unwrap();
        (t, (t / k * (k - 1)).min(t - max))
    };
    let rows_of = |n: usize| if o.only { 1 } else { 1 + n.min(mm) + (n > mm) as usize };
    let got = read_monos(fmt, text)?;
    let k = groups.len().min(mg);
    let want_n = k + 1 + (groups.len() > mg) as usize;
    if got.len() != want_n {
        return Err(format!("{} generics, expected {}", got.len(), want_n));
    }
    let mut bloats: Vec<u32> = groups.values().map(|v| stat(v).1).collect();
    bloats.sort_unstable_by(|a, b| b.cmp(a));
    let total = f64::from(s.total);
    let mut rest = groups.clone();
    for (i, g) in got[..k].iter().enumerate() {
        let insts = rest.remove(&g.name).ok_or_else(|| format!("{:?} is not a generic, or listed twice", g.name))?;
        let (t, b) = stat(&insts);
        if g.size != Some(f64::from(t)) || g.bloat != Some(f64::from(b)) {
            return Err(format!("{:?} has total {:?} and bloat {:?}, expected {} and {}", g.name, g.size, g.bloat, t, b));
        }
        if !pct_ok(fmt, g.pct, f64::from(t), total) || !pct_ok(fmt, g.bloat_pct, f64::from(b), total) {
            return Err(format!("wrong percentages in {:?}", g));
        }
        if b != bloats[i] {
            return Err(format!("generic {} is {:?} with bloat {}, the rank has {}", i, g.name, b, bloats[i]));
        }
        if o.only {
            if !g.insts.is_empty() {
                return Err(format!("instances of {:?} are listed", g.name));
            }
            continue;
        }
        let mut sizes: Vec<u32> = insts.iter().map(|x| x.1).collect();
        sizes.sort_unstable_by(|a, b| b.cmp(a));
        let n = insts.len();
        let show = n.min(mm);
        if g.insts.len() != show + (n > mm) as usize {
            return Err(format!("{} instances of {:?} are listed, there are {}", g.insts.len(), g.name, n));
        }
        let mut left: BTreeMap<(&str, u32), usize> = BTreeMap::new();
        insts.iter().for_each(|x| *left.entry((&x.0, x.1)).or_insert(0) += 1);
        for (j, (name, size, pct)) in g.insts[..show].iter().enumerate() {
            match left.get_mut(&(name.as_str(), sizes[j])) {
                Some(n) if *n > 0 => *n -= 1,
                _ => return Err(format!("instance {} of {:?} is {:?}, expected one of size {}", j, g.name, name, sizes[j])),
            }
            if fmt != Fmt::Csv && (*size != Some(f64::from(sizes[j])) || !pct_ok(fmt, *pct, f64::from(sizes[j]), total)) {
                return Err(format!("instance {:?} has size {:?} {:?}, expected {}", name, size, pct, sizes[j]));
            }
        }
        if n > mm {
            let (name, size, pct) = &g.insts[show];
            let sum: u32 = sizes[show..].iter().sum();
            if *name != format!("... and {} more.", n - show) {
                return Err(format!("folded instances {:?}, expected {} more", name, n - show));
            }
            if fmt != Fmt::Csv && (*size != Some(f64::from(sum)) || !pct_ok(fmt, *pct, f64::from(sum), total)) {
                return Err(format!("folded instances have {:?}, expected {}", size, sum));
            }
        }
    }
    let sum_of = |m: &BTreeMap<String, Vec<(String, u32)>>| {
        m.values().fold((0usize, 0u32, 0u32), |a, v| {
            let (t, b) = stat(v);
            (a.0 + rows_of(v.len()), a.1 + t, a.2 + b)
        })
    };
    let mut sums = vec![];
    if groups.len() > mg {
        let (n, t, b) = sum_of(&rest);
        sums.push((format!("... and {} more.", n), t, b));
    }
    let (n, t, b) = sum_of(&groups);
    sums.push((format!("Σ [{} Total Rows]", n), t, b));
    for (g, (name, t, b)) in got[k..].iter().zip(sums) {
        if g.name != name || g.size != Some(f64::from(t)) || g.bloat != Some(f64::from(b)) || !g.insts.is_empty() {
            return Err(format!("summary {:?}, expected {:?} with {} bytes and bloat {}", g, name, t, b));
        }
        if !pct_ok(fmt, g.pct, f64::from(t), total) || !pct_ok(fmt, g.bloat_pct, f64::from(b), total) {
            return Err(format!("wrong percentages in {:?}", g));
        }
    }
    Ok(())
}

fn run_monos(s: &Spec, of: &dyn Fn(usize) -> Option<String>, args: &Args, opts: &[MOpt], c: &Case) -> Result<(), String> {
    let mut items = s.build();
    for o in opts {
        let mo = crate::opts::monos(&args.names, args.regex, o.only, o.generics, o.monos);
        let e = twiggy_analyze::monos(&mut items, &mo).map_err(|e| format!("monos fails: {}\n{}\narguments {:?}", e, s.show(), args))?;
        for fmt in FMTS {
            let t = emit_of(&*e, &items, fmt)?;
            c.trace();
            oracle_monos(s, of, args, *o, fmt, &t)
                .map_err(|e| format!("{}: {}\n{}\n{}\narguments {:?} {:?}", fmt.name(), e, t, s.show(), args, o))?;
        }
    }
    Ok(())
}

/// Names and the generic they are an instance of.
const POOL: [(&str, Option<&str>); 6] = [
    ("b<int>", Some("b")),
    ("b<char>", Some("b")),
    ("a<x>", Some("a")),
    ("a::b[c::h0123456789abcdef", Some("a::b[c")),
    ("plain", None),
    ("a::b[c::hfedcba9876543210", Some("a::b[c")),
];

fn mspec(ids: &[usize], sizes: &[u32]) -> Spec {
    let mut s = Spec::plain(ids.len());
    for (i, p) in ids.iter().enumerate() {
        s.names[i] = POOL[p / sizes.len()].0.to_string();
        s.sizes[i] = sizes[p % sizes.len()];
        s.kinds[i] = K::Code;
    }
    s.total = s.sum() + 13;
    s
}

fn pool_of(s: &Spec, i: usize) -> Option<String> {
    if s.kinds[i] != K::Code {
        return None;
    }
    POOL.iter().find(|p| p.0 == s.names[i]).and_then(|p| p.1).map(|g| g.to_string())
}

fn mgrid(g: u32, m: u32) -> Vec<MOpt> {
    let mut v = vec![];
    for only in [false, true] {
        v.push(MOpt { only, generics: None, monos: None });
        for a in 0..=g {
            for b in 0..=m {
                v.push(MOpt { only, generics: Some(a), monos: Some(b) });
            }
        }
    }
    v
}

pub fn c12(tier: Tier) -> Check {
    let assign = fam(
        "assign",
        "all multisets of up to 4 (thorough 5) functions over two C++-like generics, one Rust generic with regex metacharacters and a plain name, sizes 1, 2, 5, equal instances included; all limits 0..3 x 0..3, with and without -g, three formats",
        move |ch, c| {
            let sizes = [1u32, 2, 5];
            let ids = multiset(ch, tier.pick(4, 5), 5 * sizes.len());
            let s = mspec(&ids, &sizes);
            c.state(&ids);
            c.sample(|| s.show());
            if ids.len() > 1 {
                c.nontrivial();
            }
            run_monos(&s, &|i| pool_of(&s, i), &Args::none(), &mgrid(3, 3), c)
        },
    );
    let select = fam(
        "select",
        "all multisets of up to 4 functions over the pool (sizes 0, 3), exact names (also with metacharacters, invalid as a regex, unknown, a non-generic) and regexes; several limits",
        |ch, c| {
            let sizes = [0u32, 3];
            let ids = multiset(ch, 4, POOL.len() * 2);
            let s = mspec(&ids, &sizes);
            c.state(&ids);
            c.sample(|| s.show());
            if ids.len() > 1 {
                c.nontrivial();
            }
            let l = [
                MOpt { only: false, generics: None, monos: None },
                MOpt { only: false, generics: Some(1), monos: Some(1) },
                MOpt { only: true, generics: Some(1), monos: None },
            ];
            let of = |i| pool_of(&s, i);
            for a in [
                Args::names(&["b"]),
                Args::names(&["."]),
                Args::names(&["a::b[c", "a"]),
                Args::names(&["plain", "b", "("]),
                Args::names(&["b<int>", "zz"]),
                Args { names: vec!["b".into()], regex: true },
                Args { names: vec!["^[ac]$".into()], regex: true },
                Args { names: vec![".".into()], regex: true },
                Args { names: vec!["^zz$".into(), "^[ac]$".into()], regex: true },
            ] {
                run_monos(&s, &of, &a, &l, c)?;
            }
            Ok(())
        },
    );
    let kinds = fam("kinds", "functions and non-functions (all kinds) with names of the pool: only functions count", |ch, c| {
        let n = ch.range(1, 3);
        let mut s = Spec::plain(n);
        for i in 0..n {
            s.names[i] = POOL[ch.pick(5)].0.to_string();
            s.sizes[i] = 1 + i as u32;
            s.kinds[i] = *ch.of(&[K::Code, K::Data, K::Misc, K::Debug]);
        }
        s.total = s.sum();
        c.state(&s);
        c.sample(|| s.show());
        c.nontrivial();
        run_monos(&s, &|i| pool_of(&s, i), &Args::none(), &mgrid(1, 1), c)
    });
    let numbers = counts(39, tier.pick(1025, 4097));
    let bloat = fam(
        "bloat",
        "one generic with 1..5 instances of all sizes 0..7 (non-increasing), and one with 2..40 equal or rising instances next to up to 40 other generics (either also of numbers around powers of 2 and 10 up to 1025, thorough 4097): bloat formula, default limits",
        move |ch, c| {
            let (mut names, mut sizes) = (vec![], vec![]);
            if ch.flag() {
                let n = ch.range(1, tier.pick(5, 6));
                let mut top = 8;
                for i in 0..n {
                    let v = ch.pick(top);
                    top = v + 1;
                    names.push(format!("v<{}>", i));
                    sizes.push(v as u32);
                }
            } else {
                let n = 1 + *ch.of(&numbers);
                let others = match n {
                    0..=40 if n % 8 == 1 => *ch.of(&numbers),
                    0..=40 => ch.pick(41),
                    _ => ch.pick(3),
                };
                let pat = ch.pick(3);
                for i in 0..n {
                    names.push(format!("v<{}>", i));
                    sizes.push([7, i as u32, (i * i) as u32 % 23][pat]);
                }
                for i in 0..others {
                    for k in 0..1 + i % 3 {
                        names.push(format!("w{}<{}>", i, k));
                        sizes.push(((i * 5) % 7 * (1 + k)) as u32);
                    }
                }
            }
            let mut s = Spec::plain(names.len());
            s.kinds = vec![K::Code; names.len()];
            s.names = names;
            s.sizes = sizes;
            s.total = s.sum() + 1;
            c.state(&s);
            c.sample(|| s.show());
            c.nontrivial();
            let l = [
                MOpt { only: false, generics: None, monos: None },
                MOpt { only: true, generics: None, monos: None },
                MOpt { only: false, generics: Some(u32::MAX), monos: Some(u32::MAX) },
                MOpt { only: false, generics: Some(11), monos: Some(9) },
            ];
            let of = |i: usize| Some(s.names[i].split('<').next().unwrap().to_string());
            run_monos(&s, &of, &Args::none(), &l, c)
        },
    );
    let huge = fam("huge", format!("{:?} instances of one generic next to some of two others, or that many generics with 1..3 instances each; default limits, no limits, generics only, limits around the number", HUGE), move |ch, c| {
        let n = *ch.of(&HUGE);
        let wide = ch.flag();
        let mut s = Spec::plain(0);
        for i in 0..if wide { n } else { 3 } {
            for k in 0..if wide { 1 + i % 3 } else { [n, 1, 7][i] } {
                s.names.push(format!("item {}<{}>", i, k));
                s.sizes.push((i * 5 % 7 + k * 37 % 41) as u32);
            }
        }
        s.kinds = vec![K::Code; s.names.len()];
        s.adj = vec![vec![]; s.names.len()];
        s.total = s.sum() + 1;
        c.state((n, wide));
        c.sample(|| format!("{} {}", n, if wide { "generics" } else { "instances" }));
        c.nontrivial();
        let k = n as u32;
        let (g, m) = if wide { (Some(k - 1), None) } else { (None, Some(k - 1)) };
        let l = [(false, None, None), (true, None, None), (false, Some(u32::MAX), Some(u32::MAX)), (false, g, m)].map(|(only, generics, monos)| MOpt { only, generics, monos });
        let of = |i: usize| Some(s.names[i].split('<').next().unwrap().to_string());
        run_monos(&s, &of, &Args::none(), &l, c).map_err(|e| e.chars().take(300).collect())
    });
    let args = fam("many-arguments", MANY_ARGS, {
        let numbers = counts(40, tier.pick(257, 1025));
        move |ch, c| {
            let n = *ch.of(&numbers);
            let a = many_args(ch, n);
            let mut s = Spec::plain(0);
            for i in 0..n {
                for k in 0..1 + i % 3 {
                    s.names.push(format!("item {}<{}>", i, k));
                    s.sizes.push((i * 5 % 7 + k) as u32);
                    s.kinds.push(K::Code);
                    s.adj.push(vec![]);
                }
            }
            s.total = s.sum() + 1;
            c.state((n, &a));
            c.sample(|| format!("{} generics, arguments {:?}", n, a));
            c.nontrivial();
            let of = |i: usize| Some(s.names[i].split('<').next().unwrap().to_string());
            let l = [MOpt { only: false, generics: None, monos: None }, MOpt { only: false, generics: Some(u32::MAX), monos: Some(1) }];
            run_monos(&s, &of, &a, &l, c)
        }
    });
    let large = fam(
        "large-sizes",
        "all sequences of up to 4 (thorough 5) instances of two generics with sizes 0, 1, 2^24+1, (2^32-1)/3, and around 2^31 and 2^32, that add up to less than 2^32, in a file of their sum or of 7 bytes; limits 0, 1 and the default",
        move |ch, c| {
            let n = ch.range(1, tier.pick(4, 5));
            let mut s = Spec::plain(n);
            for i in 0..n {
                s.names[i] = format!("{}<{}>", ["v", "w"][ch.pick(2)], i);
                s.sizes[i] = *ch.of(&[0, 1, 0x0100_0001, 0x5555_5555, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe]);
                s.kinds[i] = K::Code;
            }
            let sum: u64 = s.sizes.iter().map(|x| u64::from(*x)).sum();
            if sum > u64::from(u32::MAX) {
                return Ok(());
            }
            s.total = if ch.flag() { 7 } else { (sum as u32).max(1) };
            c.state(&s);
            c.sample(|| s.show());
            c.nontrivial();
            let of = |i: usize| Some(s.names[i].split('<').next().unwrap().to_string());
            run_monos(&s, &of, &Args::none(), &mgrid(1, 1), c)
        },
    );
    Check {
        id: "C12",
        level: "model_checking",
        families: vec![assign, select, kinds, bloat, large, huge, args],
        assumptions: vec!["the order among generics of equal bloat and instances of equal size is not specified", "the file is not empty", "the average size is rounded down to whole bytes"],
        hang_secs: 60,
    }
}
