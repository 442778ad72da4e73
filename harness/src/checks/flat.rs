//! C08 (garbage) and C10 (top): flat lists with summaries.
use crate::engine::*;
use crate::model::*;
use crate::report::*;
use crate::suite;
use crate::{Check, Tier};

/// Row 0..k are items of `pool` (index, size), each at most once, sizes descending and the k largest ones.
fn ranked(rows: &[Row], pool: &[(usize, u32)], s: &Spec, col: usize) -> Result<(), String> {
    let by = s.by_name();
    let mut used = vec![false; s.n()];
    let mut sizes = vec![None; s.n()];
    pool.iter().for_each(|p| sizes[p.0] = Some(p.1));
    let mut want: Vec<u32> = pool.iter().map(|p| p.1).collect();
    want.sort_unstable_by(|a, b| b.cmp(a));
    for (k, r) in rows.iter().enumerate() {
        let i = *by.get(r.name.as_str()).ok_or_else(|| format!("row {} is {:?}, not an item", k, r.name))?;
        if used[i] {
            return Err(format!("{:?} is listed twice", r.name));
        }
        used[i] = true;
        let size = match sizes[i] {
            Some(v) => v,
            None => return Err(format!("{:?} must not be listed", r.name)),
        };
        if r.nums[col] != Some(f64::from(size)) {
            return Err(format!("{:?} has size {:?}, expected {}", r.name, r.nums[col], size));
        }
        if size != want[k] {
            return Err(format!("row {} is {:?} with {}, the rank has {}", k, r.name, size, want[k]));
        }
    }
    Ok(())
}

fn show_rows(rows: &[Row]) -> String {
    rows.iter().map(|r| format!("  {:?} {:?}\n", r.name, r.nums)).collect()
}

pub fn read_garbage(fmt: Fmt, text: &str) -> Result<Vec<Row>, String> {
    match fmt {
        Fmt::Text => text_rows(text, &["Bytes", "Size %", "Garbage Item"], &[Col::N, Col::P]),
        Fmt::Json => json_rows(text, "name", &["bytes", "size_percent"]),
        Fmt::Csv => csv_rows(text, &["Name", "Bytes", "SizePercent"], 0, &[1, 2]),
    }
}

pub fn oracle_garbage(s: &Spec, reach: &[bool], limit: u32, show: bool, fmt: Fmt, text: &str) -> Result<(), String> {
    let rows = read_garbage(fmt, text)?;
    let un: Vec<usize> = (0..s.n()).filter(|i| !reach[*i]).collect();
    let listed: Vec<(usize, u32)> =
        un.iter().filter(|i| show || s.kinds[**i] != K::Data).map(|i| (*i, s.sizes[*i])).collect();
    let data: Vec<u32> = un.iter().filter(|i| !show && s.kinds[**i] == K::Data).map(|i| s.sizes[*i]).collect();
    let k = listed.len().min(limit as usize);
    let fail = |e: String| Err(format!("{}: {}\n{}", fmt.name(), e, show_rows(&rows)));
    let mut want = k + 1;
    want += (k < listed.len()) as usize;
    want += (!data.is_empty()) as usize;
    if rows.len() != want {
        return fail(format!("{} rows, expected {}", rows.len(), want));
    }
    if let Err(e) = ranked(&rows[..k], &listed, s, 0) {
        return fail(e);
    }
    let shown: u32 = rows[..k].iter().map(|r| r.nums[0].unwrap() as u32).sum();
    let total: u32 = listed.iter().map(|p| p.1).sum();
    let mut sums = vec![];
    if k < listed.len() {
        sums.push((format!("... and {} more", listed.len() - k), total - shown));
    }
    sums.push((format!("Σ [{} Total Rows]", listed.len()), total));
    if !data.is_empty() {
        sums.push((format!("{} potential false-positive data segments", data.len()), data.iter().sum()));
    }
    for (r, (name, size)) in rows[k..].iter().zip(&sums) {
        if r.name != *name || r.nums[0] != Some(f64::from(*size)) {
            return fail(format!("summary {:?} {:?}, expected {:?} {}", r.name, r.nums[0], name, size));
        }
    }
    for r in &rows {
        if !pct_ok(fmt, r.nums[1], r.nums[0].unwrap(), f64::from(s.total)) {
            return fail(format!("percentage of {:?} is {:?}", r.name, r.nums[1]));
        }
    }
    Ok(())
}

fn run_garbage(s: &Spec, limit: u32, show: bool, how: usize, c: &Case) -> Result<(), String> {
    let f = s.reach_without(None);
    // how = 1: default options
    let (o, limit, show) = match how {
        0 => (crate::opts::garbage(limit, show), limit, show),
        _ => (twiggy_opt::Garbage::new(), 10, false),
    };
    c.state((s, limit, show));
    c.sample(|| format!("{} limit {} show {}", s.show(), limit, show));
    if f.iter().any(|r| !r) {
        c.nontrivial();
    }
    let items = s.build();
    for fmt in FMTS {
        let e = twiggy_analyze::garbage(&items, &o).map_err(|e| e.to_string())?;
        let t = emit_of(&*e, &items, fmt)?;
        c.trace();
        oracle_garbage(s, &f, limit, show, fmt, &t)
            .map_err(|e| format!("{}\n{}\nlimit {} show data {}", e, s.show(), limit, show))?;
    }
    Ok(())
}

pub fn c08(tier: Tier) -> Check {
    let graphs = fam(
        "graphs",
        "all digraphs with self loops on 0..3 items, all root sets, each item data or not, all limits 0..=4, data shown or not, three formats",
        move |ch, c| {
            let n = ch.pick(4);
            let limit = ch.pick(n + 2) as u32;
            let show = ch.flag();
            let data = ch.pick(1 << n);
            let mut s = any_graph(ch, n, tier.thorough(), false);
            binary_sizes(&mut s);
            s.total += 9;
            s.kinds = (0..n).map(|i| if data >> i & 1 == 1 { K::Data } else { K::Code }).collect();
            run_garbage(&s, limit, show, 0, c)
        },
    );
    let graphs4 = fam(
        "graphs-4",
        "all digraphs with self loops on 4 items, all root sets, limit 2, data hidden, mixed kinds",
        move |ch, c| {
            let mut s = any_graph(ch, 4, tier.thorough(), false);
            binary_sizes(&mut s);
            s.kinds = vec![K::Code, K::Data, K::Misc, K::Data];
            run_garbage(&s, 2, false, 0, c)
        },
    );
    let sizes = fam(
        "sizes",
        "0..5 unreachable items with all sizes 0..2, all kinds, all limits 0..=n+1 and the largest, data shown or not; also default options",
        move |ch, c| {
            let n = ch.pick(tier.pick(5, 6));
            let mut s = Spec::plain(n);
            s.sizes = (0..n).map(|_| ch.pick(3) as u32).collect();
            s.kinds = (0..n)
                .map(|i| *ch.of(if i < 2 { &[K::Code, K::Data, K::Misc, K::Debug][..] } else { &[K::Code, K::Data] }))
                .collect();
            s.total = s.sum() + 1 + ch.pick(2) as u32 * 1000;
            let limit = ch.pick(n + 3);
            let limit = if limit == n + 2 { u32::MAX } else { limit as u32 };
            let show = ch.flag();
            run_garbage(&s, limit, show, 0, c)
        },
    );
    let named = fam(
        "names",
        "all digraphs on 1..3 items, all root sets, names (also empty, blank and with arrows), symbols and kinds of every style (and all items code or data), limits 0, 1, n, data shown or not",
        move |ch, c| {
            let n = ch.range(1, 3);
            let style = ch.pick(STYLES.len());
            let from = ch.pick(5);
            let limit = *ch.of(&[0, 1, n as u32]);
            let show = ch.flag();
            let kind = ch.pick(3);
            let mut s = any_graph(ch, n, false, false);
            binary_sizes(&mut s);
            s.total += 9;
            s.dress(style, from);
            if kind > 0 {
                s.kinds = vec![[K::Code, K::Data][kind - 1]; n];
                s.symbols();
            }
            run_garbage(&s, limit, show, 0, c)
        },
    );
    let numbers = counts(40, tier.pick(1025, 4097));
    let many = fam("many", "0..40 unreachable items (and numbers around powers of 2 and 10 up to 1025, thorough 4097) next to 0..3 reachable ones, default options and limits around the count", move |ch, c| {
        let n = if ch.flag() { *ch.of(&numbers) } else { 0 };
        let r = ch.pick(4);
        let how = ch.pick(2);
        let tie = ch.flag();
        let mut s = Spec::plain(n + r);
        s.names = (0..n + r).map(|i| format!("item {}", i)).collect();
        s.sizes = (0..n + r).map(|i| if tie { 5 } else { (i as u32 * 37) % 41 * if n > 500 { 1000 } else { 100_000 } }).collect();
        s.kinds = (0..n + r).map(|i| if i % 5 == 4 { K::Data } else { K::Code }).collect();
        s.roots = if r > 0 { vec![n] } else { vec![] };
        for i in 1..r {
            s.adj[n + i - 1].push(n + i);
        }
        // unreachable items may refer to reachable ones and to each other
        for i in 0..n {
            s.adj[i].push((i + 1) % n);
            if r > 0 {
                s.adj[i].push(n + i % r);
            }
            s.adj[i].sort_unstable();
            s.adj[i].dedup();
        }
        s.total = s.sum() + 12345;
        let limit = if how == 0 { (n as i64 + ch.pick(5) as i64 - 3).max(0) as u32 } else { 10 };
        let show = how == 0 && ch.flag();
        run_garbage(&s, limit, show, how, c)
    });
    let huge = fam("huge", format!("{:?} items, of which all, all but one, or none are reachable, limits 10 and around the number of unreachable ones, data shown or not", HUGE), move |ch, c| {
        let n = *ch.of(&HUGE);
        let free = *ch.of(&[n, 1, 0]);
        let limit = *ch.of(&[10, free.saturating_sub(1), free]);
        let show = ch.flag();
        let mut s = Spec::plain(n);
        s.names = (0..n).map(|i| format!("item {}", i)).collect();
        s.sizes = (0..n).map(|i| (i as u32 * 37) % 41).collect();
        s.total = s.sum() + 1;
        s.kinds = (0..n).map(|i| if i % 5 == 4 { K::Data } else { K::Code }).collect();
        if free < n {
            s.roots = vec![0];
        }
        for i in 1..n - free.min(n - 1) {
            s.adj[i - 1].push(i);
        }
        run_garbage(&s, limit as u32, show, 0, c).map_err(|e| e.chars().take(300).collect())
    });
    let large = fam(
        "large-sizes",
        "all digraphs without self loops on 1..3 items, all root sets, sizes 0, 1 and around 2^31 and 2^32 that add up to less than 2^32, in a file of their sum or of 7 bytes, limits 0, 1, n, data shown or not",
        move |ch, c| {
            let n = ch.range(1, 3);
            let limit = *ch.of(&[0, 1, n as u32]);
            let show = ch.flag();
            let mut s = any_graph(ch, n, false, false);
            s.kinds = [K::Code, K::Data, K::Data][..n].to_vec();
            if !large_sizes(&mut s, ch) {
                return Ok(());
            }
            run_garbage(&s, limit, show, 0, c)
        },
    );
    let alike = super::alike::root_named(|_| vec![suite::garbage(10, false), suite::garbage(1, true), suite::garbage(0, false)]);
    Check {
        id: "C08",
        level: "model_checking",
        families: vec![graphs, sizes, large, named, many, huge, graphs4, alike],
        assumptions: vec!["item names differ", "the file is not empty"],
        hang_secs: 60,
    }
}

pub fn read_top(fmt: Fmt, text: &str, retained: bool) -> Result<Vec<Row>, String> {
    // columns: shallow, shallow %, retained, retained %
    match fmt {
        Fmt::Text => {
            let h = if retained { ["Retained Bytes", "Retained %", "Item"] } else { ["Shallow Bytes", "Shallow %", "Item"] };
            Ok(text_rows(text, &h, &[Col::N, Col::P])?
                .into_iter()
                .map(|r| {
                    let nums = if retained {
                        vec![None, None, r.nums[0], r.nums[1]]
                    } else {
                        vec![r.nums[0], r.nums[1], None, None]
                    };
                    Row { name: r.name, nums }
                })
                .collect())
        }
        Fmt::Json => {
            json_rows(text, "name", &["shallow_size", "shallow_size_percent", "retained_size", "retained_size_percent"])
        }
        Fmt::Csv => csv_rows(
            text,
            &["Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent"],
            0,
            &[1, 2, 3, 4],
        ),
    }
}

pub fn oracle_top(s: &Spec, f: &Facts, limit: u32, retained: bool, fmt: Fmt, text: &str) -> Result<(), String> {
    let rows = read_top(fmt, text, retained)?;
    let fail = |e: String| Err(format!("{}: {}\n{}", fmt.name(), e, show_rows(&rows)));
    let n = s.n();
    let k = n.min(limit as usize);
    let mut want = k;
    if fmt == Fmt::Text {
        want += 1 + (k < n) as usize;
    }
    if rows.len() != want {
        return fail(format!("{} rows, expected {}", rows.len(), want));
    }
    let key: Vec<(usize, u32)> = (0..n).map(|i| (i, if retained { f.retained[i] } else { s.sizes[i] })).collect();
    if let Err(e) = ranked(&rows[..k], &key, s, if retained { 2 } else { 0 }) {
        return fail(e);
    }
    let by = s.by_name();
    let total = f64::from(s.total);
    for r in &rows[..k] {
        let i = by[r.name.as_str()];
        if retained {
            if !pct_ok(fmt, r.nums[3], f64::from(f.retained[i]), total) {
                return fail(format!("retained percentage of {:?} is {:?}", r.name, r.nums[3]));
            }
        } else if r.nums[2].is_some() || r.nums[3].is_some() {
            return fail(format!("{:?} has a retained size that was not asked for", r.name));
        }
        if !(retained && fmt == Fmt::Text) {
            if r.nums[0] != Some(f64::from(s.sizes[i])) {
                return fail(format!("shallow size of {:?} is {:?}", r.name, r.nums[0]));
            }
            if !pct_ok(fmt, r.nums[1], f64::from(s.sizes[i]), total) {
                return fail(format!("shallow percentage of {:?} is {:?}", r.name, r.nums[1]));
            }
        }
    }
    if fmt == Fmt::Text {
        let all: u32 = s.sizes.iter().sum();
        let shown: u32 = rows[..k].iter().map(|r| s.sizes[by[r.name.as_str()]]).sum();
        let mut sums = vec![];
        if k < n {
            sums.push((format!("... and {} more.", n - k), all - shown));
        }
        sums.push((format!("Σ [{} Total Rows]", n), all));
        for (r, (name, size)) in rows[k..].iter().zip(sums) {
            if r.name != name {
                return fail(format!("summary {:?}, expected {:?}", r.name, name));
            }
            if retained {
                // retained sizes overlap: no sum is shown
                if r.nums.iter().any(|x| x.is_some()) {
                    return fail(format!("summary {:?} shows a sum of retained sizes", r.name));
                }
            } else if r.nums[0] != Some(f64::from(size)) || !pct_ok(fmt, r.nums[1], f64::from(size), total) {
                return fail(format!("summary {:?} is {:?}, expected {}", r.name, r.nums, size));
            }
        }
    }
    Ok(())
}

fn run_top(s: &Spec, limit: Option<u32>, retained: bool, c: &Case) -> Result<(), String> {
    run_top_with(s, &s.facts(), limit, retained, c)
}

fn run_top_with(s: &Spec, f: &Facts, limit: Option<u32>, retained: bool, c: &Case) -> Result<(), String> {
    let mut o = twiggy_opt::Top::new();
    if let Some(l) = limit {
        o.set_max_items(l);
    }
    o.set_retained(retained);
    c.state((s, limit, retained));
    c.sample(|| format!("{} limit {:?} retained {}", s.show(), limit, retained));
    if s.n() > 1 {
        c.nontrivial();
    }
    let mut items = s.build();
    for fmt in FMTS {
        let t = emit(|i| twiggy_analyze::top(i, &o), &mut items, fmt)?;
        c.trace();
        oracle_top(s, f, limit.unwrap_or(u32::MAX), retained, fmt, &t)
            .map_err(|e| format!("{}\n{}\nlimit {:?} retained {}", e, s.show(), limit, retained))?;
    }
    Ok(())
}

pub fn c10(tier: Tier) -> Check {
    let sizes = fam(
        "sizes",
        "0..5 (thorough 6) items with all sizes 0..3, all limits 0..=n+1 and none, shallow sizes, file size equal to or above the sum, three formats",
        move |ch, c| {
            let n = ch.pick(tier.pick(6, 7));
            let mut s = Spec::plain(n);
            s.sizes = (0..n).map(|_| ch.pick(4) as u32).collect();
            s.total = s.sum().max(1) + *ch.of(&[0u32, 77]);
            let l = ch.pick(n + 3);
            let retained = n <= 3 && ch.flag();
            run_top(&s, if l == n + 2 { None } else { Some(l as u32) }, retained, c)
        },
    );
    let graphs = fam(
        "retained",
        "all digraphs with self loops on 0..3 items, all root sets, sizes 0..2 on each, limits 0..=n+1, sorted by retained size",
        move |ch, c| {
            let n = ch.pick(4);
            let mut s = any_graph(ch, n, tier.thorough(), false);
            s.sizes = (0..n).map(|_| ch.pick(3) as u32).collect();
            s.total = s.sum() + 5;
            let l = ch.pick(n + 2);
            run_top(&s, Some(l as u32), true, c)
        },
    );
    let named = fam(
        "names",
        "all digraphs on 1..3 items, one root set per graph, names (also empty, blank and with arrows), symbols and kinds of every style, sizes rising or falling, limits 0, 1, n, shallow and retained",
        move |ch, c| {
            let n = ch.range(1, 3);
            let style = ch.pick(STYLES.len());
            let from = ch.pick(5);
            let limit = *ch.of(&[0, 1, n as u32]);
            let retained = ch.flag();
            let falling = ch.flag();
            let mut s = any_graph(ch, n, false, true);
            s.sizes = (0..n).map(|i| if falling { n - i } else { i + 1 } as u32).collect();
            s.total = s.sum() + 9;
            s.dress(style, from);
            run_top(&s, Some(limit), retained, c)
        },
    );
    let large = fam(
        "large-sizes",
        "all digraphs without self loops on 1..3 items, all root sets, sizes 0, 1 and around 2^31 and 2^32 that add up to less than 2^32, in a file of their sum or of 7 bytes, limits 0, 1, n, by shallow and by retained size",
        move |ch, c| {
            let n = ch.range(1, 3);
            let limit = *ch.of(&[0, 1, n as u32]);
            let retained = ch.flag();
            let mut s = any_graph(ch, n, false, false);
            if !large_sizes(&mut s, ch) {
                return Ok(());
            }
            run_top(&s, Some(limit), retained, c)
        },
    );
    let numbers = counts(60, tier.pick(1025, 4097));
    let many = fam(
        "many",
        "1..60 items (and numbers around powers of 2 and 10 up to 1025, thorough 4097) in rising, falling, mixed or equal sizes, large sizes, all limits, linked in a chain from one root",
        move |ch, c| {
            let n = *ch.of(&numbers);
            let order = ch.pick(4);
            let scale = *ch.of(&[1u32, if n > 60 { 1000 } else { 1_000_000 }]);
            let retained = scale == 1 && ch.flag();
            let l = *ch.of(&[0, 1, n / 2, n - 1, n, n + 1, u32::MAX as usize]);
            let mut s = Spec::plain(n);
            s.names = (0..n).map(|i| format!("item {}", i)).collect();
            s.sizes = (0..n)
                .map(|i| match order {
                    0 => i as u32,
                    1 => (n - i) as u32,
                    2 => (i as u32 * 31) % 17,
                    _ => 9,
                })
                .map(|v| v * scale)
                .collect();
            s.total = s.sum().max(1);
            s.roots = vec![0];
            for i in 1..n {
                s.adj[i - 1].push(i);
            }
            run_top(&s, Some(l as u32), retained, c)
        },
    );
    let huge = fam("huge", format!("{:?} items linked in a chain from one root, sizes 0..41, limits 10, the number less one and the number, by shallow and by retained size", HUGE), move |ch, c| {
        let n = *ch.of(&HUGE);
        let l = *ch.of(&[10, n - 1, n]);
        let retained = ch.flag();
        let mut s = Spec::plain(n);
        s.names = (0..n).map(|i| format!("item {}", i)).collect();
        s.sizes = (0..n).map(|i| (i as u32 * 37) % 41).collect();
        s.total = s.sum() + 1;
        s.roots = vec![0];
        for i in 1..n {
            s.adj[i - 1].push(i);
        }
        let mut f = Facts { reach: vec![true; n], idom: vec![], retained: s.sizes.clone(), pred: vec![], root_retained: s.sum() };
        for i in (1..n).rev() {
            f.retained[i - 1] += f.retained[i];
        }
        run_top_with(&s, &f, Some(l as u32), retained, c).map_err(|e| e.chars().take(300).collect())
    });
    let alike = super::alike::root_named(|_| vec![suite::top(9, false), suite::top(1, false), suite::top(9, true), suite::top(1, true)]);
    Check {
        id: "C10",
        level: "model_checking",
        families: vec![sizes, large, graphs, named, many, huge, alike],
        assumptions: vec!["item names differ", "the file is not empty", "the item sizes add up to less than 4 GiB"],
        hang_secs: 60,
    }
}
