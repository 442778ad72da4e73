//! C06, C07: dominators and retained sizes.
use crate::engine::*;
use crate::model::*;
use crate::report::*;
use crate::{rdr, Check, Tier};
use std::collections::BTreeMap;
use twiggy_ir::{Id, Items};

fn check_doms(s: &Spec, items: &mut Items, id: &dyn Fn(usize) -> Id) -> Result<(), String> {
    let f = s.facts();
    items.compute_dominators();
    items.compute_dominator_tree();
    let idoms = items.immediate_dominators();
    let tree = items.dominator_tree();
    let root = items.meta_root();
    let nm = |i: Option<usize>| i.map_or("<root>".to_string(), |i| s.names[i].clone());
    let mut back: BTreeMap<Id, Option<usize>> = (0..s.n()).map(|i| (id(i), Some(i))).collect();
    back.insert(root, None);
    // immediate dominators
    for i in 0..s.n() {
        let got = idoms.get(&id(i));
        match (f.reach[i], got) {
            (false, None) => {}
            (false, Some(_)) => return Err(format!("unreachable {:?} has an immediate dominator", s.names[i])),
            (true, None) => return Err(format!("{:?} has no immediate dominator", s.names[i])),
            (true, Some(d)) => {
                let d = *back.get(d).ok_or("an immediate dominator is not an item")?;
                if d != f.idom[i] {
                    return Err(format!(
                        "immediate dominator of {:?} is {:?}, expected {:?}",
                        s.names[i],
                        nm(d),
                        nm(f.idom[i])
                    ));
                }
            }
        }
    }
    // tree
    let mut seen = vec![false; s.n()];
    for (p, cs) in tree {
        let p = *back.get(p).ok_or("the tree contains a node that is not an item")?;
        for c in cs {
            let c = match back.get(c) {
                Some(Some(c)) => *c,
                _ => return Err("the tree has the root or a stranger as a child".into()),
            };
            if seen[c] {
                return Err(format!("{:?} occurs twice in the tree", s.names[c]));
            }
            seen[c] = true;
            if !f.reach[c] {
                return Err(format!("unreachable {:?} occurs in the tree", s.names[c]));
            }
            if f.idom[c] != p {
                return Err(format!("{:?} is below {:?}, expected {:?}", s.names[c], nm(p), nm(f.idom[c])));
            }
        }
    }
    for i in 0..s.n() {
        if f.reach[i] && !seen[i] {
            return Err(format!("{:?} is missing from the tree", s.names[i]));
        }
    }
    Ok(())
}

/// The same relation as printed by `dominators`.
fn check_dom_reports(s: &Spec, items: &mut Items) -> Result<(), String> {
    let f = s.facts();
    let by = s.by_name();
    let opts = twiggy_opt::Dominators::new();
    let csv = emit(|i| twiggy_analyze::dominators(i, &opts), items, Fmt::Csv)?;
    let rows = rdr::parse_csv(&csv)?;
    let mut ids: BTreeMap<String, Option<usize>> = BTreeMap::new();
    let mut doms = vec![];
    for (k, r) in rows.iter().skip(1).enumerate() {
        if r[0].is_empty() {
            continue; // summary
        }
        let who = if k == 0 {
            None
        } else {
            Some(*by.get(r[1].as_str()).ok_or_else(|| format!("CSV: unknown item {:?}", r[1]))?)
        };
        if ids.insert(r[0].clone(), who).is_some() {
            return Err(format!("CSV: id {} occurs twice", r[0]));
        }
        doms.push((who, r[6].clone()));
    }
    let mut listed = vec![false; s.n()];
    for (who, d) in doms {
        let d = *ids.get(&d).ok_or_else(|| format!("CSV: dominator id {} is not listed", d))?;
        let who = match who {
            Some(w) => w,
            None => continue,
        };
        if listed[who] {
            return Err(format!("CSV: {:?} listed twice", s.names[who]));
        }
        listed[who] = true;
        if d != f.idom[who] {
            return Err(format!("CSV: wrong immediate dominator of {:?}", s.names[who]));
        }
    }
    if listed != f.reach {
        return Err(format!("CSV lists {:?}, reachable are {:?}", listed, f.reach));
    }
    let json = emit(|i| twiggy_analyze::dominators(i, &opts), items, Fmt::Json)?;
    let j = rdr::parse_json(&json)?;
    fn walk(j: &rdr::Json, parent: Option<usize>, top: bool, by: &BTreeMap<&str, usize>, out: &mut Vec<(usize, Option<usize>)>) -> Result<(), String> {
        let n = j.get("name").and_then(|n| n.as_str()).ok_or("JSON: no name")?;
        let me = if top { None } else { Some(*by.get(n).ok_or_else(|| format!("JSON: unknown item {:?}", n))?) };
        if let Some(m) = me {
            out.push((m, parent));
        }
        for c in j.get("children").and_then(|c| c.arr()).unwrap_or(&[]) {
            walk(c, me, false, by, out)?;
        }
        Ok(())
    }
    let top = j.get("items").and_then(|i| i.arr()).ok_or("JSON: no items")?;
    if top.len() != 1 {
        return Err("JSON: more than one tree".into());
    }
    let mut out = vec![];
    walk(&top[0], None, true, &by, &mut out)?;
    let mut listed = vec![false; s.n()];
    for (w, p) in out {
        if listed[w] || f.idom[w] != p {
            return Err(format!("JSON: {:?} is in the wrong place", s.names[w]));
        }
        listed[w] = true;
    }
    if listed != f.reach {
        return Err(format!("JSON lists {:?}, reachable are {:?}", listed, f.reach));
    }
    Ok(())
}

fn check_retained(s: &Spec, items: &mut Items, order: usize, id: &dyn Fn(usize) -> Id) -> Result<(), String> {
    let f = s.facts();
    match order {
        0 => {}
        1 => items.compute_dominator_tree(),
        2 => items.compute_dominators(),
        3 => {
            items.compute_predecessors();
            items.compute_dominators();
            items.compute_dominator_tree();
        }
        _ => {
            items.compute_retained_sizes();
            items.compute_dominators();
        }
    }
    items.compute_retained_sizes();
    for i in 0..s.n() {
        let got = items.retained_size(id(i));
        if got != f.retained[i] {
            return Err(format!("{:?} retains {}, expected {}", s.names[i], got, f.retained[i]));
        }
    }
    let got = items.retained_size(items.meta_root());
    if got != f.root_retained {
        return Err(format!("the root retains {}, expected {}", got, f.root_retained));
    }
    Ok(())
}

/// The retained sizes as printed.
fn check_retained_reports(s: &Spec, items: &mut Items) -> Result<(), String> {
    let f = s.facts();
    let by = s.by_name();
    let mut top = twiggy_opt::Top::new();
    top.set_retained(true);
    let t = emit(|i| twiggy_analyze::top(i, &top), items, Fmt::Json)?;
    let rows = json_rows(&t, "name", &["retained_size"])?;
    let d = emit(|i| twiggy_analyze::dominators(i, &twiggy_opt::Dominators::new()), items, Fmt::Csv)?;
    let h = ["Id", "Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent", "ImmediateDominator"];
    let rows2 = csv_rows(&d, &h, 1, &[4, 0])?;
    let rows2: Vec<Row> = rows2.into_iter().filter(|r| r.nums[1].is_some()).collect();
    for (what, rows) in [("top", &rows), ("dominators", &rows2)] {
        for (k, r) in rows.iter().enumerate() {
            let want = if what == "dominators" && k == 0 {
                f.root_retained
            } else {
                let i = *by.get(r.name.as_str()).ok_or_else(|| format!("{}: unknown item {:?}", what, r.name))?;
                if what == "dominators" && !f.reach[i] {
                    return Err(format!("dominators lists unreachable {:?}", r.name));
                }
                f.retained[i]
            };
            if r.nums[0] != Some(f64::from(want)) {
                return Err(format!("{}: {:?} retains {:?}, expected {}", what, r.name, r.nums[0], want));
            }
        }
    }
    let nreach = f.reach.iter().filter(|r| **r).count();
    if rows.len() != s.n() || rows2.len() != nreach + 1 {
        return Err(format!("top lists {} items of {}, dominators {} of {}", rows.len(), s.n(), rows2.len(), nreach + 1));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Dom,
    Ret,
}

fn judge(s: &Spec, w: What, order: usize, reports: bool, c: &Case) -> Result<(), String> {
    c.state(s);
    c.sample(|| s.show());
    if s.adj.iter().any(|a| !a.is_empty()) && !s.roots.is_empty() {
        c.nontrivial();
    }
    let ctx = |e: String| format!("{}\n{}", e, s.show());
    let mut items = s.build();
    c.trace();
    match w {
        What::Dom => {
            check_doms(s, &mut items, &Spec::id).map_err(ctx)?;
            if reports {
                c.traces(2);
                check_dom_reports(s, &mut items).map_err(ctx)?;
                let mut fresh = s.build();
                check_dom_reports(s, &mut fresh).map_err(ctx)?;
            }
        }
        What::Ret => {
            check_retained(s, &mut items, order, &Spec::id).map_err(ctx)?;
            if reports {
                c.traces(2);
                check_retained_reports(s, &mut s.build()).map_err(ctx)?;
            }
        }
    }
    Ok(())
}

fn families(w: What, tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(fam(
        "graphs-3",
        "all digraphs with self loops on 0..3 items, all root sets; also through the printed reports; retained sizes after each order of computing memoised facts, sizes that identify every subset, or zero",
        move |ch, c| {
            let n = ch.pick(4);
            let order = if w == What::Ret { ch.pick(5) } else { 0 };
            let sizes = ch.pick(3);
            let mut s = any_graph(ch, n, true, false);
            match sizes {
                0 => binary_sizes(&mut s),
                1 => {
                    s.sizes = (0..n).map(|i| if i % 2 == 0 { 0 } else { 5 }).collect();
                    s.total = 100;
                }
                _ => {
                    s.sizes = vec![3; n];
                    s.total = 3 * n as u32 + 8;
                }
            }
            judge(&s, w, order, true, c)
        },
    ));
    v.push(fam("graphs-4", "all digraphs with self loops on 4 items, all root sets", move |ch, c| {
        let mut s = any_graph(ch, 4, true, false);
        binary_sizes(&mut s);
        judge(&s, w, 0, tier.thorough(), c)
    }));
    v.push(fam("graphs-5", "all digraphs without self loops on 5 items, first item the only root", move |ch, c| {
        let mut s = any_graph(ch, 5, false, true);
        binary_sizes(&mut s);
        judge(&s, w, 0, false, c)
    }));
    if tier.thorough() {
        v.push(fam("graphs-5-roots", "all digraphs without self loops on 5 items, all root sets", move |ch, c| {
            let mut s = any_graph(ch, 5, false, false);
            binary_sizes(&mut s);
            judge(&s, w, 0, false, c)
        }));
    }
    v.push(fam(
        "near-dags",
        "6 items (thorough: 7): all acyclic graphs in topological numbering, renumbered in reverse or not, plus up to one (6 items, thorough: two) back edges",
        move |ch, c| {
            let n = if tier.thorough() { ch.range(6, 7) } else { 6 };
            let mut s = Spec::plain(n);
            for i in 0..n - 1 {
                let m = ch.pick(1 << (n - 1 - i));
                s.adj[i] = (i + 1..n).filter(|j| m >> (j - i - 1) & 1 == 1).collect();
            }
            let backs: Vec<(usize, usize)> = (1..n).flat_map(|i| (1..=i).map(move |j| (i, j))).collect();
            let nb = if n == 7 { 0 } else { tier.pick(1, 2) };
            let mut lo = 0;
            for _ in 0..nb {
                let b = ch.pick(backs.len() + 1 - lo);
                if b == 0 {
                    break;
                }
                let (i, j) = backs[lo + b - 1];
                if !s.adj[i].contains(&j) {
                    s.adj[i].push(j);
                }
                lo += b;
            }
            s.roots = vec![0];
            if ch.flag() {
                let rev = |i: usize| n - 1 - i;
                let mut t = Spec::plain(n);
                for i in 0..n {
                    t.adj[rev(i)] = s.adj[i].iter().map(|j| rev(*j)).collect();
                }
                t.roots = vec![rev(0)];
                s = t;
            }
            binary_sizes(&mut s);
            judge(&s, w, 0, false, c)
        },
    ));
    if w == What::Ret {
        v.push(fam(
            "large-sizes",
            "all digraphs without self loops on 1..3 items, all root sets, sizes 0, 1 and around 2^31 and 2^32 that add up to less than 2^32, in a file of their sum or of 7 bytes",
            move |ch, c| {
                let n = ch.range(1, 3);
                let mut s = any_graph(ch, n, false, false);
                if !large_sizes(&mut s, ch) {
                    return Ok(());
                }
                judge(&s, w, 0, true, c)
            },
        ));
    }
    let counts = counts(tier.pick(60, 220), tier.pick(1025, 4097));
    v.push(fam(
        "shapes",
        "chains, cycles, ladders, irreducible loops, fans, diamonds, trees, two-root bridges of every size up to 60 and of sizes around powers of 2 and 10 up to 1025 (thorough: 220, 4097), numbered forwards, backwards or interleaved; identifiers in one or several sections",
        move |ch, c| {
            let shape = ch.pick(9);
            let numbering = ch.pick(3);
            let ids = ch.pick(2);
            let n = *ch.of(&counts);
            let mut s = Spec::plain(n);
            s.names = (0..n).map(|i| format!("n{}", i)).collect();
            let mut e: Vec<(usize, usize)> = vec![];
            let mut roots = vec![0];
            match shape {
                0 => e.extend((1..n).map(|i| (i - 1, i))),
                1 => e.extend((0..n).map(|i| (i, (i + 1) % n))),
                2 => e.extend((0..n).flat_map(|i| vec![(i, i + 1), (i, i + 2)]).filter(|x| x.1 < n)),
                3 => {
                    // two entries into one loop
                    e.extend((1..n).map(|i| (i, if i + 1 < n { i + 1 } else { 1.min(n - 1) })));
                    if n > 1 {
                        e.push((0, 1));
                        e.push((0, (n + 1) / 2));
                    }
                }
                4 => e.extend((1..n).map(|i| (0, i))),
                5 => {
                    // diamonds in a row
                    let mut i = 0;
                    while i + 3 < n {
                        e.extend([(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]);
                        i += 3;
                    }
                }
                6 => e.extend((1..n).map(|i| ((i - 1) / 2, i))),
                7 => {
                    // tree with back edges to the parent and a cross edge from the last to each second
                    e.extend((1..n).flat_map(|i| vec![((i - 1) / 2, i), (i, (i - 1) / 2)]));
                    e.extend((0..n).step_by(5).map(|i| (n - 1, i)));
                }
                _ => {
                    // two roots, chains that meet, an unreachable tail pointing back
                    roots = vec![0, n / 3];
                    e.extend((1..n).filter(|i| *i != n / 3 && *i != 2 * n / 3).map(|i| (i - 1, i)));
                    e.push((n / 4, n / 2));
                }
            }
            let map = |i: usize| match numbering {
                0 => i,
                1 => n - 1 - i,
                _ => {
                    // odd numbers first
                    let half = n / 2;
                    if i % 2 == 1 {
                        i / 2
                    } else {
                        half + i / 2
                    }
                }
            };
            for (a, b) in e {
                let (a, b) = (map(a), map(b));
                if !s.adj[a].contains(&b) {
                    s.adj[a].push(b);
                }
            }
            roots.sort_unstable();
            roots.dedup();
            s.roots = roots.into_iter().map(map).collect();
            s.sizes = (0..n).map(|i| (i as u32 * 7919) % 1009 + 1).collect();
            s.total = s.sum();
            c.state((&s, ids));
            c.sample(|| format!("shape {} n {} numbering {}", shape, n, numbering));
            c.nontrivial();
            c.trace();
            let id = |i: usize| match ids {
                0 => Id::entry(0, i),
                _ => {
                    if i % 7 == 0 {
                        Id::section(i / 7 + 3)
                    } else {
                        Id::entry(3 + (i * 5) % 4, i)
                    }
                }
            };
            let mut items = s.build_ids(&id);
            let ctx = |e: String| format!("{}\nshape {} n {} numbering {} ids {}", e, shape, n, numbering, ids);
            match w {
                What::Dom => check_doms(&s, &mut items, &id),
                What::Ret => check_retained(&s, &mut items, 0, &id),
            }
            .map_err(ctx)
        },
    ));
    v.push(fam(
        "huge",
        format!("{:?} items in a chain, a ring, a fan, a ladder, a binary tree, or all of them roots, numbered forwards or backwards; identifiers in one or several sections", HUGE),
        move |ch, c| {
            let n = *ch.of(&HUGE);
            let shape = ch.pick(6);
            let back = ch.flag();
            let ids = ch.pick(2);
            c.state((n, shape, back, ids));
            c.sample(|| format!("shape {} n {}", shape, n));
            c.nontrivial();
            let (s, f) = huge(n, shape, back);
            let id = |i: usize| if ids == 1 && i % 7 == 0 { Id::section(i / 7 + 3) } else { Id::entry(i % (1 + 2 * ids), i) };
            let mut items = s.build_ids(&id);
            c.trace();
            let at = |e: String| format!("{}\nshape {} n {} backwards {} ids {}", e, shape, n, back, ids);
            if w == What::Dom {
                items.compute_dominators();
                items.compute_dominator_tree();
                let got = items.immediate_dominators();
                for i in 0..n {
                    let want = f.idom[i].map_or(items.meta_root(), &id);
                    if got.get(&id(i)) != Some(&want) {
                        return Err(at(format!("the immediate dominator of {:?} is {:?}, expected {:?}", id(i), got.get(&id(i)), want)));
                    }
                }
                let mut want: BTreeMap<Id, Vec<Id>> = BTreeMap::new();
                for i in 0..n {
                    want.entry(f.idom[i].map_or(items.meta_root(), &id)).or_default().push(id(i));
                }
                for v in want.values_mut() {
                    v.sort();
                }
                for (p, cs) in &want {
                    let mut got = items.dominator_tree().get(p).cloned().unwrap_or_default();
                    got.sort();
                    if got != *cs {
                        return Err(at(format!("{} children of {:?} in the tree, expected {}", got.len(), p, cs.len())));
                    }
                }
                let most = items.dominator_tree().values().map(|v| v.len()).sum::<usize>();
                if most != n {
                    return Err(at(format!("{} items in the tree", most)));
                }
            } else {
                items.compute_retained_sizes();
                for i in 0..n {
                    let got = items.retained_size(id(i));
                    if got != f.retained[i] {
                        return Err(at(format!("{:?} retains {}, expected {}", id(i), got, f.retained[i])));
                    }
                }
                if items.retained_size(items.meta_root()) != s.total {
                    return Err(at(format!("all retain {}, expected {}", items.retained_size(items.meta_root()), s.total)));
                }
            }
            Ok(())
        },
    ));
    v
}

pub fn c06(tier: Tier) -> Check {
    Check {
        id: "C06",
        level: "model_checking",
        families: families(What::Dom, tier),
        assumptions: vec!["graphs are built through ItemsBuilder, as the parsers do"],
        hang_secs: 60,
    }
}

pub fn c07(tier: Tier) -> Check {
    Check {
        id: "C07",
        level: "model_checking",
        families: families(What::Ret, tier),
        assumptions: vec!["graphs are built through ItemsBuilder, as the parsers do", "the item sizes add up to less than 4 GiB"],
        hang_secs: 60,
    }
}
