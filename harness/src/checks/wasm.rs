//! C01-C04: from module bytes to items, sizes, names, edges and roots.
use crate::engine::*;
use crate::util::hex;
use crate::wasmgen::*;
use crate::{Check, Tier};

#[derive(Clone, Copy, PartialEq)]
pub enum Oracle {
    Sum,
    Inventory,
    Edges,
}

pub fn judge(m: &Module, o: Oracle, c: &Case) -> Result<(), String> {
    c.state(m);
    let bytes = m.bytes();
    c.sample(|| format!("{:?} = {}", m, hex(&bytes)));
    let ctx = |e: String| format!("{}\nmodule: {:?}\nbytes: {}", e, m, hex(&bytes));
    let items = twiggy_parser::parse(&bytes).map_err(|e| ctx(format!("a valid module is rejected: {}", e)))?;
    c.trace();
    match o {
        Oracle::Sum => {
            let sum: u64 = items.iter().map(|i| u64::from(i.size())).sum();
            if sum != bytes.len() as u64 {
                return Err(ctx(format!("item sizes add up to {}, the file has {} bytes", sum, bytes.len())));
            }
            if u64::from(items.size()) != bytes.len() as u64 {
                return Err(ctx(format!("file size reported as {}, is {}", items.size(), bytes.len())));
            }
        }
        _ => {
            let x = expect(m);
            compare(&items, &x, o == Oracle::Inventory, o == Oracle::Edges).map_err(ctx)?;
        }
    }
    Ok(())
}

/// As `judge` for edges, telling the recorded defect of `get_data` apart from everything else.
fn judge_loads(m: &Module, c: &Case) -> Result<(), String> {
    judge(m, Oracle::Edges, c).map_err(|e| match twiggy_parser::parse(&m.bytes()) {
        Ok(items) if compare(&items, &expect_with(m, true), false, true).is_ok() => {
            format!("signature=get-data-looks-forward\n{}", e)
        }
        _ => e,
    })
}

pub fn func_t0() -> FuncType {
    FuncType(vec![], vec![])
}

pub fn imp(k: ImportKind, i: usize) -> Import {
    Import { module: "m".into(), field: format!("f{}", i), kind: k }
}

/// `fixed`: the sections that every module has, in standard order.
pub fn order(m: &mut Module) {
    let rank = |s: &Sect| match s.id() {
        12 => 95,
        10 => 100,
        11 => 110,
        0 => 200,
        i => i as usize * 10,
    };
    m.sects.sort_by_key(rank);
}

fn sections_family(o: Oracle, _tier: Tier) -> Family {
    fam(
        "sections",
        "every subset of the section kinds (function and code sections together) with 0, 1 or 2 entries each, minimal or padded length fields",
        move |ch, c| {
            let mut m = Module::default();
            let types = ch.pick(4); // absent, 0, 1, 2
            let nt = types.saturating_sub(1);
            if types > 0 {
                m.sects.push(Sect::Types((0..nt).map(|i| FuncType(vec![I32; i], vec![])).collect()));
            }
            let imports = ch.pick(4);
            let ni = imports.saturating_sub(1);
            let (mut f, mut g, mut mem, mut tab) = (0u32, 0u32, 0u32, 0u32);
            if imports > 0 {
                let mut v = vec![];
                for i in 0..ni {
                    if i == 0 && nt > 0 {
                        v.push(imp(ImportKind::Func(0), i));
                        f += 1;
                    } else {
                        v.push(imp(ImportKind::Global(I32), i));
                        g += 1;
                    }
                }
                m.sects.push(Sect::Imports(v));
            }
            let nf = if nt > 0 { ch.pick(3) } else { 0 };
            f += nf as u32;
            // a module without functions has the two sections empty, or not at all
            let no_code = nf == 0 && ch.flag();
            if !no_code {
                m.sects.push(Sect::Funcs((0..nf).map(|i| (i % nt.max(1)) as u32).collect()));
            }
            let t = ch.pick(3);
            if t > 0 {
                m.sects.push(Sect::Tables((0..t - 1).map(|i| (FUNCREF, i as u32, None)).collect()));
                tab += t as u32 - 1;
            }
            let t = ch.pick(3);
            if t > 0 {
                m.sects.push(Sect::Mems((0..t - 1).map(|_| (1, Some(2))).collect()));
                mem += t as u32 - 1;
            }
            let t = ch.pick(4);
            if t > 0 {
                m.sects.push(Sect::Globals((0..t - 1).map(|i| (I32, i == 1, Expr::I32(7))).collect()));
                g += t as u32 - 1;
            }
            let target = if f > 0 {
                Some((Space::Func, f))
            } else if g > 0 {
                Some((Space::Global, g))
            } else if mem > 0 {
                Some((Space::Memory, mem))
            } else if tab > 0 {
                Some((Space::Table, tab))
            } else {
                None
            };
            let t = ch.pick(if target.is_some() { 4 } else { 2 });
            if t > 0 {
                m.sects.push(Sect::Exports(
                    (0..t - 1)
                        .map(|i| Export {
                            name: format!("e{}", i),
                            space: target.unwrap().0,
                            index: i as u32 % target.unwrap().1,
                        })
                        .collect(),
                ));
            }
            if f > 0 && ch.flag() {
                m.sects.push(Sect::Start(f - 1));
            }
            let t = ch.pick(4);
            if t > 0 {
                m.sects.push(Sect::Elems(
                    (0..t - 1)
                        .map(|i| Elem {
                            flag: if tab > 0 { 0 } else { 1 },
                            table: 0,
                            funcs: if f > 0 { vec![Some(i as u32 % f)] } else { vec![] },
                        })
                        .collect(),
                ));
            }
            let dc = ch.flag();
            if !no_code {
                m.sects.push(Sect::Code(
                    (0..nf)
                        .map(|i| Body { locals: vec![], ops: if i == 0 { vec![] } else { vec![Op::Call(0)] } })
                        .collect(),
                ));
            }
            let t = ch.pick(4);
            if t > 0 {
                m.sects.push(Sect::Datas(
                    (0..t - 1)
                        .map(|i| Data {
                            flag: if mem > 0 { 0 } else { 1 },
                            off: Expr::I32(i as i32 * 8),
                            bytes: vec![0xaa; i * 3],
                        })
                        .collect(),
                ));
            }
            if dc {
                m.sects.push(Sect::DataCount(t.saturating_sub(1) as u32));
            }
            order(&mut m);
            if ch.flag() {
                m.pad = 5;
                m.pad_counts = 2;
            }
            c.nontrivial();
            judge(&m, o, c)
        },
    )
}

/// A small module with one of everything relevant.
pub fn base(nimports: &[ImportKind], nf: usize) -> Module {
    let mut m = Module::default();
    m.sects.push(Sect::Types(vec![func_t0()]));
    if !nimports.is_empty() {
        m.sects.push(Sect::Imports(nimports.iter().enumerate().map(|(i, k)| imp(k.clone(), i)).collect()));
    }
    m.sects.push(Sect::Funcs(vec![0; nf]));
    m.sects.push(Sect::Code(vec![Body::default(); nf]));
    m
}

fn name_subs(ch: &mut Chooser, max: usize, nf: u32, nd: u32) -> Vec<NameSub> {
    let n = ch.pick(max + 1);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match ch.pick(14) {
            0 => NameSub::Module("mod".into()),
            1 => NameSub::Funcs((0..nf).map(|i| (i, format!("fn{}", i))).collect()),
            2 => NameSub::Funcs(vec![]),
            3 => NameSub::Locals(vec![(0, vec![(0, "l".into())])]),
            4 => NameSub::Data((0..nd).map(|i| (i, format!("seg{}", i))).collect()),
            5 => NameSub::Other(3, vec![0]),
            6 => NameSub::Other(7, vec![1, 0, 1, b'g']),
            7 => NameSub::Other(10, vec![]),
            8 => NameSub::Other(11, vec![1, 2, 3]),
            k => NameSub::Other([4, 5, 6, 7, 8][k - 9], vec![1, 0, 2, b'x', b'y']),
        });
    }
    v
}

fn custom_family(o: Oracle, tier: Tier) -> Family {
    fam(
        "custom-sections",
        "up to two custom or name sections (all subsection lists up to the bound) at every position of a module",
        move |ch, c| {
            let nd = ch.pick(2) as u32;
            let mut m = base(&[], 1);
            if nd > 0 {
                m.sects.insert(2, Sect::Mems(vec![(1, None)]));
                m.sects.push(Sect::Datas(vec![Data { flag: 0, off: Expr::I32(0), bytes: vec![1, 2] }]));
            }
            let n = ch.pick(3);
            for k in 0..n {
                let pos = ch.pick(m.sects.len() + 1);
                let s = match ch.pick(5) {
                    0 => Sect::Custom(format!("c{}", k), vec![]),
                    1 => Sect::Custom(String::new(), vec![9]),
                    2 => Sect::Custom("linking".into(), vec![7; 130]),
                    3 => Sect::Custom("producers".into(), vec![1, 2, 3]),
                    _ => Sect::Name(name_subs(ch, if n == 1 { tier.pick(3, 4) } else { tier.pick(1, 2) }, 1, nd)),
                };
                m.sects.insert(pos, s);
            }
            m.pad = *ch.of(&[0, 5]);
            if n > 0 {
                c.nontrivial();
            }
            judge(&m, o, c)
        },
    )
}

fn unreadable_names(o: Oracle) -> Family {
    fam(
        "unreadable-subsections",
        "name sections with subsections of every id 0..=16 and every payload up to 2 bytes over an alphabet, between readable ones",
        move |ch, c| {
            let mut m = base(&[], 1);
            let mut subs = vec![];
            if ch.flag() {
                subs.push(NameSub::Module("m".into()));
            }
            let id = ch.pick(17) as u8;
            let alphabet = [0u8, 1, 2, 0x41, 0x80, 0xff];
            let n = ch.pick(4);
            let p: Vec<u8> = (0..n).map(|_| *ch.of(&alphabet)).collect();
            subs.push(NameSub::Other(id, p));
            if ch.flag() {
                subs.push(NameSub::Locals(vec![]));
            }
            m.sects.push(Sect::Name(subs));
            c.nontrivial();
            let bytes = m.bytes();
            c.state(&m);
            c.sample(|| hex(&bytes));
            // A name section that cannot be read must not change the accounting; it may be rejected.
            match twiggy_parser::parse(&bytes) {
                Err(_) => Ok(()),
                Ok(items) => {
                    c.trace();
                    let sum: u64 = items.iter().map(|i| u64::from(i.size())).sum();
                    if o == Oracle::Sum && sum != bytes.len() as u64 {
                        return Err(format!("item sizes add up to {}, file {}: {}", sum, bytes.len(), hex(&bytes)));
                    }
                    Ok(())
                }
            }
        },
    )
}

fn boundary_family(o: Oracle) -> Family {
    fam(
        "length-boundaries",
        "each section kind grown so that its length or entry count crosses every LEB width boundary (127/128, 16383/16384, 2097151/2097152)",
        move |ch, c| {
            let kind = ch.pick(9);
            let r = match ch.pick(3) {
                0 => 110 + ch.pick(40),
                1 => 16360 + ch.pick(50),
                _ => {
                    if kind > 2 {
                        return Ok(());
                    }
                    2097120 + ch.pick(40)
                }
            };
            let mut m = base(&[], 1);
            match kind {
                0 => m.sects.push(Sect::Custom("x".into(), vec![0; r])),
                1 => {
                    m.sects.push(Sect::Mems(vec![(1, None)]));
                    m.sects.push(Sect::Datas(vec![Data { flag: 0, off: Expr::I32(0), bytes: vec![0; r] }]));
                }
                2 => m.sects[2] = Sect::Code(vec![Body { locals: vec![], ops: vec![Op::Raw(vec![1; r])] }]),
                3 => m.sects.push(Sect::Globals(vec![(I32, false, Expr::I32(1)); r])),
                4 => m.sects[0] = Sect::Types(vec![func_t0(); r]),
                5 => {
                    m.sects[1] = Sect::Funcs(vec![0; r]);
                    m.sects[2] = Sect::Code(vec![Body::default(); r]);
                }
                6 => m.sects.push(Sect::Exports(vec![Export { name: "n".repeat(r), space: Space::Func, index: 0 }])),
                7 => m.sects.push(Sect::Elems(vec![Elem { flag: 1, table: 0, funcs: vec![Some(0); r] }])),
                _ => m.sects.push(Sect::Name(vec![NameSub::Funcs(
                    (0..r as u32).map(|i| (i, format!("f{}", i))).collect(),
                )])),
            }
            order(&mut m);
            c.nontrivial();
            judge(&m, o, c)
        },
    )
}

fn order_family(o: Oracle) -> Family {
    fam(
        "section-orders",
        "all orders of the type, import, function, global, export, code, data and name sections that are valid (for byte counts: that are accepted)",
        move |ch, c| {
            let mut pool = vec![
                Sect::Types(vec![func_t0(), FuncType(vec![I32], vec![I64])]),
                Sect::Imports(vec![imp(ImportKind::Func(0), 0), imp(ImportKind::Global(I32), 1)]),
                Sect::Funcs(vec![0, 1]),
                Sect::Globals(vec![(I32, false, Expr::I32(7))]),
                Sect::Exports(vec![Export { name: "e".into(), space: Space::Func, index: 1 }]),
                Sect::Code(vec![
                    Body { locals: vec![], ops: vec![Op::Call(2), Op::GlobalGet(1), Op::Drop] },
                    Body { locals: vec![(1, I32)], ops: vec![Op::Call(0)] },
                ]),
                Sect::Datas(vec![Data { flag: 1, off: Expr::I32(0), bytes: vec![1, 2, 3] }]),
                Sect::Name(vec![NameSub::Funcs(vec![(1, "one".into()), (2, "two".into())])]),
            ];
            let mut m = Module::default();
            while !pool.is_empty() {
                let i = ch.pick(pool.len());
                m.sects.push(pool.remove(i));
            }
            let ids: Vec<u8> = m.sects.iter().map(|s| s.id()).filter(|i| *i != 0).collect();
            let valid = ids.windows(2).all(|w| w[0] < w[1]);
            // Modules in another order are not valid: only the byte count is claimed, and only if they are accepted.
            if !valid && (o != Oracle::Sum || twiggy_parser::parse(&m.bytes()).is_err()) {
                return Ok(());
            }
            c.nontrivial();
            judge(&m, o, c)
        },
    )
}

fn forms_family(o: Oracle) -> Family {
    fam(
        "entry-forms",
        "every encoding form of types, imports, tables, memories, globals, element and data segments, up to two entries",
        move |ch, c| {
            let vts = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF];
            let all = [
                ImportKind::Func(0),
                ImportKind::Table,
                ImportKind::Memory,
                ImportKind::Global(I64),
            ];
            let mut m = base(&[], 1);
            match ch.pick(7) {
                0 => {
                    let np = ch.pick(3);
                    let ps = (0..np).map(|_| *ch.of(&vts)).collect();
                    let nr = ch.pick(4);
                    let rs = (0..nr).map(|_| *ch.of(&vts)).collect();
                    m.sects[0] = Sect::Types(vec![func_t0(), FuncType(ps, rs)]);
                }
                1 => {
                    let n = ch.pick(4);
                    let ks: Vec<ImportKind> = (0..n).map(|_| ch.of(&all).clone()).collect();
                    m = base(&ks, 1);
                    if let Some(Sect::Imports(is)) = m.sects.get_mut(1) {
                        for (i, im) in is.iter_mut().enumerate() {
                            im.module = ["", "env", "a::b"][i].into();
                            im.field = ["x", "", "y z"][i].into();
                        }
                    }
                }
                2 => {
                    let n = ch.pick(3);
                    let ts = (0..n)
                        .map(|_| {
                            let min = *ch.of(&[0, 1, 127, 128, 1 << 20]);
                            let max = *ch.of(&[None, Some(1 << 21)]);
                            (*ch.of(&[FUNCREF, EXTERNREF]), min, max)
                        })
                        .collect();
                    m.sects.push(Sect::Tables(ts));
                }
                3 => {
                    let n = ch.pick(3);
                    let ts = (0..n)
                        .map(|_| {
                            let min = *ch.of(&[0, 1, 127, 128, 65536]);
                            let max = *ch.of(&[None, Some(65536)]);
                            (min, max)
                        })
                        .collect();
                    m.sects.push(Sect::Mems(ts));
                }
                4 => {
                    let n = ch.pick(3);
                    let gs = (0..n)
                        .map(|_| match ch.pick(6) {
                            0 => (I32, ch.flag(), Expr::I32(*ch.of(&[0, -1, 64, i32::MIN]))),
                            1 => (I64, ch.flag(), Expr::I64(*ch.of(&[0, -1, i64::MIN]))),
                            2 => (F32, ch.flag(), Expr::F32),
                            3 => (F64, ch.flag(), Expr::F64),
                            4 => (FUNCREF, ch.flag(), Expr::RefNull),
                            _ => (I32, ch.flag(), Expr::GlobalGet(0)),
                        })
                        .collect();
                    m.sects.push(Sect::Globals(gs));
                }
                5 => {
                    m.sects.push(Sect::Tables(vec![(FUNCREF, 1, None), (FUNCREF, 2, None)]));
                    let n = ch.pick(3);
                    let es = (0..n)
                        .map(|_| {
                            let flag = ch.pick(8) as u8;
                            let k = ch.pick(3);
                            Elem {
                                flag,
                                table: if flag & 3 == 2 { ch.pick(2) as u32 } else { 0 },
                                funcs: (0..k)
                                    .map(|_| if flag & 4 != 0 && ch.flag() { None } else { Some(0) })
                                    .collect(),
                            }
                        })
                        .collect();
                    m.sects.push(Sect::Elems(es));
                }
                _ => {
                    m.sects.push(Sect::Mems(vec![(1, None)]));
                    m.sects.push(Sect::Globals(vec![(I32, false, Expr::I32(4))]));
                    let n = ch.pick(4);
                    let ds = (0..n)
                        .map(|i| {
                            let flag = ch.pick(3) as u8;
                            let off = if flag == 1 {
                                Expr::I32(0)
                            } else {
                                ch.of(&[Expr::I32(64 * (i as i32 + 1)), Expr::GlobalGet(0), Expr::I32(-100 + 10 * i as i32)])
                                    .clone()
                            };
                            Data { flag, off, bytes: vec![3; *ch.of(&[0, 1, 5])] }
                        })
                        .collect();
                    m.sects.push(Sect::Datas(ds));
                }
            }
            order(&mut m);
            c.nontrivial();
            judge(&m, o, c)
        },
    )
}

fn duplicates_family(o: Oracle) -> Family {
    fam(
        "equal-entries",
        "sections with up to 3 byte-identical entries, equal names and equal sizes",
        move |ch, c| {
            let n = ch.pick(4);
            let mut m = base(&[], 2);
            m.sects.push(match ch.pick(5) {
                0 => Sect::Imports(vec![imp(ImportKind::Func(0), 0); n]),
                1 => Sect::Exports((0..n).map(|_| Export { name: "same".into(), space: Space::Func, index: 0 }).collect()),
                2 => Sect::Name(vec![NameSub::Funcs(vec![(0, "same".into()), (1, "same".into())])]),
                3 => Sect::Datas(vec![Data { flag: 1, off: Expr::I32(0), bytes: vec![1] }; n]),
                _ => Sect::Globals(vec![(I32, false, Expr::I32(1)); n]),
            });
            if ch.flag() {
                for _ in 0..n {
                    m.sects.push(Sect::Custom("dup".into(), vec![1, 2]));
                }
            }
            order(&mut m);
            c.nontrivial();
            judge(&m, o, c)
        },
    )
}

fn top_total_family() -> Family {
    fam(
        "top-total",
        "the total row of `top` for small modules, with every item limit",
        move |ch, c| {
            let ks = [ImportKind::Func(0), ImportKind::Memory];
            let n = ch.pick(3);
            let mut m = base(&ks[..n], ch.clone_pick(3));
            if ch.flag() {
                m.sects.push(Sect::Custom("x".into(), vec![1; 40]));
            }
            let limit = ch.pick(9);
            c.state((&m, limit));
            let bytes = m.bytes();
            c.sample(|| format!("-n {} {}", limit, hex(&bytes)));
            let mut items = twiggy_parser::parse(&bytes).map_err(|e| e.to_string())?;
            let mut opts = twiggy_opt::Top::new();
            opts.set_max_items(limit as u32);
            let t = crate::report::emit(|i| twiggy_analyze::top(i, &opts), &mut items, crate::report::Fmt::Text)?;
            c.trace();
            let tab = crate::rdr::parse_table(&t, 3)?;
            let last = tab.rows.last().ok_or("no total row")?;
            if last[0] != bytes.len().to_string() || last[1] != "100.00%" || !last[2].starts_with("Σ [") {
                return Err(format!("total row {:?}, file has {} bytes", last, bytes.len()));
            }
            Ok(())
        },
    )
}

impl Chooser {
    pub fn clone_pick(&mut self, n: usize) -> usize {
        self.pick(n)
    }
}

/// Large numbers of entries in one kind of section, referred to by index from everywhere.
fn many_entries_family(o: Oracle, tier: Tier) -> Family {
    let mut ns = crate::model::counts(1, 4097);
    if !tier.thorough() {
        ns.retain(|n| n & (n - 1) == 0 || (n + 1).is_power_of_two() || (n - 1).is_power_of_two());
    }
    ns.extend([65535, 65536, 65537]);
    fam(
        "many-entries",
        format!("{:?} entries in one of 13 lists, every index below the count around powers of two referred to by calls, global accesses, exports, elements, start and function types; names in ascending, descending or permuted order, all, every third or none", ns),
        move |ch, c| {
            let n = *ch.of(&ns);
            let what = ch.pick(13);
            // the largest counts with names in order or without names only
            let large = n > 5000 && !tier.thorough();
            let at = |k: usize| if what == k { n } else { 2 };
            let naming = ch.pick(if large { 2 } else { 4 });
            let split = !large && ch.flag();
            let mut m = Module::default();
            let nt = at(0);
            m.sects.push(Sect::Types((0..nt).map(|i| FuncType(vec![I32; i % 3], vec![I64; i % 2])).collect()));
            let mut imps = vec![];
            let (fi, ti, mi, gi) = (at(1), if what == 2 { n } else { 1 }, if what == 3 { n } else { 1 }, at(4));
            for i in 0..fi.max(ti).max(mi).max(gi) {
                if i < fi {
                    imps.push(imp(ImportKind::Func((i % nt) as u32), imps.len()));
                }
                if i < ti {
                    imps.push(imp(ImportKind::Table, imps.len()));
                }
                if i < mi {
                    imps.push(imp(ImportKind::Memory, imps.len()));
                }
                if i < gi {
                    imps.push(imp(ImportKind::Global(I32), imps.len()));
                }
            }
            m.sects.push(Sect::Imports(imps));
            let nf = at(5);
            let sp = [fi + nf, ti + at(6), mi + at(7), gi + at(8)];
            m.sects.push(Sect::Funcs((0..nf).map(|i| ((i * 7 + nt - 1) % nt) as u32).collect()));
            m.sects.push(Sect::Tables((0..at(6)).map(|i| (FUNCREF, i as u32, None)).collect()));
            m.sects.push(Sect::Mems((0..at(7)).map(|i| (i as u32, None)).collect()));
            m.sects.push(Sect::Globals((0..at(8)).map(|i| (I32, true, Expr::I32(i as i32))).collect()));
            let spaces = [Space::Func, Space::Table, Space::Memory, Space::Global];
            // indices worth referring to
            let far = |n: usize| -> Vec<usize> { (0..n).filter(|i| *i < 2 || i + 2 >= n || (i + 1).is_power_of_two() || i.is_power_of_two()).collect() };
            let mut es = vec![];
            for (k, s) in spaces.iter().enumerate() {
                for i in far(sp[k]) {
                    es.push((*s, i));
                }
            }
            if what == 9 {
                while es.len() < n {
                    es.push((Space::Func, es.len() % sp[0]));
                }
            }
            m.sects.push(Sect::Exports(
                es.iter().enumerate().map(|(k, (s, i))| Export { name: format!("x{}", k), space: *s, index: *i as u32 }).collect(),
            ));
            m.sects.push(Sect::Start(sp[0] as u32 - 1));
            let ne = at(10);
            m.sects.push(Sect::Elems(
                (0..ne)
                    .map(|i| Elem {
                        flag: [0, 2, 1, 6][i % 4],
                        table: if i % 2 == 1 { (i % sp[1]) as u32 } else { 0 },
                        funcs: if i == 1 { far(sp[0]).into_iter().map(|f| Some(f as u32)).collect() } else { vec![Some((i % sp[0]) as u32)] },
                    })
                    .collect(),
            ));
            let bodies: Vec<Body> = (0..nf)
                .map(|i| {
                    let mut ops = vec![Op::Nop; i % 5];
                    if i == nf - 1 {
                        ops.extend(far(sp[0]).into_iter().map(|f| Op::Call(f as u32)));
                        for g in far(sp[3]) {
                            ops.push(Op::GlobalGet(g as u32));
                            ops.push(Op::GlobalSet(g as u32));
                        }
                    } else if i % 3 == 0 {
                        ops.push(Op::Call((fi + nf - 1 - i) as u32));
                    } else {
                        ops.push(Op::GlobalGet((i % sp[3]) as u32));
                    }
                    Body { locals: vec![], ops }
                })
                .collect();
            m.sects.push(Sect::Code(bodies));
            let nd = at(11);
            m.sects.push(Sect::Datas((0..nd).map(|i| Data { flag: 0, off: Expr::I32(i as i32 * 4), bytes: vec![1; i % 4] }).collect()));
            if what == 12 {
                for i in 0..n {
                    m.sects.push(Sect::Custom(format!("c{}", i % 300), vec![0; i % 7]));
                }
            }
            if naming > 0 {
                let pick = |n: usize| -> Vec<usize> {
                    match naming {
                        1 => (0..n).collect(),
                        2 => (0..n).rev().collect(),
                        _ => (0..n).map(|i| (i * 7919 + 5) % n).filter(|i| i % 3 != 0).collect::<std::collections::BTreeSet<_>>().into_iter().map(|i| (i * 31) % n).collect::<std::collections::BTreeSet<_>>().into_iter().collect(),
                    }
                };
                let f: Vec<_> = pick(sp[0]).into_iter().map(|i| (i as u32, format!("fn{}", i))).collect();
                let d: Vec<_> = pick(nd).into_iter().map(|i| (i as u32, format!("seg{}", i))).collect();
                if split {
                    let k = f.len() / 2;
                    m.sects.push(Sect::Name(vec![NameSub::Funcs(f[..k].to_vec()), NameSub::Data(d)]));
                    m.sects.push(Sect::Name(vec![NameSub::Funcs(f[k..].to_vec())]));
                } else {
                    m.sects.push(Sect::Name(vec![NameSub::Funcs(f), NameSub::Data(d)]));
                }
            } else if split {
                return Ok(());
            }
            order(&mut m);
            c.nontrivial();
            judge(&m, o, c)
        },
    )
}

/// Contents that are longer than any count or length field of one, two and three bytes.
fn large_contents_family(o: Oracle, tier: Tier) -> Family {
    let mut ns = vec![126usize, 127, 128, 255, 256, 16381, 16384, 16385, 65535, 65536, 65537, 1 << 21, (1 << 24) + 1];
    if tier.thorough() {
        ns.extend([(1 << 21) - 5, (1 << 24) - 1, 1 << 24]);
    }
    let all = tier.thorough();
    fam(
        "large-contents",
        format!("{:?} bytes (the last one in quick: only data, custom section, unread names) in one of: function body (with references at its end), data segment, custom section, name, export, import, element list, unread name subsection, calls of a body, names of a custom section, of an imported module and of a data segment (up to 100000), parameters of a type (up to 1000)", ns),
        move |ch, c| {
            let what = ch.pick(13);
            let n = *ch.of(&ns);
            let at = |k: usize| if what == k { n } else { 3 };
            let padded = ch.flag();
            if what == 6 && n > 70000 || n > 1 << 21 && !all && !(what == 1 || what == 2 || what == 7) {
                return Ok(());
            }
            let long = |k: usize, x: &str| if what == k { x.repeat(n.min(100_000)) } else { x.to_string() };
            let mut m = base(&[ImportKind::Func(0), ImportKind::Memory], 2);
            if let Sect::Imports(v) = &mut m.sects[1] {
                v[0].field = long(5, "i");
                v[0].module = long(10, "m");
            }
            if what == 12 {
                m.sects[0] = Sect::Types(vec![func_t0(), FuncType(vec![I64; n.min(1000)], vec![])]);
            }
            set_code(
                &mut m,
                vec![Body { locals: vec![], ops: vec![Op::Nop; at(0)].into_iter().chain([Op::Call(2), Op::I32Const(4), Op::Load(0x28, 2, 0), Op::Drop]).collect() }, Body { locals: vec![(1, I32); 1], ops: (0..if what == 8 { n } else { 1 }).map(|i| Op::Call(if i + 1 == n { 0 } else { 1 })).collect() }],
            );
            m.sects.push(Sect::Tables(vec![(FUNCREF, 1, None)]));
            m.sects.push(Sect::Exports(vec![
                Export { name: long(4, "e"), space: Space::Func, index: 1 },
                Export { name: "second".into(), space: Space::Func, index: 2 },
            ]));
            m.sects.push(Sect::Elems(vec![
                Elem { flag: 0, table: 0, funcs: (0..at(6)).map(|i| Some(if i + 1 == n { 2 } else { (i % 2) as u32 })).collect() },
                Elem { flag: 0, table: 0, funcs: vec![Some(2)] },
            ]));
            m.sects.push(Sect::Datas(vec![
                Data { flag: 0, off: Expr::I32(4), bytes: vec![7; at(1)] },
                Data { flag: 1, off: Expr::I32(0), bytes: vec![7; 2] },
            ]));
            order(&mut m);
            m.sects.push(Sect::Custom(long(9, "g"), vec![9; at(2)]));
            let mut subs = vec![
                NameSub::Funcs(vec![(0, "a".into()), (1, long(3, "b")), (2, "c".into())]),
                NameSub::Data(vec![(0, long(11, "d")), (1, "e".into())]),
            ];
            if what == 7 {
                subs.insert(0, NameSub::Other(3, vec![0; n]));
            }
            m.sects.push(Sect::Name(subs));
            m.pad = if padded { 5 } else { 0 };
            c.nontrivial();
            judge(&m, o, c)
        },
    )
}

/// Names as users choose them.
fn odd_names_family(o: Oracle) -> Family {
    let names = ["", "a", "code[0]", "data[0]", "type section headers", "name", "\u{e9}\u{1f600}", "a\0b", " x ", "\n", "export \"x\"", "f0", "%s{}", "a,b;c\"d"];
    fam(
        "odd-names",
        format!("all choices out of {:?} for two functions, an export, an import module and field, a custom section and a data segment (pairs)", names),
        move |ch, c| {
            let mut v = ["f0", "f1", "exp", "m", "imp", "cust", "seg"].map(String::from).to_vec();
            let i = ch.pick(7);
            let j = ch.range(i, 6);
            v[i] = ch.of(&names).to_string();
            if i != j {
                v[j] = ch.of(&names).to_string();
            }
            let mut m = base(&[ImportKind::Func(0)], 2);
            m.sects[1] = Sect::Imports(vec![Import { module: v[3].clone(), field: v[4].clone(), kind: ImportKind::Func(0) }]);
            set_code(&mut m, vec![Body::default(), Body { locals: vec![], ops: vec![Op::Call(1)] }]);
            m.sects.push(Sect::Exports(vec![Export { name: v[2].clone(), space: Space::Func, index: 2 }]));
            m.sects.push(Sect::Datas(vec![Data { flag: 1, off: Expr::I32(0), bytes: vec![1] }]));
            order(&mut m);
            if v[5] != "name" {
                m.sects.push(Sect::Custom(v[5].clone(), vec![1, 2]));
            }
            m.sects.push(Sect::Name(vec![NameSub::Funcs(vec![(1, v[0].clone()), (2, v[1].clone())]), NameSub::Data(vec![(0, v[6].clone())])]));
            c.nontrivial();
            judge(&m, o, c)
        },
    )
}

/// Custom sections that tools write.
fn tool_sections_family(o: Oracle) -> Family {
    const NAMES: [&str; 36] = [
        "producers", "linking", "reloc.CODE", "reloc.DATA", "reloc..debug_info", "target_features", "sourceMappingURL", "external_debug_info", ".debug_info",
        ".debug_line", ".debug_str", ".debug_abbrev", ".debug_ranges", ".debug_loc", ".debug_pubnames", "dylink", "dylink.0", "build_id",
        "__wasm_bindgen_unstable", "metadata.code.branch_hint", "metadata.code.func_effects", "core", "coremodules", "component-type", "name ", "Name", "names",
        ".name", "code", "data", "function", "custom", ".llvm_addrsig", "ethereum", ".text", "\u{0}",
    ];
    fam(
        "tool-sections",
        format!("custom sections named {:?}, alone or followed by another of them with the same contents, with 7 kinds of contents (nothing, zeros, a version and a subsection, a string, 130 and 16384 bytes, a whole module), at the start, before the code, before or after the name section", NAMES),
        move |ch, c| {
            let i = ch.pick(NAMES.len());
            let j = ch.pick(NAMES.len() + 1);
            let payload = match ch.pick(7) {
                0 => vec![],
                1 => vec![0],
                2 => vec![2, 1, 4, 3, b'a', b'b', b'c'],
                3 => [leb(9), b"file.wasm".to_vec()].concat(),
                4 => vec![7; 130],
                5 => vec![1; 16384],
                _ => base(&[], 1).bytes(),
            };
            let mut m = base(&[ImportKind::Func(0)], 2);
            m.sects.push(Sect::Name(vec![NameSub::Funcs(vec![(1, "f".into())])]));
            let end = m.sects.len();
            let at = *ch.of(&[0, 3, end - 1, end]);
            m.sects.insert(at, Sect::Custom(NAMES[i].into(), payload.clone()));
            if j < NAMES.len() {
                let at = *ch.of(&[at + 1, end + 1]);
                m.sects.insert(at, Sect::Custom(NAMES[j].into(), payload));
            }
            c.nontrivial();
            judge(&m, o, c)
        },
    )
}

/// Linkers write relocatable numbers with more bytes than they need.
fn padded_family(o: Oracle) -> Family {
    fam(
        "padded-numbers",
        "modules with every kind of entry, name subsection and operand, in which every number inside the entries has at least 0..5 bytes x section lengths and counts with at least 0..5 bytes x one kind of section missing",
        move |ch, c| {
            let mut m = base(&[ImportKind::Func(1), ImportKind::Table, ImportKind::Memory, ImportKind::Global(I64)], 3);
            m.pad_inner = ch.pick(6) as u8;
            m.pad = ch.pick(6) as u8;
            m.pad_counts = ch.pick(6) as u8;
            let drop = ch.pick(9);
            let code = vec![
                Body { locals: vec![(2, I32), (200, F64)], ops: vec![Op::Call(2), Op::Call(0), Op::GlobalGet(0), Op::Drop] },
                Body {
                    locals: vec![],
                    ops: vec![Op::I32Const(1000), Op::GlobalSet(1), Op::I32Const(-3), Op::CallIndirect(1, 1), Op::I32Const(4096), Op::Load(0x2d, 0, 0), Op::Drop],
                },
                Body { locals: vec![(1, V128)], ops: vec![Op::I32Const(-3), Op::Load(0x28, 2, 900), Op::I32Const(96), Op::Load(0x28, 2, 4000), Op::Call(3), Op::Drop] },
            ];
            for s in &mut m.sects {
                match s {
                    Sect::Types(t) => *t = vec![func_t0(), FuncType(vec![I32, F64], vec![I64])],
                    Sect::Funcs(f) => *f = vec![1, 0, 1],
                    Sect::Code(b) => *b = code.clone(),
                    _ => {}
                }
            }
            let more = [
                Sect::Tables(vec![(FUNCREF, 1, None), (EXTERNREF, 300, Some(70000))]),
                Sect::Mems(vec![(1, Some(2))]),
                Sect::Globals(vec![(I32, true, Expr::I32(-70000)), (I64, false, Expr::I64(1 << 40)), (I64, true, Expr::GlobalGet(0))]),
                Sect::Exports(vec![
                    Export { name: "a".into(), space: Space::Func, index: 3 },
                    Export { name: "b".into(), space: Space::Global, index: 2 },
                    Export { name: "".into(), space: Space::Func, index: 0 },
                ]),
                Sect::Start(2),
                Sect::Elems(vec![
                    Elem { flag: 0, table: 0, funcs: vec![Some(1), Some(0)] },
                    Elem { flag: 2, table: 0, funcs: vec![Some(3)] },
                    Elem { flag: 5, table: 0, funcs: vec![None, Some(2)] },
                ]),
                Sect::DataCount(3),
                Sect::Datas(vec![
                    Data { flag: 0, off: Expr::I32(4096), bytes: vec![1; 7] },
                    Data { flag: 1, off: Expr::I32(0), bytes: vec![2; 130] },
                    Data { flag: 2, off: Expr::I32(-16), bytes: vec![] },
                ]),
                Sect::Name(vec![
                    NameSub::Module("mod".into()),
                    NameSub::Funcs(vec![(0, "imported".into()), (1, "first".into()), (3, "last".into())]),
                    NameSub::Locals(vec![(1, vec![(0, "x".into()), (201, "y".into())])]),
                    NameSub::Data(vec![(1, "seg".into())]),
                ]),
            ];
            // the globals and the memory are referred to
            if drop == 1 || drop == 2 {
                return Ok(());
            }
            for (i, s) in more.iter().enumerate() {
                if i != drop || drop == 0 {
                    m.sects.push(s.clone());
                }
            }
            order(&mut m);
            if m.pad_inner > 0 {
                c.nontrivial();
            }
            judge(&m, o, c)
        },
    )
}

fn shared(o: Oracle, tier: Tier) -> Vec<Family> {
    vec![
        sections_family(o, tier),
        custom_family(o, tier),
        order_family(o),
        forms_family(o),
        duplicates_family(o),
        boundary_family(o),
        many_entries_family(o, tier),
        large_contents_family(o, tier),
        odd_names_family(o),
        tool_sections_family(o),
        padded_family(o),
    ]
}

pub fn c01(tier: Tier) -> Check {
    let mut families = shared(Oracle::Sum, tier);
    families.push(unreadable_names(Oracle::Sum));
    families.push(top_total_family());
    Check {
        id: "C01",
        level: "model_checking",
        families,
        assumptions: vec!["modules below 4 GiB", "the encoder in harness/src/wasmgen.rs follows the wasm binary format"],
        hang_secs: 60,
    }
}

fn names_family(tier: Tier) -> Family {
    fam(
        "function-names",
        "all sequences of up to 3 imports of the 4 kinds x 0..2 functions x all subsets of named indices x name section position",
        move |ch, c| {
            let kinds = [ImportKind::Func(0), ImportKind::Table, ImportKind::Memory, ImportKind::Global(I32)];
            let n = ch.pick(4);
            let ks: Vec<ImportKind> = (0..n).map(|_| ch.of(&kinds).clone()).collect();
            let nf = ch.pick(if tier.thorough() { 4 } else { 3 });
            let mut m = base(&ks, nf);
            let idx = ks.iter().filter(|k| matches!(k, ImportKind::Func(_))).count() + nf;
            let mut v = vec![];
            for i in 0..=idx {
                // one index past the end as well
                if ch.flag() {
                    v.push((i as u32, format!("name_of_{}", i)));
                }
            }
            if ch.flag() {
                v.reverse();
            }
            let sec = Sect::Name(vec![NameSub::Funcs(v)]);
            let pos = *ch.of(&[0, 1, m.sects.len()]);
            m.sects.insert(pos, sec);
            c.nontrivial();
            judge(&m, Oracle::Inventory, c)
        },
    )
}

fn data_names_family() -> Family {
    fam(
        "data-names",
        "up to 3 segments, imported memory or not, all subsets of named segments, one or two name sections in any split",
        |ch, c| {
            let mut m = base(&[ImportKind::Func(0), ImportKind::Memory][..1 + ch.pick(2)].to_vec(), 1);
            let nd = ch.pick(4);
            m.sects.push(Sect::Datas(
                (0..nd).map(|i| Data { flag: 1, off: Expr::I32(0), bytes: vec![1; i * i] }).collect(),
            ));
            let mut a = vec![];
            let mut b = vec![];
            for i in 0..nd {
                match ch.pick(3) {
                    0 => {}
                    1 => a.push((i as u32, format!("da{}", i))),
                    _ => b.push((i as u32, format!("db{}", i))),
                }
            }
            let fa = ch.flag();
            let mut s1 = vec![NameSub::Data(a)];
            if fa {
                s1.insert(0, NameSub::Funcs(vec![(1, "f".into())]));
            }
            let s2 = vec![NameSub::Data(b)];
            if ch.flag() {
                m.sects.insert(0, Sect::Name(s1));
                m.sects.push(Sect::Name(s2));
            } else {
                s1.extend(s2);
                m.sects.push(Sect::Name(s1));
            }
            c.nontrivial();
            judge(&m, Oracle::Inventory, c)
        },
    )
}

fn bodies_family() -> Family {
    fam(
        "body-sizes",
        "functions with all pairs of body sizes around LEB boundaries and type indices below and above 127",
        |ch, c| {
            let nt = *ch.of(&[1usize, 130]);
            let sizes = [0usize, 1, 2, 123, 124, 125, 126, 127, 128, 200];
            let n = ch.pick(3);
            let mut tys = vec![];
            let mut bs = vec![];
            for _ in 0..n {
                tys.push(if nt > 1 { *ch.of(&[0u32, 127, 128, 129]) } else { 0 });
                let k = *ch.of(&sizes);
                bs.push(Body { locals: vec![(3, I64)][..ch.pick(2)].to_vec(), ops: vec![Op::Nop; k] });
            }
            let m = Module {
                sects: vec![Sect::Types(vec![func_t0(); nt]), Sect::Funcs(tys), Sect::Code(bs)],
                pad: *ch.of(&[0, 3]),
                pad_counts: 0,
                pad_inner: 0,
            };
            c.nontrivial();
            judge(&m, Oracle::Inventory, c)
        },
    )
}

pub fn c02(tier: Tier) -> Check {
    let mut families = shared(Oracle::Inventory, tier);
    families.push(names_family(tier));
    families.push(data_names_family());
    families.push(bodies_family());
    Check {
        id: "C02",
        level: "model_checking",
        families,
        assumptions: vec![
            "the encoder in harness/src/wasmgen.rs follows the wasm binary format",
            "no two name sections give different names to one index",
        ],
        hang_secs: 60,
    }
}

pub const KINDS: [ImportKind; 4] = [ImportKind::Func(0), ImportKind::Table, ImportKind::Memory, ImportKind::Global(I32)];

/// Imports of every kind mix, two definitions of everything.
fn spaces(ch: &mut Chooser, maximp: usize) -> (Module, [u32; 4]) {
    let n = ch.pick(maximp + 1);
    let ks: Vec<ImportKind> = (0..n).map(|_| ch.of(&KINDS).clone()).collect();
    let mut m = base(&ks, 2);
    m.sects[0] = Sect::Types(vec![func_t0(), FuncType(vec![I32], vec![])]);
    let mut cnt = [2u32, 2, 2, 2];
    for k in &ks {
        cnt[match k {
            ImportKind::Func(_) => 0,
            ImportKind::Table => 1,
            ImportKind::Memory => 2,
            ImportKind::Global(_) => 3,
        }] += 1;
    }
    m.sects.push(Sect::Tables(vec![(FUNCREF, 1, None), (FUNCREF, 5, None)]));
    m.sects.push(Sect::Mems(vec![(1, None), (2, None)]));
    m.sects.push(Sect::Globals(vec![(I32, true, Expr::I32(0)), (I32, true, Expr::I32(100))]));
    (m, cnt)
}

fn set_code(m: &mut Module, bodies: Vec<Body>) {
    for s in &mut m.sects {
        if let Sect::Code(c) = s {
            *c = bodies.clone();
        }
    }
}

fn body_ops_family(tier: Tier) -> Family {
    let len = tier.pick(3, 4);
    fam(
        "body-references",
        format!("all import mixes up to 2 x all operator sequences up to {} over calls, global accesses, indirect calls and neutral operators with every target", len),
        move |ch, c| {
            let (mut m, cnt) = spaces(ch, 2);
            let n = ch.pick(len + 1);
            let ops: Vec<Op> = (0..n)
                .map(|_| match ch.pick(6) {
                    0 => Op::Call(ch.pick(cnt[0] as usize) as u32),
                    1 => Op::GlobalGet(ch.pick(cnt[3] as usize) as u32),
                    2 => Op::GlobalSet(ch.pick(cnt[3] as usize) as u32),
                    3 => Op::CallIndirect(0, 0),
                    4 => Op::I32Const(1),
                    _ => Op::Raw(vec![0x02, 0x40, 0x0b]), // block end
                })
                .collect();
            let which = ch.pick(2);
            let mut b = vec![Body::default(), Body::default()];
            b[which].ops = ops;
            set_code(&mut m, b);
            order(&mut m);
            if n > 0 {
                c.nontrivial();
            }
            judge(&m, Oracle::Edges, c)
        },
    )
}

fn exports_family() -> Family {
    fam(
        "exports-and-start",
        "all import mixes up to 3 x up to two exports of every kind and index x start section with every target or none",
        |ch, c| {
            let (mut m, cnt) = spaces(ch, 3);
            let n = ch.pick(3);
            let sp = [Space::Func, Space::Table, Space::Memory, Space::Global];
            let es = (0..n)
                .map(|i| {
                    let s = ch.pick(4);
                    Export { name: format!("x{}", i), space: sp[s], index: ch.pick(cnt[s] as usize) as u32 }
                })
                .collect::<Vec<_>>();
            if n > 0 || ch.flag() {
                m.sects.push(Sect::Exports(es));
            }
            let s = if n < 2 { ch.pick(cnt[0] as usize + 1) } else { 0 };
            if s > 0 {
                m.sects.push(Sect::Start(s as u32 - 1));
            }
            order(&mut m);
            c.nontrivial();
            judge(&m, Oracle::Edges, c)
        },
    )
}

fn elems_family() -> Family {
    fam(
        "element-segments",
        "all import mixes up to 2 x up to two element segments in all 8 encodings x every table x all function lists up to 2",
        |ch, c| {
            let (mut m, cnt) = spaces(ch, 2);
            let n = ch.range(1, 2);
            let es = (0..n)
                .map(|k| {
                    let flag = ch.pick(8) as u8;
                    let len = ch.pick(if k == 0 { 3 } else { 2 });
                    Elem {
                        flag,
                        table: if flag & 3 == 2 { ch.pick(cnt[1] as usize) as u32 } else { 0 },
                        funcs: (0..len)
                            .map(|_| {
                                let n = cnt[0] as usize;
                                let i = ch.pick(if flag & 4 != 0 { n + 1 } else { n });
                                if i == n {
                                    None
                                } else {
                                    Some(i as u32)
                                }
                            })
                            .collect(),
                    }
                })
                .collect();
            m.sects.push(Sect::Elems(es));
            order(&mut m);
            c.nontrivial();
            judge(&m, Oracle::Edges, c)
        },
    )
}

fn types_family() -> Family {
    fam(
        "function-types",
        "up to 3 functions x 1..3 types x every type index, with 0..2 imports before",
        |ch, c| {
            let nt = ch.range(1, 3);
            let nf = ch.pick(4);
            let ni = ch.pick(3);
            let mut m = Module::default();
            m.sects.push(Sect::Types((0..nt).map(|i| FuncType(vec![I32; i], vec![I64; i])).collect()));
            if ni > 0 {
                m.sects.push(Sect::Imports((0..ni).map(|i| imp(ImportKind::Func(ch.pick(nt) as u32), i)).collect()));
            }
            m.sects.push(Sect::Funcs((0..nf).map(|_| ch.pick(nt) as u32).collect()));
            m.sects.push(Sect::Code(vec![Body::default(); nf]));
            c.nontrivial();
            judge(&m, Oracle::Edges, c)
        },
    )
}

fn call_graph_family(tier: Tier) -> Family {
    let n = tier.pick(3usize, 4);
    fam(
        "call-graphs",
        format!("all call graphs (with recursion) on {} functions behind 0..2 imported functions", n),
        move |ch, c| {
            let ni = ch.pick(3) as u32;
            let ks = vec![ImportKind::Func(0); ni as usize];
            let mut m = base(&ks, n);
            let total = ni as usize + if n == 4 { 4 } else { 3 };
            let mut bodies = vec![];
            for _ in 0..n {
                let mask = ch.pick(1 << (total.min(if n == 4 { 4 } else { 5 })));
                let mut ops = vec![];
                for t in 0..total {
                    if mask >> t & 1 == 1 {
                        ops.push(Op::Call(t as u32));
                    }
                }
                bodies.push(Body { locals: vec![], ops });
            }
            set_code(&mut m, bodies);
            c.nontrivial();
            judge(&m, Oracle::Edges, c)
        },
    )
}

pub fn c03(tier: Tier) -> Check {
    let mut families = shared(Oracle::Edges, tier);
    families.push(body_ops_family(tier));
    families.push(exports_family());
    families.push(elems_family());
    families.push(types_family());
    families.push(call_graph_family(tier));
    Check {
        id: "C03",
        level: "model_checking",
        families,
        assumptions: vec![
            "the encoder in harness/src/wasmgen.rs follows the wasm binary format",
            "references through call_indirect, ref.func in bodies, stores and global initialisers are not counted as references by design",
        ],
        hang_secs: 60,
    }
}

fn data_family(tier: Tier) -> Family {
    fam(
        "layouts",
        "all layouts of 0..3 non-overlapping segments (gaps and lengths 0..3, shuffled file order, empty segments) x every address 0..=end+1 x every split into constant and offset",
        move |ch, c| {
            let n = ch.pick(4);
            let base_off = *ch.of(&[0u32, 1, 1000]);
            let mut segs = vec![];
            let mut at = base_off;
            for _ in 0..n {
                at += ch.pick(if n == 3 { 2 } else { 3 }) as u32; // gap
                let len = ch.pick(if n == 3 { 3 } else { 4 }) as u32;
                segs.push((at, len));
                at += len;
            }
            // file order
            let mut file = vec![];
            let mut pool = segs.clone();
            while !pool.is_empty() {
                let i = ch.pick(pool.len());
                file.push(pool.remove(i));
            }
            let flag2 = tier.thorough() && ch.flag();
            let datas: Vec<Data> = file
                .iter()
                .map(|(o, l)| Data { flag: if flag2 { 2 } else { 0 }, off: Expr::I32(*o as i32), bytes: vec![1; *l as usize] })
                .collect();
            let lo = base_off.saturating_sub(1);
            let addr = lo + ch.pick((at - lo + 2) as usize) as u32;
            let splits = [0, 1, addr / 2, addr.saturating_sub(1), addr];
            let k = (*ch.of(&splits)).min(addr);
            let m = load_module(datas, vec![Op::I32Const(k as i32), Op::Load(0x2d, 0, addr - k), Op::Drop]);
            c.nontrivial();
            judge_loads(&m, c)
        },
    )
}

fn load_module(datas: Vec<Data>, ops: Vec<Op>) -> Module {
    let mut m = base(&[], 1);
    m.sects[2] = Sect::Code(vec![Body { locals: vec![], ops }]);
    m.sects.push(Sect::Mems(vec![(1, None)]));
    m.sects.push(Sect::Globals(vec![(I32, false, Expr::I32(4))]));
    m.sects.push(Sect::Datas(datas));
    order(&mut m);
    m
}

fn loads_family() -> Family {
    fam(
        "load-instructions",
        "every load opcode x all operator sequences up to 2 between or around the constant and the load x addresses in and around a segment",
        |ch, c| {
            let opc = 0x28 + ch.pick(14) as u8;
            let addr = 7 + ch.pick(6) as i32; // segment is [8, 12)
            let datas = vec![
                Data { flag: 0, off: Expr::I32(100), bytes: vec![1; 4] },
                Data { flag: 0, off: Expr::I32(8), bytes: vec![1; 4] },
            ];
            let pool = [Op::Nop, Op::I32Const(100), Op::Drop, Op::GlobalGet(0), Op::Call(0), Op::Load(0x28, 2, 0)];
            let mut ops = vec![];
            let before = ch.pick(7);
            if before > 0 {
                ops.push(pool[before - 1].clone());
            }
            ops.push(Op::I32Const(addr));
            for _ in 0..2 {
                let mid = ch.pick(7);
                if mid == 0 {
                    break;
                }
                ops.push(pool[mid - 1].clone());
            }
            ops.push(Op::Load(opc, 0, 0));
            if ch.flag() {
                ops.push(Op::Load(opc, 0, 100)); // address of the second load is the loaded value
            }
            ops.push(Op::Drop);
            let m = load_module(datas, ops);
            c.nontrivial();
            judge_loads(&m, c)
        },
    )
}

fn extremes_family() -> Family {
    fam(
        "extreme-addresses",
        "segments and loads at 0, 2^31-1, 2^31, 2^32-1 and around, constants and offsets at the extremes, non-constant and passive segments, i64 positions",
        |ch, c| {
            let pos: [u32; 7] = [0, 1, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_fffc];
            let off = *ch.of(&pos);
            let len = *ch.of(&[0usize, 1, 3]);
            let d = match ch.pick(4) {
                0 => Data { flag: 0, off: Expr::I32(off as i32), bytes: vec![1; len] },
                1 => Data { flag: 1, off: Expr::I32(0), bytes: vec![1; len] },
                2 => Data { flag: 0, off: Expr::GlobalGet(0), bytes: vec![1; len] },
                _ => Data { flag: 2, off: Expr::I32(off as i32), bytes: vec![1; len] },
            };
            let other = Data { flag: 0, off: Expr::I32(16), bytes: vec![2; 4] };
            let first = ch.flag();
            let datas = if first { vec![d, other] } else { vec![other, d] };
            let a: [i64; 11] = [
                0,
                1,
                3,
                0x7fff_fffd,
                0x7fff_ffff,
                0x8000_0000,
                0x8000_0002,
                0xffff_fff1,
                0xffff_fffe,
                0xffff_ffff,
                i64::from(off) + len as i64 - 1,
            ];
            let addr = *ch.of(&a);
            let ops = match ch.pick(4) {
                0 => vec![Op::I32Const(addr as u32 as i32), Op::Load(0x28, 2, 0)],
                1 => vec![Op::I32Const(0), Op::Load(0x28, 2, addr as u32)],
                2 => vec![Op::I32Const(-1), Op::Load(0x28, 2, addr as u32)], // no wrap-around
                _ => vec![Op::I32Const(i32::MIN), Op::Load(0x28, 2, (addr as u32) ^ 0x8000_0000)],
            };
            let m = load_module(datas, ops);
            c.nontrivial();
            judge_loads(&m, c)
        },
    )
}

fn many_segments() -> Family {
    fam(
        "many-segments",
        "1..40 adjacent or spaced segments, one load in each position of each segment",
        |ch, c| {
            let n = ch.range(1, 40) as u32;
            let gap = ch.pick(3) as u32;
            let len = ch.range(1, 3) as u32;
            let rev = ch.flag();
            let mut datas: Vec<Data> = (0..n)
                .map(|i| Data { flag: 0, off: Expr::I32((i * (len + gap)) as i32), bytes: vec![1; len as usize] })
                .collect();
            if rev {
                datas.reverse();
            }
            let k = ch.pick(n as usize) as u32;
            let p = ch.pick((len + gap) as usize) as u32;
            let m = load_module(datas, vec![Op::I32Const((k * (len + gap)) as i32), Op::Load(0x29, 3, p), Op::Drop]);
            c.nontrivial();
            judge_loads(&m, c)
        },
    )
}

/// Many loads in many functions over many segments, also over large ones.
fn many_loads_family(tier: Tier) -> Family {
    let ns: Vec<usize> = if tier.thorough() { crate::model::counts(40, 4097) } else { vec![1, 2, 3, 8, 40, 127, 128, 129, 255, 256, 257, 1000] };
    fam(
        "many-loads",
        format!("{:?} segments of 1, 5, 255, 256, 257, 65536 or 70000 bytes with or without gaps in ascending, descending or permuted order; 1, 2, 3 or many functions that together load the first and last byte of every segment and the bytes around them", ns),
        move |ch, c| {
            let n = *ch.of(&ns);
            let len = *ch.of(&[1u32, 5, 255, 256, 257, 65536, 70000]);
            let gap = *ch.of(&[0u32, 1, 300]);
            let start = *ch.of(&[0u32, 1024, 0x7fff_fff0]);
            let ord = ch.pick(3);
            let nf = *ch.of(&[1usize, 2, 3, 130]);
            if (len > 1000 && n > 8) || (n > 300 && (nf == 2 || gap == 1)) {
                return Ok(());
            }
            let at = |i: usize| start + i as u32 * (len + gap);
            // datas[order[k]]: file position to segment
            let mut file: Vec<usize> = (0..n).collect();
            match ord {
                0 => {}
                1 => file.reverse(),
                _ => {
                    let step = [7919usize, 7907, 7901].iter().cloned().find(|p| n % p != 0).unwrap();
                    file = (0..n).map(|i| (i * step + 3) % n).collect();
                }
            }
            let datas: Vec<Data> =
                file.iter().map(|i| Data { flag: if i % 2 == 0 { 0 } else { 2 }, off: Expr::I32(at(*i) as i32), bytes: vec![1; len as usize] }).collect();
            let mut bodies = vec![Body::default(); nf];
            let mut k = 0;
            for i in 0..n {
                for d in [0, len - 1] {
                    let a = at(i) + d;
                    let o = [0, 1, 8, a / 2][k % 4].min(a);
                    bodies[k % nf].ops.extend(vec![Op::I32Const((a - o) as i32), Op::Load(0x28 + (k % 14) as u8, 0, o), Op::Drop]);
                    k += 1;
                }
                if gap > 0 {
                    for a in [at(i) + len, at(i) + len + gap - 1] {
                        // between two segments; one function has nothing else
                        if nf > 2 && i % 2 == 0 {
                            continue;
                        }
                        let f = if nf > 1 { nf - 1 } else { 0 };
                        bodies[f].ops.extend(vec![Op::I32Const(a as i32), Op::Load(0x28, 0, 0), Op::Drop]);
                    }
                }
            }
            let mut m = load_module(datas, vec![]);
            for s in &mut m.sects {
                match s {
                    Sect::Funcs(v) => *v = vec![0; nf],
                    Sect::Code(v) => *v = bodies.clone(),
                    _ => {}
                }
            }
            c.nontrivial();
            judge_loads(&m, c)
        },
    )
}

pub fn c04(tier: Tier) -> Check {
    Check {
        id: "C04",
        level: "model_checking",
        families: vec![data_family(tier), loads_family(), extremes_family(), many_segments(), many_loads_family(tier)],
        assumptions: vec![
            "a single memory; active segments with constant positions do not overlap",
            "the address is an i32.const immediately before the load",
        ],
        hang_secs: 60,
    }
}
