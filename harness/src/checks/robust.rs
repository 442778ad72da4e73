//! C05: no input crashes or hangs twiggy.
use crate::engine::*;
use crate::report::*;
use crate::suite;
use crate::util::hex;
use crate::wasmgen::*;
use crate::{Check, Tier};
use std::collections::BTreeSet;
use std::sync::OnceLock;
use twiggy_ir::Items;

fn analyses() -> &'static Vec<suite::Ana> {
    static A: OnceLock<Vec<suite::Ana>> = OnceLock::new();
    A.get_or_init(suite::all)
}

/// References between existing items only.
fn closed(items: &Items) -> Result<(), String> {
    let ids: BTreeSet<_> = items.iter().map(|i| i.id()).collect();
    for i in items.iter() {
        for n in items.neighbors(i.id()) {
            if !ids.contains(&n) {
                return Err(format!("{:?} refers to {:?}, which is not an item", i.name(), n));
            }
        }
    }
    for id in &ids {
        let _ = &items[*id];
    }
    Ok(())
}

/// Parses and, if that succeeds, runs everything. `deep`: all analyses in all formats.
pub fn survive(bytes: &[u8], deep: bool, c: &Case) -> Result<bool, String> {
    survive_by(bytes, deep, c, twiggy_parser::parse)
}

/// As an object file.
fn survive_elf(bytes: &[u8], deep: bool, c: &Case) -> Result<bool, String> {
    survive_by(bytes, deep, c, |b| super::elf::read_as(b, twiggy_traits::ParseMode::Dwarf))
}

fn survive_by(bytes: &[u8], deep: bool, c: &Case, parse: impl Fn(&[u8]) -> anyhow::Result<Items> + std::panic::RefUnwindSafe) -> Result<bool, String> {
    c.state(bytes);
    c.sample(|| hex(bytes));
    let fail = |e: String| Err(format!("{}\ninput: {}", e, hex(bytes)));
    c.trace();
    let mut items = match guarded(|| parse(bytes)) {
        Err(p) => return fail(format!("parsing panics: {}", p)),
        Ok(Err(_)) => return Ok(false),
        Ok(Ok(i)) => i,
    };
    c.nontrivial();
    if let Err(e) = closed(&items) {
        return fail(e);
    }
    if deep {
        let mut other = parse(bytes).map_err(|e| format!("the second parse fails: {}", e))?;
        for a in analyses() {
            for fmt in FMTS {
                c.trace();
                match guarded(|| a.text(&mut items, &mut other, fmt)) {
                    Err(p) => return fail(format!("{} -f {} panics: {}", a.name, fmt.name(), p)),
                    Ok(Err(e)) => return fail(e),
                    Ok(Ok(_)) => {}
                }
            }
        }
    }
    Ok(true)
}

fn t(p: &[u8], r: &[u8]) -> FuncType {
    FuncType(p.to_vec(), r.to_vec())
}

/// Small valid modules that together contain every section kind, entry form and operator twiggy looks at.
pub fn seeds() -> Vec<Vec<u8>> {
    let code = |ops: Vec<Op>| Body { locals: vec![], ops };
    let mut v = vec![];
    // everything once
    v.push(Module {
        sects: vec![
            Sect::Types(vec![t(&[], &[]), t(&[I32], &[I64])]),
            Sect::Imports(vec![
                Import { module: "m".into(), field: "f".into(), kind: ImportKind::Func(0) },
                Import { module: "m".into(), field: "g".into(), kind: ImportKind::Global(I32) },
            ]),
            Sect::Funcs(vec![0, 0]),
            Sect::Tables(vec![(FUNCREF, 1, None)]),
            Sect::Mems(vec![(1, None)]),
            Sect::Globals(vec![(I32, true, Expr::I32(1))]),
            Sect::Exports(vec![Export { name: "e".into(), space: Space::Func, index: 1 }]),
            Sect::Start(1),
            Sect::Elems(vec![Elem { flag: 0, table: 0, funcs: vec![Some(1), Some(0)] }]),
            Sect::DataCount(1),
            Sect::Code(vec![
                code(vec![Op::Call(2), Op::GlobalGet(1), Op::Drop]),
                code(vec![Op::I32Const(4), Op::Load(0x28, 2, 0), Op::Drop]),
            ]),
            Sect::Datas(vec![Data { flag: 0, off: Expr::I32(4), bytes: vec![7, 8] }]),
        ],
        pad: 0,
        pad_counts: 0,
                pad_inner: 0,
    });
    // names
    v.push(Module {
        sects: vec![
            Sect::Types(vec![t(&[], &[])]),
            Sect::Funcs(vec![0]),
            Sect::Code(vec![Body::default()]),
            Sect::Datas(vec![Data { flag: 1, off: Expr::I32(0), bytes: vec![1] }]),
            Sect::Custom("c".into(), vec![1]),
            Sect::Name(vec![
                NameSub::Module("m".into()),
                NameSub::Funcs(vec![(0, "_ZN1a1bE".into())]),
                NameSub::Locals(vec![(0, vec![(0, "l".into())])]),
                NameSub::Data(vec![(0, "d".into())]),
            ]),
        ],
        pad: 0,
        pad_counts: 0,
                pad_inner: 0,
    });
    // exports of every kind, several element and data segment forms
    v.push(Module {
        sects: vec![
            Sect::Types(vec![t(&[], &[])]),
            Sect::Funcs(vec![0]),
            Sect::Tables(vec![(FUNCREF, 1, Some(2)), (EXTERNREF, 0, None)]),
            Sect::Mems(vec![(1, Some(2))]),
            Sect::Globals(vec![(I64, false, Expr::I64(-1)), (F32, false, Expr::F32)]),
            Sect::Exports(vec![
                Export { name: "t".into(), space: Space::Table, index: 1 },
                Export { name: "m".into(), space: Space::Memory, index: 0 },
                Export { name: "g".into(), space: Space::Global, index: 1 },
            ]),
            Sect::Elems(vec![
                Elem { flag: 1, table: 0, funcs: vec![Some(0)] },
                Elem { flag: 6, table: 0, funcs: vec![Some(0), None] },
                Elem { flag: 7, table: 0, funcs: vec![None] },
            ]),
            Sect::Code(vec![Body { locals: vec![(1, I32)], ops: vec![Op::CallIndirect(0, 0), Op::GlobalSet(0)] }]),
            Sect::Datas(vec![
                Data { flag: 2, off: Expr::I32(-1), bytes: vec![] },
                Data { flag: 0, off: Expr::GlobalGet(0), bytes: vec![1] },
            ]),
        ],
        pad: 2,
        pad_counts: 2,
        pad_inner: 0,
    });
    v.into_iter().map(|m| m.bytes()).collect()
}

/// Small object files that together use every attribute form, range list entry and header field twiggy's reader decodes.
fn elf_seeds() -> Vec<Vec<u8>> {
    use super::elf::*;
    let mut v = vec![];
    // version 4: address and constant ends, a range list, strings in line and in .debug_str, a child
    let mut u = Unit::new(4);
    u.low = Some(0x400);
    let mut outer = Die::new(SUB).at(AT_LINKAGE, F_STRP, Val::S(b"_ZN1a1bE".to_vec())).at(AT_LOW, F_ADDR, Val::U(0x1000)).at(AT_HIGH, F_DATA4, Val::U(9));
    outer.kids = vec![Die::new(SUB).name("inner").pc(0x1004, 3)];
    u.kids = vec![outer, Die::new(SUB).at(AT_RANGES, F_SECOFF, Val::R(vec![Re::Base(0x10), Re::Pair(0, 4), Re::Pair(8, 9)]))];
    v.push(File { class64: true, big: false, units: vec![u] }.bytes());
    // version 5: indices into .debug_addr, .debug_str_offsets and .debug_rnglists, 32 bit and big endian
    let mut u = Unit::new(5);
    u.addr = 4;
    u.kids = vec![
        Die::new(SUB).at(AT_NAME, F_STRX1, Val::S(b"f".to_vec())).at(AT_LOW, F_ADDRX, Val::U(0x1000)).at(AT_HIGH, F_UDATA, Val::U(5)),
        Die::new(SUB).at(AT_NAME, F_LINESTRP, Val::S(b"g".to_vec())).at(
            AT_RANGES,
            F_RNGX,
            Val::R(vec![Re::Basex(0x20), Re::Pair(0, 4), Re::StartxEndx(8, 9), Re::StartxLen(1, 2), Re::StartLen(7, 1), Re::StartEnd(3, 4)]),
        ),
        Die::new(SUB).name("h").at(AT_LOW, F_INDIRECT, Val::U(0x30)).at(AT_HIGH, F_IMPLICIT, Val::U(2)),
    ];
    v.push(File { class64: false, big: true, units: vec![u] }.bytes());
    // two units of different kinds and versions, 64 bit offsets
    let mut a = Unit::new(5);
    a.fmt64 = true;
    a.kids = vec![Die::new(SUB).name("a").pc(0x10, 2), Die::new(SUB).at(AT_RANGES, F_SECOFF, Val::R(vec![Re::StartEnd(1, 3)]))];
    let mut b = Unit::new(2);
    b.kids = vec![Die::new(SUB).name("b").pc(0x20, 2), Die::new(SUB).at(AT_RANGES, F_DATA4, Val::R(vec![Re::Pair(1, 3)]))];
    v.push(File { class64: true, big: false, units: vec![a, b] }.bytes());
    v.push(dynamic_seed());
    for (i, s) in v.iter().enumerate() {
        let n = read_as(s, twiggy_traits::ParseMode::Dwarf).unwrap_or_else(|e| panic!("harness: seed {}: {}", i, e)).iter().count();
        assert!(n >= 2, "harness: seed {} has {} items", i, n);
    }
    v
}

/// A 64 bit shared object with program headers, a dynamic section, symbol, hash and relocation tables, and debugging
/// sections, of which two are compressed.
fn dynamic_seed() -> Vec<u8> {
    use super::elf::{tiny_sections, zlib};
    let n4 = |v: &[u32]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let n8 = |v: &[u64]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    // name, type, flags, link, entry size, contents
    let mut secs: Vec<(String, u32, u64, u32, u64, Vec<u8>)> = vec![(String::new(), 0, 0, 0, 0, vec![])];
    let mut add = |n: &str, t: u32, f: u64, l: u32, e: u64, b: Vec<u8>| secs.push((n.into(), t, f, l, e, b));
    let sym = [vec![0; 24], n4(&[1]), vec![0x12, 0, 1, 0], n8(&[0x10, 4])].concat();
    add(".dynstr", 3, 0, 0, 0, b"\0f\0lib\0".to_vec());
    add(".dynsym", 11, 0, 1, 24, sym.clone());
    add(".hash", 5, 0, 2, 4, n4(&[1, 2, 1, 0, 0]));
    add(".gnu.hash", 0x6fff_fff6, 0, 2, 0, [n4(&[1, 1, 1, 0]), n8(&[0]), n4(&[1, 1])].concat());
    add(".rela", 4, 0, 2, 24, n8(&[0x10, 1 << 32 | 1, 0]));
    add(".dynamic", 6, 0, 1, 16, vec![0; 13 * 16]);
    add(".strtab", 3, 0, 0, 0, b"\0g\0".to_vec());
    add(".symtab", 2, 0, 7, 24, sym);
    for (n, b) in tiny_sections(0).v {
        match n {
            ".debug_info" => add(n, 1, 0x800, 0, 0, [n4(&[1, 0]), n8(&[b.len() as u64, 1]), zlib(&b)].concat()),
            ".debug_abbrev" => add(".zdebug_abbrev", 1, 0, 0, 0, [b"ZLIB".to_vec(), (b.len() as u64).to_be_bytes().to_vec(), zlib(&b)].concat()),
            _ if b.is_empty() => {}
            _ => add(n, 1, 0, 0, 0, b),
        }
    }
    let mut names = vec![];
    let mut at = vec![];
    let mut strs = vec![0u8];
    secs.push((".shstrtab".into(), 3, 0, 0, 0, vec![]));
    for s in &secs {
        at.push(if s.0.is_empty() { 0 } else { strs.len() as u32 });
        if !s.0.is_empty() {
            strs.extend(s.0.bytes());
            strs.push(0);
        }
    }
    secs.last_mut().unwrap().5 = strs;
    let mut off = 64 + 2 * 56u64;
    let mut offs = vec![];
    for s in &secs {
        offs.push(off);
        off += (s.5.len() as u64 + 7) & !7;
        names.push(s.0.as_str());
    }
    let of = |n: &str| offs[names.iter().position(|x| *x == n).unwrap()];
    let dynamic = n8(&[
        1, 3, 14, 3, 5, of(".dynstr"), 10, 7, 6, of(".dynsym"), 11, 24, 4, of(".hash"), 0x6fff_fef5, of(".gnu.hash"),
        7, of(".rela"), 8, 24, 23, of(".rela"), 2, 24, 20, 7,
    ]);
    let shoff = off;
    let mut o = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 0, 62, 0];
    o.extend(n4(&[1]));
    o.extend(n8(&[0, 64, shoff]));
    o.extend(n4(&[0]));
    o.extend([64u16, 56, 2, 64, secs.len() as u16, secs.len() as u16 - 1].iter().flat_map(|x| x.to_le_bytes()));
    o.extend(n4(&[1, 5]));
    o.extend(n8(&[0, 0, 0, shoff, shoff, 8]));
    o.extend(n4(&[2, 6]));
    o.extend(n8(&[of(".dynamic"), of(".dynamic"), of(".dynamic"), 13 * 16, 13 * 16, 8]));
    for s in &secs {
        let b = if s.0 == ".dynamic" { &dynamic } else { &s.5 };
        assert_eq!(b.len(), s.5.len(), "harness: dynamic section");
        o.extend(b);
        while o.len() % 8 != 0 {
            o.push(0);
        }
    }
    assert_eq!(o.len() as u64, shoff, "harness: section offsets");
    for (i, s) in secs.iter().enumerate() {
        o.extend(n4(&[at[i], s.1]));
        o.extend(n8(&[s.2, 0, if i == 0 { 0 } else { offs[i] }, s.5.len() as u64]));
        o.extend(n4(&[s.3, 0]));
        o.extend(n8(&[8, s.4]));
    }
    o
}

fn elf_substitution(tier: Tier) -> Family {
    let seeds = elf_seeds();
    let pairs: Vec<u8> = tier.pick(vec![0, 0xff], vec![0, 1, 4, 0x7f, 0x80, 0xff]);
    let span = tier.pick(4, 24);
    fam(
        "elf-substitute",
        format!("every byte of four object files (DWARF 2, 4, 5; a shared object with dynamic, symbol and hash tables and compressed sections) replaced by every value, and every pair of bytes less than {} apart replaced by every pair of values out of {:02x?}; all analyses in all formats for single changes (quick: to values in {:02x?})", span, pairs, VALUES),
        move |ch, c| {
            let mut b = ch.of(&seeds).clone();
            let pos = ch.pick(b.len());
            let one = ch.flag();
            let mut deep = tier.thorough() && one;
            if one {
                b[pos] = ch.pick(256) as u8;
                deep |= VALUES.contains(&b[pos]);
            } else {
                let d = 1 + ch.pick(span - 1);
                b[pos] = *ch.of(&pairs);
                if pos + d < b.len() {
                    b[pos + d] = *ch.of(&pairs);
                }
            }
            survive_elf(&b, deep, c).map(|_| ())
        },
    )
}

/// The same debugging sections in every container that the reader of object files knows.
fn container_seeds() -> Vec<Vec<u8>> {
    use super::objects::*;
    let s = super::elf::tiny_sections(0);
    vec![
        macho(&s, true, false, false),
        macho(&s, false, false, true),
        coff(&s, true, false),
        coff(&s, false, false),
        coff(&s, true, true),
        coff(&s, false, true),
        pe_tables(&s, true),
        pe_tables(&s, false),
        wasm(&s),
        super::elf::tiny_relocatable(0, 2),
        super::elf::tiny_relocatable(3, 1),
    ]
}

fn container_substitution(tier: Tier) -> Family {
    let seeds = container_seeds();
    let pairs: Vec<u8> = tier.pick(vec![0, 0xff], vec![0, 1, 4, 0x7f, 0x80, 0xff]);
    let span = tier.pick(4, 24);
    fam(
        "container-substitute",
        "the other containers that the reader of object files knows (Mach-O object and executable, COFF objects, PE images, WebAssembly with debugging sections; ELF object files with relocations): every byte replaced by every value, and pairs of near bytes by extreme values",
        move |ch, c| {
            let mut b = ch.of(&seeds).clone();
            let pos = ch.pick(b.len());
            if ch.flag() {
                b[pos] = ch.pick(256) as u8;
            } else {
                let d = 1 + ch.pick(span - 1);
                b[pos] = *ch.of(&pairs);
                if pos + d < b.len() {
                    b[pos + d] = *ch.of(&pairs);
                }
            }
            survive_elf(&b, false, c).map(|_| ())
        },
    )
}

fn elf_sizes(tier: Tier) -> Family {
    fam(
        "elf-sizes",
        "all lists of up to 3 functions (4 thorough) with sizes of 0 to 2^32-1 around the limits of 32 bits in object files with two units: all analyses in all formats",
        move |ch, c| {
            let n = ch.range(0, tier.pick(3, 4));
            let l: Vec<u64> = (0..n).map(|_| *ch.of(&super::elf::SIZES)).collect();
            survive_elf(&super::elf::sized(&l, n / 2), true, c).map(|_| ())
        },
    )
}

/// How files begin that the reader of object files may know.
const MAGICS: [&[u8]; 13] = [
    b"\x7fELF",
    b"\xfe\xed\xfa\xce",
    b"\xfe\xed\xfa\xcf",
    b"\xce\xfa\xed\xfe",
    b"\xcf\xfa\xed\xfe",
    b"\xca\xfe\xba\xbe",
    b"\xbe\xba\xfe\xca",
    b"\x4c\x01",
    b"\x64\x86",
    b"MZ",
    b"!<arch>\n",
    b"\0asm",
    b"\0asm\x01\0\0\0",
];

fn elf_cuts(tier: Tier) -> Family {
    let mut seeds = elf_seeds();
    seeds.extend(container_seeds());
    let max = tier.pick(64, 1 << 20);
    fam(
        "elf-cut-insert",
        format!("four ELF files and the other containers: every truncation, every removed or repeated range of up to {} bytes, every inserted byte out of {:02x?} at every position; and every file of up to 3 bytes after each magic number", max, VALUES),
        move |ch, c| {
            let s = ch.of(&seeds);
            let n = s.len();
            let b = match ch.pick(5) {
                0 => s[..ch.pick(n + 1)].to_vec(),
                k @ (1 | 2) => {
                    let i = ch.pick(n);
                    let j = i + 1 + ch.pick((n - i).min(max));
                    if k == 1 {
                        [&s[..i], &s[j..]].concat()
                    } else {
                        [&s[..j], &s[i..]].concat()
                    }
                }
                3 => {
                    let i = ch.pick(n + 1);
                    let v = *ch.of(&VALUES);
                    [&s[..i], &[v][..], &s[i..]].concat()
                }
                _ => {
                    let mut b = ch.of(&MAGICS).to_vec();
                    for _ in 0..ch.pick(4) {
                        b.push(*ch.of(&VALUES));
                    }
                    b
                }
            };
            survive_elf(&b, false, c).map(|_| ())
        },
    )
}

fn substitution(_tier: Tier) -> Family {
    let seeds = seeds();
    fam(
        "substitute-1",
        "every byte of three seed modules replaced by every value, then all analyses in all formats",
        move |ch, c| {
            let mut b = ch.of(&seeds).clone();
            let pos = ch.pick(b.len());
            b[pos] = ch.pick(256) as u8;
            survive(&b, true, c).map(|_| ())
        },
    )
}

/// Values that change the meaning of counts, lengths, indices, flags and opcodes.
const VALUES: [u8; 12] = [0, 1, 2, 3, 5, 0x0b, 0x10, 0x40, 0x7f, 0x80, 0xc0, 0xff];

fn substitution2(tier: Tier) -> Family {
    let seeds = seeds();
    let vals: Vec<u8> = tier.pick(vec![0, 2, 0x7f, 0x80, 0xff], VALUES.to_vec());
    fam(
        "substitute-2",
        format!("every pair of bytes of three seed modules replaced by every pair of values out of {:?}", vals),
        move |ch, c| {
            let mut b = ch.of(&seeds).clone();
            let i = 8 + ch.pick(b.len() - 9);
            let j = i + 1 + ch.pick(b.len() - i - 1);
            b[i] = *ch.of(&vals);
            b[j] = *ch.of(&vals);
            survive(&b, tier.thorough(), c).map(|_| ())
        },
    )
}

fn cuts(tier: Tier) -> Family {
    let seeds = seeds();
    fam(
        "cut-insert-repeat",
        "three seed modules: every truncation, every removed range, every inserted byte value at every position, every range repeated, and every truncation with a changed last byte",
        move |ch, c| {
            let s = ch.of(&seeds);
            let n = s.len();
            let b = match ch.pick(5) {
                0 => s[..ch.pick(n + 1)].to_vec(),
                1 => {
                    let i = ch.pick(n);
                    let j = i + 1 + ch.pick(n - i);
                    [&s[..i], &s[j..]].concat()
                }
                2 => {
                    let i = ch.pick(n + 1);
                    let v = ch.pick(256) as u8;
                    [&s[..i], &[v][..], &s[i..]].concat()
                }
                3 => {
                    let i = ch.pick(n);
                    let j = i + 1 + ch.pick(n - i);
                    [&s[..j], &s[i..]].concat()
                }
                _ => {
                    let i = 1 + ch.pick(n);
                    let mut b = s[..i].to_vec();
                    b[i - 1] = if tier.thorough() { ch.pick(256) as u8 } else { *ch.of(&VALUES) };
                    b
                }
            };
            survive(&b, true, c).map(|_| ())
        },
    )
}

fn frame(id: u8, payload: &[u8], place: usize) -> Vec<u8> {
    let mut b = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    let mut sec = vec![id, payload.len() as u8];
    sec.extend(payload);
    let types: &[u8] = &[1, 4, 1, 0x60, 0, 0];
    let funcs: &[u8] = &[3, 2, 1, 0];
    let code: &[u8] = &[10, 4, 1, 2, 0, 0x0b];
    // 0: alone; 1: with the rest of a minimal module, replacing a section with the same id; 2: after a complete one
    if place == 2 {
        b.extend([types, funcs, code].concat());
        b.extend(&sec);
    } else {
        let mut done = false;
        for s in [types, funcs, code] {
            if place == 1 {
                if s[0] == id {
                    b.extend(&sec);
                    done = true;
                } else {
                    if !done && s[0] == 10 && id != 3 && id != 1 && id != 10 {
                        b.extend(&sec);
                        done = true;
                    }
                    b.extend(s);
                }
            }
        }
        if !done {
            b.extend(&sec);
        }
    }
    b
}

fn payloads(tier: Tier) -> Family {
    let small: Vec<u8> = vec![0, 1, 2, 4, 0x0b, 0x10, 0x41, 0x60, 0x70, 0x7f, 0x80, 0xff];
    let deep = tier.pick(3, 5);
    fam(
        "payloads",
        format!("sections of every id 0..=17 with every payload of up to 2 bytes and every payload of up to {} bytes over {:02x?}, alone, in place of and after the sections of a minimal module", deep, small),
        move |ch, c| {
            let id = ch.pick(18) as u8;
            let place = ch.pick(3);
            let p: Vec<u8> = if ch.flag() {
                let n = ch.pick(3);
                (0..n).map(|_| ch.pick(256) as u8).collect()
            } else {
                let n = 3 + ch.pick(deep - 2);
                (0..n).map(|_| *ch.of(&small)).collect()
            };
            survive(&frame(id, &p, place), true, c).map(|_| ())
        },
    )
}

/// Well-formed sections whose indices, counts and order do not fit together.
fn palette() -> Vec<(&'static str, Vec<u8>)> {
    let code = |ops: Vec<Op>| Body { locals: vec![], ops };
    let enc = |s: Sect| Module { sects: vec![s], pad: 0, pad_counts: 0, pad_inner: 0 }.bytes()[8..].to_vec();
    let big = 0xffff_ffffu32;
    vec![
        ("type 1", enc(Sect::Types(vec![t(&[], &[])]))),
        ("type 0", enc(Sect::Types(vec![]))),
        ("type module", vec![1, 3, 1, 0x61, 0]),
        ("type instance", vec![1, 3, 1, 0x62, 0]),
        (
            "import fg",
            enc(Sect::Imports(vec![
                Import { module: "".into(), field: "".into(), kind: ImportKind::Func(9) },
                Import { module: "".into(), field: "".into(), kind: ImportKind::Global(I32) },
            ])),
        ),
        (
            "import tm",
            enc(Sect::Imports(vec![
                Import { module: "".into(), field: "".into(), kind: ImportKind::Table },
                Import { module: "".into(), field: "".into(), kind: ImportKind::Memory },
            ])),
        ),
        ("func 1", enc(Sect::Funcs(vec![0]))),
        ("func 2 types", enc(Sect::Funcs(vec![0, 1]))),
        ("func 0", enc(Sect::Funcs(vec![]))),
        ("table", enc(Sect::Tables(vec![(FUNCREF, 0, None)]))),
        ("memory", enc(Sect::Mems(vec![(0, None)]))),
        ("global", enc(Sect::Globals(vec![(I32, false, Expr::GlobalGet(7))]))),
        ("export f0", enc(Sect::Exports(vec![Export { name: "f".into(), space: Space::Func, index: 0 }]))),
        ("export f1 t0", enc(Sect::Exports(vec![
            Export { name: "f".into(), space: Space::Func, index: 1 },
            Export { name: "t".into(), space: Space::Table, index: 0 },
        ]))),
        ("export m0 g0", enc(Sect::Exports(vec![
            Export { name: "m".into(), space: Space::Memory, index: 0 },
            Export { name: "g".into(), space: Space::Global, index: 0 },
        ]))),
        ("export big", enc(Sect::Exports(vec![Export { name: "f".into(), space: Space::Global, index: big }]))),
        ("export tag", vec![7, 4, 1, 0, 4, 0]),
        ("start 0", enc(Sect::Start(0))),
        ("start big", enc(Sect::Start(big))),
        ("elem f0", enc(Sect::Elems(vec![Elem { flag: 0, table: 0, funcs: vec![Some(0)] }]))),
        ("elem passive f1", enc(Sect::Elems(vec![Elem { flag: 5, table: 0, funcs: vec![Some(1)] }]))),
        ("elem table 3", enc(Sect::Elems(vec![Elem { flag: 2, table: 3, funcs: vec![] }]))),
        ("code 1", enc(Sect::Code(vec![code(vec![])]))),
        ("code call 1, 0", enc(Sect::Code(vec![code(vec![Op::Call(1), Op::Call(0)])]))),
        ("code call big", enc(Sect::Code(vec![code(vec![Op::Call(big)])]))),
        ("code global", enc(Sect::Code(vec![code(vec![Op::GlobalGet(0), Op::GlobalSet(1)])]))),
        ("code global big", enc(Sect::Code(vec![code(vec![Op::GlobalSet(big)])]))),
        ("code 2 load", enc(Sect::Code(vec![code(vec![Op::I32Const(-1), Op::Load(0x28, 2, big)]), code(vec![])]))),
        ("code 0", enc(Sect::Code(vec![]))),
        ("code claims 2 has 1", vec![10, 4, 2, 2, 0, 0x0b]),
        ("data", enc(Sect::Datas(vec![Data { flag: 0, off: Expr::I32(-1), bytes: vec![1, 2] }, Data { flag: 0, off: Expr::I64(i64::MAX), bytes: vec![1] }]))),
        ("data count", enc(Sect::DataCount(9))),
        ("custom", enc(Sect::Custom("x".into(), vec![1]))),
        ("name", enc(Sect::Name(vec![NameSub::Funcs(vec![(0, "a".into()), (big, "b".into()), (0, "c".into())]), NameSub::Data(vec![(5, "d".into())])]))),
        ("name cut", vec![0, 7, 4, b'n', b'a', b'm', b'e', 1, 9]),
        ("tag", vec![13, 3, 1, 0, 0]),
        ("module 0", vec![14, 1, 0]),
        ("module 1", vec![14, 10, 1, 8, 0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]),
        ("module claims 1", vec![14, 2, 1, 9]),
        ("instance", vec![15, 1, 0]),
        ("alias", vec![16, 1, 0]),
        ("unknown", vec![17, 2, 1, 2]),
        ("unknown 7f", vec![0x7f, 0]),
    ]
}

fn sequences(tier: Tier) -> Family {
    let pal = palette();
    let max = tier.pick(3, 4);
    fam(
        "section-sequences",
        format!("every sequence of up to {} sections out of {} (indices out of range, repeated and misplaced sections, mismatched counts, proposals), all analyses in all formats", max, pal.len()),
        move |ch, c| {
            let mut b = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
            for _ in 0..ch.pick(max + 1) {
                b.extend(&ch.of(&pal).1);
            }
            survive(&b, true, c).map(|_| ())
        },
    )
}

/// As above around a function and a code section, so that parsing gets further.
fn around_code(tier: Tier) -> Family {
    let pal = palette();
    fam(
        "sections-around-code",
        "a function section and a code section of one or two entries, with every choice of up to two (thorough: three) other sections at every position",
        move |ch, c| {
            let pick = |p: &str| pal.iter().filter(|x| x.0.starts_with(p)).map(|x| x.1.clone()).collect::<Vec<_>>();
            let mut secs = vec![ch.of(&pick("func")).clone(), ch.of(&pick("code")).clone()];
            for _ in 0..ch.pick(tier.pick(3, 4)) {
                let at = ch.pick(secs.len() + 1);
                secs.insert(at, ch.of(&pal).1.clone());
            }
            let mut b = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
            b.extend(secs.concat());
            survive(&b, true, c).map(|_| ())
        },
    )
}

fn bodies(tier: Tier) -> Family {
    let alphabet: Vec<u8> = vec![0, 1, 2, 0x0b, 0x0e, 0x10, 0x11, 0x23, 0x24, 0x28, 0x41, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff];
    let max = tier.pick(4, 5);
    fam(
        "function-bodies",
        format!("function bodies of every operator byte followed by every string of up to {} bytes over {:02x?}", max - 1, alphabet),
        move |ch, c| {
            let n = 1 + ch.pick(max);
            let mut body = vec![0, ch.pick(256) as u8];
            for _ in 1..n {
                body.push(*ch.of(&alphabet));
            }
            if ch.flag() {
                body.push(0x0b);
            }
            let mut b = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0, 1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0, 10, body.len() as u8 + 2, 1, body.len() as u8];
            b.extend(body);
            survive(&b, n <= 3, c).map(|_| ())
        },
    )
}

fn names(tier: Tier) -> Family {
    let cpp: Vec<&str> = "_ N E S T I L K P R F X D G C t v i 0 1 2 a s Z J p O c m l".split(' ').collect();
    let rs: Vec<&str> = "_ N C n v M X Y I K E B F D R Q A T s u 0 1 a p h L".split(' ').collect();
    let max = tier.pick(4, 5);
    fam(
        "symbol-names",
        format!("functions named _Z, __Z, _GLOBAL_ or _R followed by every string of up to {} symbols of the C++ or Rust mangling grammar, and every name of up to two bytes", max),
        move |ch, c| {
            let mut n: Vec<u8> = vec![];
            match ch.pick(6) {
                0 => {
                    let k = ch.pick(3);
                    n.extend((0..k).map(|_| ch.pick(256) as u8));
                }
                k => {
                    let (p, a, m) = match k {
                        1 => ("_Z", &cpp, max),
                        2 => ("__Z", &cpp, 3),
                        3 => ("_GLOBAL_", &cpp, 3),
                        4 => ("_R", &rs, max),
                        _ => ("__ZN", &rs, 3),
                    };
                    n.extend(p.bytes());
                    for _ in 0..ch.pick(m + 1) {
                        n.extend(ch.of(a).bytes());
                    }
                }
            }
            let b = named(&n);
            survive(&b, n.len() < 5, c).map(|_| ())
        },
    )
}

/// A module with one empty function of the given name.
pub fn named(n: &[u8]) -> Vec<u8> {
    let mut map = vec![1, 0];
    map.extend(leb(n.len() as u64));
    map.extend(n);
    let mut sub = vec![1];
    sub.extend(leb(map.len() as u64));
    sub.extend(map);
    let mut b = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0, 1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0, 10, 4, 1, 2, 0, 0x0b, 0];
    b.extend(leb(sub.len() as u64 + 5));
    b.push(4);
    b.extend(b"name");
    b.extend(sub);
    b
}

/// Back references that make the demangled name exponentially longer than the symbol, and deep nesting.
fn expanding() -> Family {
    fam(
        "expanding-names",
        "C++ and Rust symbols whose substitutions or back references multiply the demangled name: arity 1..=6, 0..=40 levels; and nested pointers, templates, tuples up to 2000 deep",
        move |ch, c| {
            let kind = ch.pick(5);
            let mut s = String::new();
            if kind < 2 {
                let arity = 1 + ch.pick(6);
                let levels = ch.pick(41);
                if kind == 0 {
                    let seq = |n: usize| {
                        let d = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
                        match n {
                            0 => "S_".to_string(),
                            n if n <= 36 => format!("S{}_", d[n - 1] as char),
                            n => format!("S{}{}_", d[(n - 1) / 36] as char, d[(n - 1) % 36] as char),
                        }
                    };
                    s.push_str("_Z1f1AIiiE");
                    for l in 0..levels {
                        s.push_str(&format!("1{}I", (b'A' + (l % 26) as u8) as char));
                        for _ in 0..arity {
                            s.push_str(&seq(2 * l + 1));
                        }
                        s.push('E');
                    }
                } else {
                    s.push_str("_RINvC1a1f");
                    let mut prev = None;
                    for _ in 0..levels {
                        let at = s.len() - 2;
                        s.push('T');
                        for _ in 0..arity {
                            match prev {
                                None => s.push('h'),
                                Some(p) => {
                                    let d = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
                                    let mut p: usize = p;
                                    if p == 0 {
                                        s.push_str("B_");
                                    } else {
                                        p -= 1;
                                        let mut t = vec![];
                                        loop {
                                            t.push(d[p % 62]);
                                            p /= 62;
                                            if p == 0 {
                                                break;
                                            }
                                        }
                                        t.reverse();
                                        s.push_str(&format!("B{}_", String::from_utf8(t).unwrap()));
                                    }
                                }
                            }
                        }
                        s.push('E');
                        prev = Some(at);
                    }
                    s.push('E');
                }
            } else {
                let depth = *ch.of(&[1, 10, 90, 100, 120, 130, 500, 600, 2000]);
                let (a, m, z, y) = [("_Z1f", "P", "i", ""), ("_Z1f", "1AI", "i", "E"), ("_RINvC1a1f", "T", "h", "E")][kind - 2];
                s.push_str(a);
                (0..depth).for_each(|_| s.push_str(m));
                s.push_str(z);
                (0..depth).for_each(|_| s.push_str(y));
                if kind == 4 {
                    s.push('E');
                }
            }
            survive(&named(s.as_bytes()), true, c).map(|_| ())
        },
    )
}

/// Large modules: call chains, fans, many sections.
fn large(tier: Tier) -> Family {
    let sizes: Vec<usize> = tier.pick(vec![10, 1000, 5_000, 30_000], vec![10, 1000, 10_000, 30_000]);
    fam(
        "large-modules",
        format!("call chains (forward, backward, with a cycle back to the start), fans and custom section lists of {:?} elements; the text form of dominators up to 10000", sizes),
        move |ch, c| {
            let kind = ch.pick(5);
            let n = *ch.of(&sizes);
            let mut m = Module::default();
            if kind == 4 {
                m = super::wasm::base(&[], 1);
                (0..n).for_each(|i| m.sects.push(Sect::Custom(format!("c{}", i), vec![])));
            } else {
                m.sects.push(Sect::Types(vec![t(&[], &[])]));
                m.sects.push(Sect::Funcs(vec![0; n]));
                m.sects.push(Sect::Exports(vec![Export { name: "e".into(), space: Space::Func, index: if kind == 1 { n as u32 - 1 } else { 0 } }]));
                let bodies = (0..n)
                    .map(|i| {
                        let mut ops = vec![];
                        match kind {
                            0 | 2 if i + 1 < n => ops.push(Op::Call(i as u32 + 1)),
                            1 if i > 0 => ops.push(Op::Call(i as u32 - 1)),
                            3 if i == 0 => (1..n).for_each(|k| ops.push(Op::Call(k as u32))),
                            _ => {}
                        }
                        if kind == 2 {
                            ops.push(Op::Call(0));
                        }
                        Body { locals: vec![], ops }
                    })
                    .collect();
                m.sects.push(Sect::Code(bodies));
            }
            let bytes = m.bytes();
            let key = format!("kind {} n {}", kind, n);
            c.state(&key);
            c.sample(|| key.clone());
            c.nontrivial();
            let parse = || twiggy_parser::parse(&bytes).map_err(|e| format!("{}: {}", key, e));
            let (mut items, mut other) = (parse()?, parse()?);
            closed(&items)?;
            for a in analyses() {
                for fmt in FMTS {
                    if n > 10_000 && fmt == Fmt::Text && a.name.starts_with("dominators") {
                        continue; // the indentation makes the report quadratic
                    }
                    c.trace();
                    let t0 = std::time::Instant::now();
                    a.text(&mut items, &mut other, fmt)?;
                    if c.replaying {
                        println!("  {} {:?} {:.2}s", a.name, fmt, t0.elapsed().as_secs_f64());
                    }
                }
            }
            Ok(())
        },
    )
}

pub fn c05(tier: Tier) -> Check {
    Check {
        id: "C05",
        level: "model_checking",
        families: vec![
            container_substitution(tier),
            elf_cuts(tier),
            elf_sizes(tier),
            elf_substitution(tier),
            cuts(tier),
            substitution(tier),
            around_code(tier),
            sequences(tier),
            payloads(tier),
            bodies(tier),
            names(tier),
            expanding(),
            large(tier),
            substitution2(tier),
        ],
        assumptions: vec![],
        hang_secs: 20,
    }
}
