//! C20: ELF files with DWARF information, encoded by hand.
use crate::engine::*;
use crate::util::hex;
use crate::{Check, Tier};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use twiggy_ir::Items;
use twiggy_traits::ParseMode;

pub const AT_NAME: u16 = 0x03;
pub const AT_LOW: u16 = 0x11;
pub const AT_HIGH: u16 = 0x12;
pub const AT_RANGES: u16 = 0x55;
pub const AT_LINKAGE: u16 = 0x6e;
/// the linkage name before DWARF 4
const AT_MIPS_LINKAGE: u16 = 0x2007;
const AT_DECL: u16 = 0x3c;
const AT_STR_BASE: u16 = 0x72;
const AT_ADDR_BASE: u16 = 0x73;
const AT_RNG_BASE: u16 = 0x74;

pub const CU: u16 = 0x11;
pub const SUB: u16 = 0x2e;

pub const F_ADDR: u16 = 0x01;
pub const F_DATA2: u16 = 0x05;
pub const F_DATA4: u16 = 0x06;
pub const F_DATA8: u16 = 0x07;
pub const F_STRING: u16 = 0x08;
pub const F_DATA1: u16 = 0x0b;
pub const F_SDATA: u16 = 0x0d;
pub const F_STRP: u16 = 0x0e;
pub const F_UDATA: u16 = 0x0f;
pub const F_SECOFF: u16 = 0x17;
pub const F_PRESENT: u16 = 0x19;
pub const F_STRX: u16 = 0x1a;
pub const F_ADDRX: u16 = 0x1b;
pub const F_LINESTRP: u16 = 0x1f;
pub const F_IMPLICIT: u16 = 0x21;
pub const F_RNGX: u16 = 0x23;
pub const F_STRX1: u16 = 0x25;
pub const F_ADDRX1: u16 = 0x29;
pub const F_INDIRECT: u16 = 0x16;
/// indices of variable length, one, two, three and four bytes
pub const STRX: [u16; 5] = [F_STRX, F_STRX1, 0x26, 0x27, 0x28];
pub const ADDRX: [u16; 5] = [F_ADDRX, F_ADDRX1, 0x2a, 0x2b, 0x2c];

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Re {
    Pair(u64, u64),
    Base(u64),
    Basex(u64),
    StartEnd(u64, u64),
    StartLen(u64, u64),
    StartxEndx(u64, u64),
    StartxLen(u64, u64),
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Val {
    U(u64),
    S(Vec<u8>),
    R(Vec<Re>),
    /// a section offset as it stands
    Raw(u64),
    /// the bytes of a value of any form
    B(Vec<u8>),
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Die {
    pub tag: u16,
    pub attrs: Vec<(u16, u16, Val)>,
    pub kids: Vec<Die>,
}

impl Die {
    pub fn new(tag: u16) -> Die {
        Die { tag, attrs: vec![], kids: vec![] }
    }
    pub fn at(mut self, at: u16, form: u16, v: Val) -> Die {
        self.attrs.push((at, form, v));
        self
    }
    pub fn name(self, s: &str) -> Die {
        self.at(AT_NAME, F_STRING, Val::S(s.as_bytes().to_vec()))
    }
    pub fn pc(self, low: u64, size: u64) -> Die {
        self.at(AT_LOW, F_ADDR, Val::U(low)).at(AT_HIGH, F_ADDR, Val::U(low + size))
    }
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Unit {
    pub version: u16,
    pub fmt64: bool,
    pub addr: u8,
    /// DW_UT_compile, DW_UT_partial, DW_UT_type or DW_UT_skeleton; version 5 only
    pub kind: u8,
    pub low: Option<u64>,
    /// 0: an abbreviation for every entry, 1: equal ones are shared, 2: shared, with codes that are no sequence,
    /// 3: shared, and this unit uses the table of the units before it as well
    pub abbrevs: u8,
    pub kids: Vec<Die>,
}

impl Unit {
    pub fn new(version: u16) -> Unit {
        Unit { version, fmt64: false, addr: 8, kind: 1, low: None, abbrevs: 0, kids: vec![] }
    }
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct File {
    pub class64: bool,
    pub big: bool,
    pub units: Vec<Unit>,
}

pub(super) struct Buf {
    big: bool,
    pub(super) b: Vec<u8>,
    marks: Vec<Mark>,
}

/// A number in a section that a linker would fill in.
#[derive(Clone)]
pub struct Mark {
    at: usize,
    size: usize,
    target: &'static str,
    value: u64,
}

impl Buf {
    pub(super) fn new(big: bool) -> Buf {
        Buf { big, b: vec![], marks: vec![] }
    }
    /// A number that counts from the start of a section.
    fn to(&mut self, target: &'static str, value: u64, size: usize) {
        self.marks.push(Mark { at: self.b.len(), size, target, value });
        self.n(value, size);
    }
    fn append(&mut self, other: Buf) {
        let n = self.b.len();
        self.b.extend(other.b);
        self.marks.extend(other.marks.into_iter().map(|m| Mark { at: m.at + n, ..m }));
    }
    pub(super) fn n(&mut self, v: u64, size: usize) {
        let le = v.to_le_bytes();
        if self.big {
            for i in (0..size).rev() {
                self.b.push(le[i]);
            }
        } else {
            self.b.extend_from_slice(&le[..size]);
        }
    }
    fn uleb(&mut self, v: u64) {
        self.b.extend(crate::wasmgen::leb(v));
    }
    fn len(&self) -> usize {
        self.b.len()
    }
    /// DWARF initial length
    fn length(&mut self, v: u64, fmt64: bool) {
        if fmt64 {
            self.n(0xffff_ffff, 4);
            self.n(v, 8);
        } else {
            self.n(v, 4);
        }
    }
}

fn off(fmt64: bool) -> usize {
    if fmt64 {
        8
    } else {
        4
    }
}

/// An abbreviation table.
#[derive(Default)]
struct Abbrevs {
    at: u64,
    bytes: Vec<u8>,
    codes: HashMap<Vec<u8>, u64>,
    used: u64,
}

impl Abbrevs {
    fn code(&mut self, decl: Vec<u8>, mode: u8) -> u64 {
        if mode > 0 {
            if let Some(c) = self.codes.get(&decl) {
                return *c;
            }
        }
        self.used += 1;
        let c = if mode == 2 { 1_000_000 - 77 * self.used } else { self.used };
        self.bytes.extend(crate::wasmgen::leb(c));
        self.bytes.extend(&decl);
        self.codes.insert(decl, c);
        c
    }
}

/// Lists, addresses and strings that a unit refers to by index or offset.
struct Pools {
    lists: Vec<Vec<Re>>,
    list_off: Vec<u64>,
    rng_base: u64,
    addrs: Vec<u64>,
    addr_base: u64,
    strs: Vec<Vec<u8>>,
    str_off: Vec<u64>,
    str_base: u64,
}

fn index<T: PartialEq + Clone>(v: &mut Vec<T>, x: &T) -> usize {
    match v.iter().position(|y| y == x) {
        Some(i) => i,
        None => {
            v.push(x.clone());
            v.len() - 1
        }
    }
}

fn collect(d: &Die, p: &mut Pools) {
    for (_, f, v) in &d.attrs {
        match v {
            Val::R(l) => {
                index(&mut p.lists, l);
                for e in l {
                    match e {
                        Re::Basex(a) | Re::StartxLen(a, _) => {
                            index(&mut p.addrs, a);
                        }
                        Re::StartxEndx(a, b) => {
                            index(&mut p.addrs, a);
                            index(&mut p.addrs, b);
                        }
                        _ => {}
                    }
                }
            }
            Val::U(a) if ADDRX.contains(f) => {
                index(&mut p.addrs, a);
            }
            Val::S(s) if STRX.contains(f) => {
                index(&mut p.strs, s);
            }
            _ => {}
        }
    }
    for k in &d.kids {
        collect(k, p);
    }
}

fn mask(addr: u8) -> u64 {
    if addr == 8 {
        u64::MAX
    } else {
        (1u64 << (8 * addr)) - 1
    }
}

pub struct Sections {
    pub v: Vec<(&'static str, Vec<u8>)>,
    marks: Vec<Vec<Mark>>,
}

impl Sections {
    /// The units after the first one stand in a section of their own, at the end, as type units do in object files.
    pub fn apart(mut self, f: &File) -> Sections {
        let i = self.v.iter().position(|x| x.0 == ".debug_info").expect("harness: units");
        let b = &mut self.v[i].1;
        let (at, n) = if f.units[0].fmt64 { (4, 8) } else { (0, 4) };
        let mut number = b[at..at + n].to_vec();
        if !f.big {
            number.reverse();
        }
        let len = at + n + number.iter().fold(0, |x, y| x << 8 | usize::from(*y));
        let rest = b.split_off(len);
        self.v.push((".debug_info", rest));
        let (head, tail): (Vec<Mark>, Vec<Mark>) = self.marks[i].drain(..).partition(|m| m.at < len);
        self.marks[i] = head;
        self.marks.push(tail.into_iter().map(|m| Mark { at: m.at - len, ..m }).collect());
        self
    }
}

impl File {
    pub fn sections(&self) -> Sections {
        let nb = || Buf::new(self.big);
        let (mut info, mut abbrev, mut strs, mut lstrs) = (nb(), nb(), nb(), nb());
        let (mut ranges, mut rng, mut addr, mut stro) = (nb(), nb(), nb(), nb());
        // offset 0 is never a valid list or string
        ranges.n(0, 8);
        ranges.n(0, 8);
        strs.n(0, 1);
        lstrs.n(0, 1);
        let mut table = Abbrevs::default();
        for (number, u) in self.units.iter().enumerate() {
            let a = u.addr as usize;
            let mut p = Pools {
                lists: vec![],
                list_off: vec![],
                rng_base: 0,
                addrs: vec![],
                addr_base: 0,
                strs: vec![],
                str_off: vec![],
                str_base: 0,
            };
            for d in &u.kids {
                collect(d, &mut p);
            }
            for s in &p.strs {
                p.str_off.push(strs.len() as u64);
                strs.b.extend(s);
                strs.n(0, 1);
            }
            if u.version >= 5 {
                // addresses
                addr.length((4 + a * p.addrs.len()) as u64, u.fmt64);
                addr.n(5, 2);
                addr.n(a as u64, 1);
                addr.n(0, 1);
                p.addr_base = addr.len() as u64;
                for x in &p.addrs {
                    addr.to(".text", *x & mask(u.addr), a);
                }
                // string offsets
                stro.length((4 + off(u.fmt64) * p.strs.len()) as u64, u.fmt64);
                stro.n(5, 2);
                stro.n(0, 2);
                p.str_base = stro.len() as u64;
                for x in &p.str_off {
                    stro.to(".debug_str", *x, off(u.fmt64));
                }
                // range lists
                let mut body = nb();
                let table = off(u.fmt64) * p.lists.len();
                let mut offs = vec![];
                for l in &p.lists {
                    offs.push((table + body.len()) as u64);
                    for e in l {
                        match e {
                            Re::Basex(x) => {
                                body.n(1, 1);
                                body.uleb(index(&mut p.addrs, x) as u64);
                            }
                            Re::StartxEndx(x, y) => {
                                body.n(2, 1);
                                body.uleb(index(&mut p.addrs, x) as u64);
                                body.uleb(index(&mut p.addrs, y) as u64);
                            }
                            Re::StartxLen(x, y) => {
                                body.n(3, 1);
                                body.uleb(index(&mut p.addrs, x) as u64);
                                body.uleb(*y);
                            }
                            Re::Pair(x, y) => {
                                body.n(4, 1);
                                body.uleb(*x);
                                body.uleb(*y);
                            }
                            Re::Base(x) => {
                                body.n(5, 1);
                                body.to(".text", *x, a);
                            }
                            Re::StartEnd(x, y) => {
                                body.n(6, 1);
                                body.to(".text", *x, a);
                                body.to(".text", *y, a);
                            }
                            Re::StartLen(x, y) => {
                                body.n(7, 1);
                                body.to(".text", *x, a);
                                body.uleb(*y);
                            }
                        }
                    }
                    body.n(0, 1);
                }
                rng.length((8 + table + body.len()) as u64, u.fmt64);
                rng.n(5, 2);
                rng.n(a as u64, 1);
                rng.n(0, 1);
                rng.n(p.lists.len() as u64, 4);
                p.rng_base = rng.len() as u64;
                for o in &offs {
                    rng.n(*o, off(u.fmt64));
                }
                p.list_off = offs;
                rng.append(body);
            } else {
                for l in &p.lists {
                    p.list_off.push(ranges.len() as u64);
                    for e in l {
                        match e {
                            Re::Pair(x, y) => {
                                if u.low.is_none() && !l.iter().any(|e| matches!(e, Re::Base(_))) {
                                    ranges.to(".text", *x, a);
                                    ranges.to(".text", *y, a);
                                } else {
                                    ranges.n(*x, a);
                                    ranges.n(*y, a);
                                }
                            }
                            Re::Base(x) => {
                                ranges.n(u64::MAX, a);
                                ranges.to(".text", *x, a);
                            }
                            _ => panic!("harness: range entry of version 5"),
                        }
                    }
                    ranges.n(0, a);
                    ranges.n(0, a);
                }
            }
            let mut root = Die::new(if u.kind == 3 { 0x3c } else if u.kind == 2 { 0x41 } else { CU }).name("unit");
            if let Some(l) = u.low {
                root = root.at(AT_LOW, F_ADDR, Val::U(l));
            }
            let sf = if u.version >= 4 {
                F_SECOFF
            } else if u.fmt64 {
                F_DATA8
            } else {
                F_DATA4
            };
            if u.version >= 5 {
                root = root.at(AT_STR_BASE, sf, Val::Raw(p.str_base)).at(AT_ADDR_BASE, sf, Val::Raw(p.addr_base)).at(
                    AT_RNG_BASE,
                    sf,
                    Val::Raw(p.rng_base),
                );
            }
            root.kids = u.kids.clone();
            if number > 0 && u.abbrevs != 3 {
                abbrev.b.append(&mut table.bytes);
                abbrev.n(0, 1);
                table = Abbrevs { at: abbrev.len() as u64, ..Abbrevs::default() };
            }
            let abbrev_at = table.at;
            let mut dies = nb();
            self.die(&root, u, &mut p, &mut dies, &mut table, &mut strs, &mut lstrs);
            let mut head = nb();
            head.n(u64::from(u.version), 2);
            if u.version >= 5 {
                head.n(u64::from(u.kind), 1);
                head.n(a as u64, 1);
                head.to(".debug_abbrev", abbrev_at, off(u.fmt64));
                if u.kind == 4 {
                    head.n(0x1234, 8);
                }
                if u.kind == 2 {
                    head.n(0x1234, 8);
                    head.n(0, off(u.fmt64));
                }
            } else {
                head.to(".debug_abbrev", abbrev_at, off(u.fmt64));
                head.n(a as u64, 1);
            }
            info.length((head.len() + dies.len()) as u64, u.fmt64);
            info.append(head);
            info.append(dies);
        }
        abbrev.b.append(&mut table.bytes);
        abbrev.n(0, 1);
        let mut text = nb();
        text.b = vec![0xc3; 16];
        let all = [
            (".text", text),
            (".debug_info", info),
            (".debug_abbrev", abbrev),
            (".debug_str", strs),
            (".debug_line_str", lstrs),
            (".debug_ranges", ranges),
            (".debug_rnglists", rng),
            (".debug_addr", addr),
            (".debug_str_offsets", stro),
        ];
        let (v, marks) = all.into_iter().map(|(n, b)| ((n, b.b), b.marks)).unzip();
        Sections { v, marks }
    }

    #[allow(clippy::too_many_arguments)]
    fn die(&self, d: &Die, u: &Unit, p: &mut Pools, out: &mut Buf, table: &mut Abbrevs, strs: &mut Buf, lstrs: &mut Buf) {
        let mut ab = Buf::new(self.big);
        let mut o = Buf::new(self.big);
        ab.uleb(u64::from(d.tag));
        ab.n(!d.kids.is_empty() as u64, 1);
        for (at, form, v) in &d.attrs {
            ab.uleb(u64::from(*at));
            ab.uleb(u64::from(*form));
            let mut form = *form;
            if form == F_INDIRECT {
                o.uleb(u64::from(F_ADDR));
                form = F_ADDR;
            }
            let num = match v {
                Val::B(b) => {
                    o.b.extend(b);
                    continue;
                }
                Val::U(x) if ADDRX.contains(&form) => index(&mut p.addrs, x) as u64,
                Val::U(x) | Val::Raw(x) => *x,
                Val::S(s) => match form {
                    F_STRING => {
                        o.b.extend(s);
                        o.n(0, 1);
                        continue;
                    }
                    f if STRX.contains(&f) => index(&mut p.strs, s) as u64,
                    F_STRP => {
                        let at = strs.len() as u64;
                        strs.b.extend(s);
                        strs.n(0, 1);
                        at
                    }
                    _ => {
                        let at = lstrs.len() as u64;
                        lstrs.b.extend(s);
                        lstrs.n(0, 1);
                        at
                    }
                },
                Val::R(l) => {
                    let i = index(&mut p.lists, l);
                    if form == F_RNGX {
                        i as u64
                    } else {
                        // offsets in the table count from the base, those in the entry from the section
                        p.list_off[i] + if u.version >= 5 { p.rng_base } else { 0 }
                    }
                }
            };
            let list = if u.version >= 5 { ".debug_rnglists" } else { ".debug_ranges" };
            let target = match (*at, form) {
                (_, F_STRP) => Some(".debug_str"),
                (_, F_LINESTRP) => Some(".debug_line_str"),
                (AT_STR_BASE, _) => Some(".debug_str_offsets"),
                (AT_ADDR_BASE, _) => Some(".debug_addr"),
                (AT_RNG_BASE, _) => Some(list),
                (_, F_SECOFF | F_DATA4 | F_DATA8) if matches!(v, Val::R(_)) => Some(list),
                _ => None,
            };
            if let Some(t) = target {
                o.to(t, num, if form == F_DATA4 { 4 } else if form == F_DATA8 { 8 } else { off(u.fmt64) });
                continue;
            }
            match form {
                F_ADDR => o.to(".text", num & mask(u.addr), u.addr as usize),
                F_DATA1 | F_STRX1 | F_ADDRX1 => o.n(num, 1),
                F_DATA2 | 0x26 | 0x2a => o.n(num, 2),
                0x27 | 0x2b => o.n(num, 3),
                F_DATA4 | 0x28 | 0x2c => o.n(num, 4),
                F_DATA8 => o.n(num, 8),
                F_SDATA => o.b.extend(crate::wasmgen::sleb(num as i64)),
                F_UDATA | F_STRX | F_ADDRX | F_RNGX => o.uleb(num),
                F_SECOFF => o.n(num, off(u.fmt64)),
                F_PRESENT => {}
                F_IMPLICIT => ab.b.extend(crate::wasmgen::sleb(num as i64)),
                _ => panic!("harness: form {}", form),
            }
        }
        ab.n(0, 1);
        ab.n(0, 1);
        out.uleb(table.code(ab.b, u.abbrevs));
        out.append(o);
        if !d.kids.is_empty() {
            for k in &d.kids {
                self.die(k, u, p, out, table, strs, lstrs);
            }
            out.n(0, 1);
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        self.wrap(&self.sections())
    }

    pub fn wrap(&self, s: &Sections) -> Vec<u8> {
        self.wrap_packed(s, 0)
    }

    /// `pack`: the debugging sections are compressed, 1: with a compression header, 2: in the older GNU form.
    pub fn wrap_packed(&self, s: &Sections, pack: u8) -> Vec<u8> {
        let c = self.class64;
        let mut o = Buf::new(self.big);
        let w = if c { 8 } else { 4 };
        let (eh, sh) = if c { (64, 64) } else { (52, 40) };
        let mut names = vec![0u8];
        let mut heads: Vec<(u32, u32, u64, u64)> = vec![(0, 0, 0, 0)];
        let mut body: Vec<u8> = vec![];
        let all: Vec<(String, Vec<u8>)> = s
            .v
            .iter()
            .map(|(n, b)| {
                if pack == 0 || !n.starts_with(".debug_") {
                    return (n.to_string(), b.clone());
                }
                let mut o = Buf::new(self.big);
                if pack == 1 {
                    o.n(1, 4);
                    if c {
                        o.n(0, 4);
                    }
                    o.n(b.len() as u64, w);
                    o.n(1, w);
                    o.b.extend(zlib(b));
                    (n.to_string(), o.b)
                } else {
                    o.b.extend(b"ZLIB");
                    o.b.extend((b.len() as u64).to_be_bytes());
                    o.b.extend(zlib(b));
                    (n.replace(".debug", ".zdebug"), o.b)
                }
            })
            .chain([(".shstrtab".to_string(), vec![])])
            .collect();
        for (n, _) in &all {
            heads.push((names.len() as u32, if n == ".shstrtab" { 3 } else { 1 }, 0, 0));
            names.extend(n.bytes());
            names.push(0);
        }
        for (i, (n, b)) in all.iter().enumerate() {
            let b = if n == ".shstrtab" { &names } else { b };
            heads[i + 1].2 = (eh + body.len()) as u64;
            heads[i + 1].3 = b.len() as u64;
            body.extend(b);
            while body.len() % 8 != 4 {
                body.push(0);
            }
        }
        while (eh + body.len()) % 8 != 0 {
            body.push(0);
        }
        o.b.extend([0x7f, b'E', b'L', b'F', if c { 2 } else { 1 }, if self.big { 2 } else { 1 }, 1, 0]);
        o.b.extend([0; 8]);
        o.n(2, 2);
        o.n(match (c, self.big) {
            (true, false) => 62,
            (false, false) => 3,
            (true, true) => 21,
            (false, true) => 8,
        }, 2);
        o.n(1, 4);
        o.n(0, w); // entry
        o.n(0, w); // program headers
        o.n((eh + body.len()) as u64, w);
        o.n(0, 4);
        o.n(eh as u64, 2);
        o.n(0, 2);
        o.n(0, 2);
        o.n(sh as u64, 2);
        // numbers that do not fit stand in the first section header
        let many = heads.len() >= 0xff00;
        o.n(if many { 0 } else { heads.len() as u64 }, 2);
        o.n(if many { 0xffff } else { heads.len() as u64 - 1 }, 2);
        assert_eq!(o.len(), eh, "harness: ELF header");
        o.b.extend(body);
        if many {
            heads[0].3 = heads.len() as u64;
        }
        let strings = heads.len() - 1;
        for (i, (name, ty, at, len)) in heads.into_iter().enumerate() {
            o.n(u64::from(name), 4);
            o.n(u64::from(ty), 4);
            let packed = pack == 1 && i > 0 && all[i - 1].0.starts_with(".debug_");
            o.n(if packed { 0x800 } else { 0 }, w);
            o.n(0, w);
            o.n(at, w);
            o.n(len, w);
            o.n(if many && i == 0 { strings as u64 } else { 0 }, 4);
            o.n(0, 4);
            o.n((ty != 0) as u64, w);
            o.n(0, w);
        }
        o.b
    }
}

/// Machines that object files are made for: number, ELF class 64, byte order (None: both), addends in the relocations,
/// types of relocations for 4 and 8 bytes.
pub const MACHINES: [(u16, bool, Option<bool>, bool, u64, Option<u64>); 6] = [
    (62, true, Some(false), true, 10, Some(1)),
    (183, true, None, true, 258, Some(257)),
    (3, false, Some(false), false, 1, None),
    (40, false, None, false, 2, None),
    (62, false, Some(false), true, 10, Some(1)),
    (183, true, Some(false), false, 258, Some(257)),
];

impl File {
    /// An object file whose numbers are left to the linker. `way`, 0: the relocations refer to the sections; 1: to symbols
    /// in them, and the numbers that do not matter are no zeros; 2: as 1, and the tables come before the sections.
    /// None: the machine has no such relocation.
    pub fn relocatable(&self, s: &Sections, machine: usize, way: usize) -> Option<Vec<u8>> {
        let (mach, class64, order, rela, r4, r8) = MACHINES[machine];
        if class64 != self.class64 || order.map_or(false, |b| b != self.big) {
            return None;
        }
        let c = self.class64;
        let w = if c { 8 } else { 4 };
        let (eh, sh) = if c { (64, 64) } else { (52, 40) };
        let k = s.v.len();
        let rels: Vec<usize> = (0..k).filter(|&i| !s.marks[i].is_empty()).collect();
        // positions of the section headers after the empty one
        let (first, first_rel) = if way == 2 { (rels.len() + 2, 0) } else { (0, k) };
        let (symtab, strtab) = if way == 2 { (rels.len(), rels.len() + 1) } else { (k + rels.len(), k + rels.len() + 1) };
        let symval = |i: usize| if way == 0 { 0 } else { 0x20 + 8 * i as u64 };
        let mut all: Vec<(String, u32, Vec<u8>, usize, usize, u64)> = vec![(String::new(), 0, vec![], 0, 0, 0); k + rels.len() + 3];
        for (i, (n, b)) in s.v.iter().enumerate() {
            all[first + i] = (n.to_string(), 1, b.clone(), 0, 0, 0);
        }
        for (j, &i) in rels.iter().enumerate() {
            let mut o = Buf::new(self.big);
            for m in &s.marks[i] {
                let target = s.v.iter().position(|x| x.0 == m.target).expect("harness: target of a relocation");
                let ty = match m.size {
                    4 => r4,
                    8 => r8?,
                    _ => return None,
                };
                let (sym, value) = (if way == 0 { 1 + target } else { 1 + k + target } as u64, m.value.wrapping_sub(symval(target)));
                o.n(m.at as u64, w);
                o.n(if c { sym << 32 | ty } else { sym << 8 | ty }, w);
                let place = if rela {
                    o.n(value, w);
                    if way == 0 { 0 } else { 0x5a5a_5a5a_5a5a_5a5a }
                } else {
                    value
                };
                let mut p = Buf::new(self.big);
                p.n(place, m.size);
                all[first + i].2[m.at..m.at + m.size].copy_from_slice(&p.b);
            }
            let name = format!("{}{}", if rela { ".rela" } else { ".rel" }, s.v[i].0);
            all[first_rel + j] = (name, if rela { 4 } else { 9 }, o.b, symtab + 1, first + i + 1, if rela { 3 * w as u64 } else { 2 * w as u64 });
        }
        let mut o = Buf::new(self.big);
        for i in 0..1 + 2 * k {
            let (info, section, value) = match i {
                0 => (0, 0, 0),
                i if i <= k => (3, first + i, 0),
                i => (0, first + i - k, symval(i - k - 1)),
            };
            if c {
                o.n(0, 4);
                o.n(info, 1);
                o.n(0, 1);
                o.n(section as u64, 2);
                o.n(value, 8);
                o.n(0, 8);
            } else {
                o.n(0, 4);
                o.n(value, 4);
                o.n(0, 4);
                o.n(info, 1);
                o.n(0, 1);
                o.n(section as u64, 2);
            }
        }
        all[symtab] = (".symtab".into(), 2, o.b, strtab + 1, 1 + 2 * k, if c { 24 } else { 16 });
        all[strtab] = (".strtab".into(), 3, vec![0], 0, 0, 0);
        let mut names = vec![0u8];
        let mut at_name = vec![];
        let last = all.len() - 1;
        all[last].0 = ".shstrtab".into();
        all[last].1 = 3;
        for x in &all {
            at_name.push(names.len());
            names.extend(x.0.bytes());
            names.push(0);
        }
        all[last].2 = names;
        let mut body = vec![];
        let mut at = vec![];
        for x in &all {
            while body.len() % 8 != 0 {
                body.push(0);
            }
            at.push(eh + body.len());
            body.extend(&x.2);
        }
        while (eh + body.len()) % 8 != 0 {
            body.push(0);
        }
        let mut o = Buf::new(self.big);
        o.b.extend([0x7f, b'E', b'L', b'F', if c { 2 } else { 1 }, if self.big { 2 } else { 1 }, 1, 0]);
        o.b.extend([0; 8]);
        o.n(1, 2);
        o.n(u64::from(mach), 2);
        o.n(1, 4);
        o.n(0, w);
        o.n(0, w);
        o.n((eh + body.len()) as u64, w);
        o.n(0, 4);
        o.n(eh as u64, 2);
        o.n(0, 2);
        o.n(0, 2);
        o.n(sh as u64, 2);
        o.n(all.len() as u64 + 1, 2);
        o.n(all.len() as u64, 2);
        assert_eq!(o.len(), eh, "harness: ELF header");
        o.b.extend(body);
        o.b.extend(vec![0; sh]);
        for (i, (_, ty, b, link, info, entry)) in all.iter().enumerate() {
            o.n(at_name[i] as u64, 4);
            o.n(u64::from(*ty), 4);
            o.n(0, w);
            o.n(0, w);
            o.n(at[i] as u64, w);
            o.n(b.len() as u64, w);
            o.n(*link as u64, 4);
            o.n(*info as u64, 4);
            o.n(1, w);
            o.n(*entry, w);
        }
        Some(o.b)
    }
}

/// A zlib stream of stored blocks.
pub fn zlib(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 1];
    let mut rest = b;
    loop {
        let n = rest.len().min(0xffff);
        o.push((n == rest.len()) as u8);
        o.extend((n as u16).to_le_bytes());
        o.extend((!(n as u16)).to_le_bytes());
        o.extend(&rest[..n]);
        rest = &rest[n..];
        if rest.is_empty() {
            break;
        }
    }
    let (mut x, mut y) = (1u32, 0u32);
    for v in b {
        x = (x + u32::from(*v)) % 65521;
        y = (y + x) % 65521;
    }
    o.extend((y << 16 | x).to_be_bytes());
    o
}

// ---------------------------------------------------------------- parsing

struct Mem {
    f: std::fs::File,
    path: String,
}

thread_local! {
    static MEM: RefCell<Option<Mem>> = const { RefCell::new(None) };
}

/// Reads the bytes as a file without a name.
pub fn read_as(data: &[u8], mode: ParseMode) -> anyhow::Result<Items> {
    use std::os::unix::io::{AsRawFd, FromRawFd};
    MEM.with(|m| {
        let mut m = m.borrow_mut();
        let m = m.get_or_insert_with(|| {
            let fd = unsafe { libc::memfd_create(c"mc".as_ptr() as *const libc::c_char, libc::MFD_CLOEXEC) };
            assert!(fd >= 0, "harness: memfd");
            let f = unsafe { std::fs::File::from_raw_fd(fd) };
            let path = format!("/proc/self/fd/{}", f.as_raw_fd());
            Mem { f, path }
        });
        use std::io::Seek;
        m.f.set_len(0).expect("harness: memfd");
        m.f.rewind().expect("harness: memfd");
        m.f.write_all(data).expect("harness: memfd");
        twiggy_parser::read_and_parse(&m.path, mode)
    })
}

// ---------------------------------------------------------------- the reference

/// Number of code bytes of a list; Err if it is inconsistent.
fn list_size(l: &[Re], u: &Unit) -> Result<u64, String> {
    let mut base = u.low.unwrap_or(0);
    let mut sum = 0u128;
    let m = mask(u.addr);
    for e in l {
        let (b, e) = match e {
            Re::Base(x) | Re::Basex(x) => {
                base = *x;
                continue;
            }
            Re::Pair(x, y) => (base.wrapping_add(*x) & m, base.wrapping_add(*y) & m),
            Re::StartEnd(x, y) | Re::StartxEndx(x, y) => (*x, *y),
            Re::StartLen(x, y) | Re::StartxLen(x, y) => (*x, x.wrapping_add(*y) & m),
        };
        if b > e {
            return Err("range ends before it begins".into());
        }
        sum += u128::from(e - b);
    }
    u64::try_from(sum).map_err(|_| "too large".into())
}

/// None: no range. Some(Err): inconsistent.
fn size_of(d: &Die, u: &Unit) -> Option<Result<u32, String>> {
    let get = |at: u16| d.attrs.iter().find(|a| a.0 == at);
    if let (Some((_, _, Val::U(low))), Some((_, form, Val::U(high)))) = (get(AT_LOW), get(AT_HIGH)) {
        let addr = matches!(*form, F_ADDR | F_INDIRECT) || ADDRX.contains(form);
        let size = if !addr {
            if (*form == F_SDATA || *form == F_IMPLICIT) && (*high as i64) < 0 {
                return Some(Err("negative".into()));
            }
            *high
        } else if low & mask(u.addr) > high & mask(u.addr) {
            return Some(Err("end before begin".into()));
        } else {
            (high & mask(u.addr)) - (low & mask(u.addr))
        };
        return Some(u32::try_from(size).map_err(|_| "too large".into()));
    }
    if let Some((_, _, v)) = get(AT_RANGES) {
        return Some(match v {
            Val::R(l) => list_size(l, u).and_then(|s| u32::try_from(s).map_err(|_| "too large".into())),
            _ => Err("no such list".into()),
        });
    }
    None
}

fn shown(s: &[u8]) -> String {
    match s {
        b"_ZN3foo3barE" => "foo::bar".into(),
        b"_Z1fi" => "f(int)".into(),
        s => String::from_utf8_lossy(s).into_owned(),
    }
}

#[derive(Debug)]
struct Want {
    /// name (None: placeholder), size, may be missing
    items: Vec<(Option<String>, u32, bool)>,
    /// the file must be refused
    error: Option<String>,
}

fn want(f: &File) -> Want {
    fn walk(d: &Die, u: &Unit, w: &mut Want) {
        if d.tag == SUB {
            match size_of(d, u) {
                None => {}
                Some(Err(e)) => w.error = Some(e),
                Some(Ok(n)) => {
                    let get = |at: u16| {
                        d.attrs.iter().find(|a| a.0 == at).and_then(|a| match &a.2 {
                            Val::S(s) => Some(shown(s)),
                            _ => None,
                        })
                    };
                    // an empty range list is a matter of taste
                    let maybe = n == 0 && d.attrs.iter().any(|a| a.0 == AT_RANGES);
                    w.items.push((get(AT_LINKAGE).or_else(|| get(AT_MIPS_LINKAGE)).or_else(|| get(AT_NAME)), n, maybe));
                }
            }
        }
        for k in &d.kids {
            walk(k, u, w);
        }
    }
    let mut w = Want { items: vec![], error: None };
    for u in &f.units {
        for d in &u.kids {
            walk(d, u, &mut w);
        }
    }
    if w.items.iter().map(|x| u64::from(x.1)).sum::<u64>() > u64::from(u32::MAX) {
        w.error.get_or_insert_with(|| "too large together".into());
    }
    w
}

fn judge(f: &File, c: &Case) -> Result<(), String> {
    judge_packed(f, 0, c)
}

fn judge_packed(f: &File, pack: u8, c: &Case) -> Result<(), String> {
    judge_bytes(f, f.wrap_packed(&f.sections(), pack), c)
}

fn judge_bytes(f: &File, data: Vec<u8>, c: &Case) -> Result<(), String> {
    let w = want(f);
    c.trace();
    let r = read_as(&data, ParseMode::Dwarf);
    let show = || {
        if data.len() > 100_000 {
            let mut d = format!("{:?}", f);
            let end = (0..=2000.min(d.len())).rev().find(|i| d.is_char_boundary(*i)).unwrap();
            d.truncate(end);
            return format!("{}...\na file of {} bytes", d, data.len());
        }
        format!("{:?}\nfile: {}", f, hex(&data))
    };
    match (r, &w.error) {
        (Err(_), Some(_)) => Ok(()),
        (Ok(i), Some(e)) => Err(format!(
            "{} but the file is accepted with items {:?}\n{}",
            e,
            i.iter().take(50).map(|x| (x.name().to_string(), x.size())).collect::<Vec<_>>(),
            show()
        )),
        (Err(e), None) => Err(format!("the file is refused: {}\n{}", e, show())),
        (Ok(i), None) => {
            if i.size() != data.len() as u32 {
                return Err(format!("the total size is {} for a file of {} bytes\n{}", i.size(), data.len(), show()));
            }
            let mut got: Vec<(String, u32)> = vec![];
            for x in i.iter() {
                if x.id() == i.meta_root() {
                    continue;
                }
                if !matches!(x.kind(), twiggy_ir::ItemKind::Code(_)) {
                    return Err(format!("{:?} is no code\n{}", x.name(), show()));
                }
                got.push((x.name().to_string(), x.size()));
            }
            let fail = |got: &[(String, u32)], e: String| {
                Err(format!("{}\n{} items {:?}\nexpected {} {:?}\n{}", e, got.len(), &got[..got.len().min(50)], w.items.len(), &w.items[..w.items.len().min(50)], show()))
            };
            // the named ones, then the placeholders by size
            let mut count: HashMap<(&str, u32), usize> = HashMap::new();
            for (n, s, maybe) in &w.items {
                if let Some(n) = n {
                    *count.entry((n, *s)).or_default() += !*maybe as usize;
                }
            }
            let mut rest: Vec<(String, u32)> = vec![];
            for g in &got {
                match count.get_mut(&(g.0.as_str(), g.1)) {
                    Some(k) if *k > 0 => *k -= 1,
                    _ => rest.push(g.clone()),
                }
            }
            if let Some(((n, s), _)) = count.iter().find(|x| *x.1 > 0) {
                return fail(&got, format!("no item {:?} of size {}", n, s));
            }
            for (n, s, maybe) in &w.items {
                if let (Some(n), true) = (n, maybe) {
                    if let Some(k) = rest.iter().position(|g| g.0 == *n && g.1 == *s) {
                        rest.remove(k);
                    }
                }
            }
            let mut sizes: Vec<u32> = w.items.iter().filter(|x| x.0.is_none() && !x.2).map(|x| x.1).collect();
            let mut have: Vec<u32> = rest.iter().map(|x| x.1).collect();
            if w.items.iter().any(|x| x.0.is_none() && x.2) {
                sizes.retain(|s| *s != 0);
                have.retain(|s| *s != 0);
            }
            sizes.sort_unstable();
            have.sort_unstable();
            if sizes != have {
                return fail(&got, "the remaining items do not match the entries without a name".into());
            }
            let mut seen = HashSet::new();
            if !rest.iter().all(|x| !x.0.is_empty() && seen.insert(&x.0)) {
                return fail(&got, "placeholders are empty or not distinct".into());
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- fixed small files for other checks

/// Functions of the given sizes, the first `split` of them in a unit of their own.
fn sized_file(sizes: &[u64], split: usize, version: u16) -> File {
    let mut f = File { class64: true, big: false, units: vec![] };
    for part in [&sizes[..split], &sizes[split..]] {
        let mut u = Unit::new(version);
        u.kids = part.iter().enumerate().map(|(i, s)| Die::new(SUB).name(&format!("f{}", i % 2)).pc(0x1000 * i as u64, *s)).collect();
        f.units.push(u);
    }
    f
}

pub fn sized(sizes: &[u64], split: usize) -> Vec<u8> {
    sized_file(sizes, split, 4).bytes()
}

/// Sizes whose sums are around the limits of 32 bit numbers.
pub const SIZES: [u64; 8] = [0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff];

fn tiny_file(v: usize) -> File {
    let mut u = Unit::new(4);
    u.kids = vec![
        Die::new(SUB).name("main").pc(0x1000, 20 + v as u64),
        Die::new(SUB).name("g<int>").pc(0x2000, 7),
        Die::new(SUB).name("declared").at(AT_DECL, F_PRESENT, Val::U(0)),
    ];
    File { class64: true, big: false, units: vec![u] }
}

pub fn tiny(v: usize) -> Vec<u8> {
    tiny_file(v).bytes()
}

pub fn tiny_sections(v: usize) -> Sections {
    tiny_file(v).sections()
}

/// A small object file with relocations for a 64 bit (0, 1) or 32 bit (2..) machine.
pub fn tiny_relocatable(machine: usize, way: usize) -> Vec<u8> {
    let mut f = tiny_file(1);
    f.class64 = MACHINES[machine].1;
    if !f.class64 {
        f.units[0].addr = 4;
    }
    f.units[0].kids[0].attrs[0].1 = F_STRP;
    f.relocatable(&f.sections(), machine, way).expect("harness: relocatable")
}

/// An ELF file with functions of 10, 20, ... bytes by these linkage names, read.
pub fn named_functions(names: &[&str]) -> anyhow::Result<Items> {
    let mut u = Unit::new(4);
    for (i, n) in names.iter().enumerate() {
        let k = 10 * (i as u64 + 1);
        u.kids.push(Die::new(SUB).at(AT_LINKAGE, F_STRING, Val::S(n.as_bytes().to_vec())).name("source").pc(0x1000 * k, k));
    }
    read_as(&File { class64: true, big: false, units: vec![u] }.bytes(), ParseMode::Dwarf)
}

/// Functions nested in each other, `n` deep.
pub fn nested(n: usize) -> Vec<u8> {
    let mut d = Die::new(SUB).name("innermost").pc(1, 1);
    for i in 0..n {
        let mut o = Die::new(SUB).name("f").pc(i as u64, 1);
        o.kids = vec![d];
        d = o;
    }
    let mut u = Unit::new(4);
    u.kids = vec![d];
    File { class64: true, big: false, units: vec![u] }.bytes()
}

/// The same entries as DWARF sections for a 32 bit little endian target.
pub fn tiny_wasm(v: usize) -> Sections {
    let mut f = tiny_file(v);
    f.units[0].addr = 4;
    f.class64 = false;
    f.sections()
}

/// The items in `tiny(v)`, built by hand.
pub fn tiny_items(v: usize) -> Items {
    use twiggy_ir::{Code, Id, Item, ItemsBuilder};
    let mut b = ItemsBuilder::new(tiny(v).len() as u32);
    b.add_item(Item::new(Id::entry(0, 0), "main", 20 + v as u32, Code::new("main")));
    b.add_item(Item::new(Id::entry(0, 1), "g<int>", 7, Code::new("g<int>")));
    b.finish()
}

// ---------------------------------------------------------------- C20

const CFGS: usize = 4 * 2 * 2 * 2 * 2;

/// All combinations of version, class, byte order, offset size and address size.
fn cfg(i: usize) -> (File, Unit) {
    let version = 2 + (i % 4) as u16;
    let (class64, big, fmt64, a8) = (i / 4 % 2 == 0, i / 8 % 2 == 1, i / 16 % 2 == 1, i / 32 % 2 == 0);
    let mut u = Unit::new(version);
    u.fmt64 = fmt64;
    u.addr = if a8 { 8 } else { 4 };
    (File { class64, big, units: vec![] }, u)
}

fn rng_form(u: &Unit) -> u16 {
    if u.version >= 4 {
        F_SECOFF
    } else if u.fmt64 {
        F_DATA8
    } else {
        F_DATA4
    }
}

/// Every way to give the entry the code range of `n` bytes at `low`.
fn range_ways(u: &Unit) -> Vec<&'static str> {
    let mut v = vec!["none", "low", "high-addr", "ranges", "ranges+low", "two-ranges", "high-only", "indirect"];
    if u.version >= 4 {
        v.extend(["data1", "data2", "data4", "data8", "udata", "sdata"]);
    }
    if u.version >= 5 {
        v.extend([
            "implicit", "addrx", "addrx+data4", "addrx1", "addrx2", "addrx3", "addrx4", "addr+addrx", "rnglistx", "start-end", "start-length", "startx-endx", "startx-length",
            "basex",
        ]);
    }
    v
}

fn ranged(d: Die, u: &Unit, way: &str, low: u64, n: u64) -> Die {
    let rf = rng_form(u);
    let lo = |d: Die| d.at(AT_LOW, F_ADDR, Val::U(low));
    let list = |d: Die, f: u16, l: Vec<Re>| d.at(AT_RANGES, f, Val::R(l));
    let base = u.low.unwrap_or(0);
    match way {
        "none" => d,
        "low" => lo(d),
        "high-addr" => lo(d).at(AT_HIGH, F_ADDR, Val::U(low + n)),
        "indirect" => d.at(AT_LOW, F_INDIRECT, Val::U(low)).at(AT_HIGH, F_INDIRECT, Val::U(low + n)),
        "high-only" => d.at(AT_HIGH, F_ADDR, Val::U(low + n)),
        "ranges" => list(d, rf, vec![Re::Pair(low - base, low - base + n)]),
        "ranges+low" => list(lo(d), rf, vec![Re::Base(low), Re::Pair(0, n)]),
        "two-ranges" => list(d, rf, vec![Re::Base(low), Re::Pair(0, n - n / 3), Re::Base(low + 0x100), Re::Pair(4, 4 + n / 3)]),
        "data1" => lo(d).at(AT_HIGH, F_DATA1, Val::U(n)),
        "data2" => lo(d).at(AT_HIGH, F_DATA2, Val::U(n)),
        "data4" => lo(d).at(AT_HIGH, F_DATA4, Val::U(n)),
        "data8" => lo(d).at(AT_HIGH, F_DATA8, Val::U(n)),
        "udata" => lo(d).at(AT_HIGH, F_UDATA, Val::U(n)),
        "sdata" => lo(d).at(AT_HIGH, F_SDATA, Val::U(n)),
        "implicit" => lo(d).at(AT_HIGH, F_IMPLICIT, Val::U(n)),
        "addrx" => d.at(AT_LOW, F_ADDRX, Val::U(low)).at(AT_HIGH, F_ADDRX, Val::U(low + n)),
        "addrx+data4" => d.at(AT_LOW, F_ADDRX, Val::U(low)).at(AT_HIGH, F_DATA4, Val::U(n)),
        "addrx1" => d.at(AT_HIGH, F_UDATA, Val::U(n)).at(AT_LOW, F_ADDRX1, Val::U(low)),
        "addrx2" => d.at(AT_LOW, 0x2a, Val::U(low)).at(AT_HIGH, 0x2a, Val::U(low + n)),
        "addrx3" => d.at(AT_LOW, 0x2b, Val::U(low)).at(AT_HIGH, F_DATA4, Val::U(n)),
        "addrx4" => d.at(AT_LOW, 0x2c, Val::U(low)).at(AT_HIGH, 0x2b, Val::U(low + n)),
        "addr+addrx" => lo(d).at(AT_HIGH, F_ADDRX, Val::U(low + n)),
        "rnglistx" => list(d, F_RNGX, vec![Re::Base(low), Re::Pair(0, n)]),
        "start-end" => list(d, rf, vec![Re::StartEnd(low, low + n)]),
        "start-length" => list(d, rf, vec![Re::StartLen(low, n)]),
        "startx-endx" => list(d, F_RNGX, vec![Re::StartxEndx(low, low + n)]),
        "startx-length" => list(d, rf, vec![Re::StartxLen(low, n)]),
        "basex" => list(d, F_RNGX, vec![Re::Basex(low), Re::Pair(0, n)]),
        _ => panic!("harness: {}", way),
    }
}

const NAMES: [&str; 6] = ["alpha", "ns::f<int>", "", "_ZN3foo3barE", "_Z1fi", "gr\u{fc}n"];

fn name_forms(u: &Unit) -> Vec<u16> {
    let mut v = vec![F_STRING, F_STRP];
    if u.version >= 5 {
        v.push(F_LINESTRP);
        v.extend(STRX);
    }
    v
}

pub fn c20(tier: Tier) -> Check {
    let forms = fam(
        "forms",
        "versions 2-5 x ELF class x byte order x DWARF offset size x address size x every way to give a range (constants of every form, addresses, address indices, range lists of every entry kind) x size x unit with or without base address; next to a declaration and a second function",
        |ch, c| {
            let (mut f, mut u) = cfg(ch.pick(CFGS));
            if ch.flag() {
                u.low = Some(0x400);
            }
            let ways = range_ways(&u);
            let way = *ch.of(&ways);
            let n = *ch.of(&[1u64, 100, 127]);
            let first = ch.flag();
            let a = ranged(Die::new(SUB).name("a"), &u, way, 0x1000, n);
            let a = if first { a } else { Die { attrs: a.attrs.into_iter().rev().collect(), ..a } };
            u.kids = vec![Die::new(SUB).name("decl").at(AT_DECL, F_PRESENT, Val::U(0)), a, Die::new(SUB).name("z").pc(0x10, 5)];
            if u.version < 4 {
                u.kids[0].attrs.pop();
            }
            f.units.push(u);
            c.state(&f);
            c.sample(|| format!("{:?} {}", f, way));
            c.nontrivial();
            judge(&f, c)
        },
    );
    let mach = fam(
        "mach-o",
        "the same grid in Mach-O files, as objects (one segment without a name) and as executables (the sections in a segment of their own), whose section names are cut to 16 bytes",
        |ch, c| {
            let (mut f, mut u) = cfg(ch.pick(CFGS));
            let exec = ch.flag();
            let ways = range_ways(&u);
            let way = *ch.of(&ways);
            let name = *ch.of(&name_forms(&u));
            let a = Die::new(SUB).at(AT_NAME, name, Val::S(b"a".to_vec()));
            u.kids = vec![ranged(a, &u, way, 0x1000, 100), Die::new(SUB).name("z").pc(0x10, 5)];
            f.units.push(u);
            c.state(&(exec, &f));
            c.sample(|| format!("{} {:?} {}", exec, f.units[0].kids[0], way));
            c.nontrivial();
            judge_bytes(&f, super::objects::macho(&f.sections(), f.class64, f.big, exec), c)
        },
    );
    let coff = fam(
        "pe-coff",
        "the same grid, as far as its byte order is little, in COFF objects and in PE images (sections filled up in the file), 32 and 64 bit, whose section names stand in the string table",
        |ch, c| {
            let (mut f, mut u) = cfg(ch.pick(CFGS));
            let image = ch.flag();
            if f.big {
                return Ok(());
            }
            let ways = range_ways(&u);
            let way = *ch.of(&ways);
            let name = *ch.of(&name_forms(&u));
            let a = Die::new(SUB).at(AT_NAME, name, Val::S(b"a".to_vec()));
            u.kids = vec![ranged(a, &u, way, 0x1000, 100), Die::new(SUB).name("z").pc(0x10, 5)];
            f.units.push(u);
            c.state(&(image, &f));
            c.sample(|| format!("{} {:?} {}", image, f.units[0].kids[0], way));
            c.nontrivial();
            judge_bytes(&f, super::objects::coff(&f.sections(), f.class64, image), c)
        },
    );
    let reloc = fam(
        "relocatable",
        "the same grid in object files whose offsets and addresses are left to relocations (x86-64, x32, i386, ARM, AArch64 of both byte orders; addends in the relocations or in place; section symbols or symbols with a value; tables before or after the sections; the units in one section or in one each)",
        |ch, c| {
            let (mut f, mut u) = cfg(ch.pick(CFGS));
            let machine = ch.pick(MACHINES.len());
            let way = ch.pick(3);
            let ways = range_ways(&u);
            let how = *ch.of(&ways);
            let name = *ch.of(&name_forms(&u));
            let a = Die::new(SUB).at(AT_NAME, name, Val::S(b"a".to_vec()));
            u.kids = vec![ranged(a, &u, how, 0x1000, 100), Die::new(SUB).at(AT_LINKAGE, F_STRP, Val::S(b"z".to_vec())).pc(0x10, 5)];
            f.units.push(u.clone());
            f.units.push(u);
            let apart = ch.flag();
            let sections = if apart { f.sections().apart(&f) } else { f.sections() };
            let data = match f.relocatable(&sections, machine, way) {
                Some(d) => d,
                None => return Ok(()),
            };
            c.state(&(machine, way, apart, &f));
            c.sample(|| format!("{} {} {} {:?} {:?}", machine, way, apart, f.units[0].kids[0], how));
            c.nontrivial();
            judge_bytes(&f, data, c)
        },
    );
    let packed = fam(
        "compressed",
        "files whose debugging sections are compressed, with a compression header or in the older GNU form: versions 2-5 x class x byte order x offset size x address size x every way to give a range x strings inline or in the string section",
        |ch, c| {
            let (mut f, mut u) = cfg(ch.pick(CFGS));
            let pack = 1 + ch.pick(2) as u8;
            let ways = range_ways(&u);
            let way = *ch.of(&ways);
            let name = *ch.of(&[F_STRING, F_STRP]);
            let long = if ch.flag() { "a".repeat(70000) } else { "a".into() };
            let a = Die::new(SUB).at(AT_NAME, name, Val::S(long.into_bytes()));
            u.kids = vec![ranged(a, &u, way, 0x1000, 100), Die::new(SUB).name("z").pc(0x10, 5)];
            f.units.push(u);
            c.state(&(pack, &f));
            c.sample(|| format!("{} {:?} {}", pack, f.units[0].kids[1], way));
            c.nontrivial();
            judge_packed(&f, pack, c)
        },
    );
    let names = fam(
        "names",
        "versions 2-5 x class x order x offset size x address size x every string form x 6 names, the linkage name (by either attribute) and the source name present or absent in either order, two functions",
        |ch, c| {
            let (mut f, mut u) = cfg(ch.pick(CFGS));
            let forms = name_forms(&u);
            let fm = *ch.of(&forms);
            let s = |i: usize| Val::S(NAMES[i].as_bytes().to_vec());
            let n1 = ch.pick(NAMES.len());
            let mut a = Die::new(SUB);
            let linkage = if ch.flag() { AT_MIPS_LINKAGE } else { AT_LINKAGE };
            match ch.pick(6) {
                0 => {}
                1 => a = a.at(AT_NAME, fm, s(n1)),
                2 => a = a.at(linkage, fm, s(n1)),
                3 => a = a.at(AT_NAME, fm, s((n1 + 1) % 6)).at(linkage, F_STRP, s(n1)),
                4 => a = a.at(linkage, fm, s(n1)).at(AT_NAME, fm, s((n1 + 2) % 6)),
                _ => a = a.at(AT_MIPS_LINKAGE, fm, s((n1 + 1) % 6)).at(AT_NAME, fm, s((n1 + 2) % 6)).at(AT_LINKAGE, fm, s(n1)),
            }
            let second = ch.flag();
            u.kids = vec![a.pc(0x20, 9)];
            if second {
                let mut b = u.kids[0].clone();
                b.attrs.retain(|x| x.0 != linkage);
                u.kids.push(b);
            }
            f.units.push(u);
            c.state(&f);
            c.sample(|| format!("{:?}", f));
            c.nontrivial();
            judge(&f, c)
        },
    );
    let n = tier.pick(4, 5);
    let trees = fam(
        "trees",
        format!("all trees of up to {} entries, each a function with a range, a function with a range list, a declaration, a block or inlined call with a range, or a namespace, with or without a name", n),
        move |ch, c| {
            let (mut f, mut u) = cfg([2, 3][ch.pick(2)]);
            let k = ch.range(0, n);
            // parents in preorder: the parent of entry i is i-1 or one of its ancestors
            let mut parent: Vec<Option<usize>> = vec![];
            for i in 0..k {
                let mut anc = vec![None];
                if i > 0 {
                    let mut x = Some(i - 1);
                    let mut chain = vec![];
                    while let Some(j) = x {
                        chain.push(Some(j));
                        x = parent[j];
                    }
                    anc.extend(chain);
                }
                parent.push(*ch.of(&anc));
            }
            let mut dies: Vec<Die> = vec![];
            for i in 0..k {
                let low = 0x100 * (i as u64 + 1);
                let size = 3 << (2 * i);
                let d = match ch.pick(7) {
                    0 => Die::new(SUB).name(&format!("f{}", i)).pc(low, size),
                    1 => Die::new(SUB).pc(low, size),
                    2 => Die::new(SUB).name(&format!("d{}", i)),
                    3 => Die::new(0x0b).pc(low, size),
                    4 => Die::new(0x39).name("ns"),
                    5 => ranged(Die::new(SUB).name(&format!("r{}", i)), &u, "two-ranges", low, size),
                    _ => ranged(Die::new(0x1d), &u, "ranges", low, size).name("inl"),
                };
                dies.push(d);
            }
            for i in (0..k).rev() {
                let d = dies[i].clone();
                match parent[i] {
                    Some(p) => dies[p].kids.insert(0, d),
                    None => u.kids.insert(0, d),
                }
            }
            f.units.push(u);
            c.state(&f);
            c.sample(|| format!("{:?}", f.units[0].kids));
            if parent.iter().any(|p| p.is_some()) {
                c.nontrivial();
            }
            judge(&f, c)
        },
    );
    let attrs = fam(
        "attributes",
        "a function with another attribute of every form of versions 2-5 (blocks of every length form, references, indices, flags, constants of up to 16 bytes, expressions, signatures, offsets into a supplementary file), before, between or after its own ones, in each of these ways to give a range: addresses, a length, a list; the attribute repeated with every known number; x ELF class, byte order, offset and address size",
        |ch, c| {
            let (mut f, mut u) = cfg(ch.pick(CFGS));
            let o = off(u.fmt64);
            let all: [(u16, u16, Vec<u8>); 34] = [
                (0x0a, 2, vec![3, 1, 2, 3]),
                (0x03, 2, if f.big { vec![0, 2, 0, 0] } else { vec![2, 0, 0, 0] }),
                (0x04, 2, if f.big { vec![0, 0, 0, 1, 7] } else { vec![1, 0, 0, 0, 7] }),
                (0x09, 2, vec![0x82, 0, 5, 6]),
                (0x18, 4, vec![1, 0x9c]),
                (0x0c, 2, vec![1]),
                (0x19, 4, vec![]),
                (0x11, 2, vec![11]),
                (0x12, 2, vec![11, 0]),
                (0x13, 2, vec![11, 0, 0, 0]),
                (0x14, 2, vec![11, 0, 0, 0, 0, 0, 0, 0]),
                (0x15, 2, vec![0x8b, 0]),
                (0x10, 3, vec![1; o]),
                (0x20, 4, vec![9; 8]),
                (0x0b, 2, vec![200]),
                (0x05, 2, vec![1, 2]),
                (0x06, 2, vec![1, 2, 3, 4]),
                (0x07, 2, vec![1, 2, 3, 4, 5, 6, 7, 8]),
                (0x1e, 5, vec![0xff; 16]),
                (0x0d, 2, vec![0x80, 0x7f]),
                (0x0f, 2, vec![0xff, 0xff, 3]),
                (0x08, 2, b"text\0".to_vec()),
                (0x0e, 2, vec![0; o]),
                (0x1f, 5, vec![0; o]),
                (0x17, 4, vec![0; o]),
                (0x1a, 5, vec![0]),
                (0x26, 5, vec![0, 0]),
                (0x1b, 5, vec![0]),
                (0x22, 5, vec![0]),
                (0x23, 5, vec![0]),
                (0x1d, 5, vec![4; o]),
                (0x1c, 5, vec![4; 4]),
                (0x24, 5, vec![4; 8]),
                (0x01, 2, vec![1; u.addr as usize]),
            ];
            // sibling, location, byte size, type, artificial, specification, declaration, abstract origin, a vendor's
            let numbers = [0x01u16, 0x02, 0x0b, 0x49, 0x34, 0x47, 0x3c, 0x31, 0x2116, 0x3fe7, 0x1fff];
            let known: Vec<_> = all.iter().filter(|x| x.1 <= u.version).collect();
            let (form, _, bytes) = *ch.of(&known);
            let number = *ch.of(&numbers);
            let way = *ch.of(if u.version >= 4 { &["high-addr", "data4", "ranges", "none"][..] } else { &["high-addr", "ranges", "none"] });
            u.abbrevs = 1;
            let mut d = ranged(Die::new(SUB).name("a"), &u, way, 0x1000, 77);
            let at = ch.range(0, d.attrs.len());
            d.attrs.insert(at, (number, *form, Val::B(bytes.clone())));
            let mut other = Die::new(0x34);
            other.attrs.push(d.attrs[at].clone());
            u.kids = vec![d.clone(), other, d, Die::new(SUB).name("z").pc(0x10, 5)];
            f.units.push(u);
            c.state(&f);
            c.sample(|| format!("{:?}", f.units[0].kids[0]));
            c.nontrivial();
            judge(&f, c)
        },
    );
    let tables = fam(
        "abbreviations",
        "all pairs of units of version 4 or 5 with functions in three shapes, each unit with an abbreviation for every entry, with shared ones, with codes that are no sequence, or with a table shared by both units; class and byte order",
        |ch, c| {
            let mut f = File { class64: ch.flag(), big: ch.flag(), units: vec![] };
            for i in 0..3u64 {
                let mut u = Unit::new(*ch.of(&[4, 5]));
                u.abbrevs = ch.pick(4) as u8;
                let fun = |k: u64| Die::new(SUB).name(&format!("f{}", k % 2)).pc(0x100 * (i + 1), 1 + k + 10 * i);
                u.kids = match ch.pick(3) {
                    0 => vec![fun(0), fun(1), fun(2)],
                    1 => {
                        let mut a = fun(3);
                        a.kids = vec![fun(4), Die::new(0x0b).pc(1, 1)];
                        vec![a, fun(5)]
                    }
                    _ => vec![Die::new(SUB).pc(0x30, 9 + i), Die::new(SUB).name("f0")],
                };
                f.units.push(u);
            }
            c.state(&f);
            c.sample(|| format!("{:?}", f));
            c.nontrivial();
            judge(&f, c)
        },
    );
    let many = fam(
        "many",
        "sizes to 4096 and around 2^16: functions, other entries before a function, units, entries of a range list, characters of a name, attributes of an entry, bytes of a block, sections of the file; levels of nesting to 4097; versions 4 and 5",
        |ch, c| {
            let (mut f, mut u) = cfg([2, 3][ch.pick(2)]);
            let n = *ch.of(&[0usize, 1, 2, 10, 127, 128, 129, 200, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65268, 65269, 65535, 65536, 65537]);
            u.abbrevs = 1 + ch.pick(2) as u8;
            let last = Die::new(SUB).name("last").pc(0x10, 5);
            let fun = |i: usize| Die::new(SUB).name(&format!("f{}", i)).pc(16 * i as u64, 1 + i as u64 % 9);
            let shape = ch.pick(9);
            c.state(&(u.version, u.abbrevs, n, shape));
            c.sample(|| format!("{} {} {}", u.version, n, shape));
            c.nontrivial();
            match shape {
                0 => u.kids = (0..n).map(fun).collect(),
                1 => u.kids = (0..n).map(|i| Die::new(0x24).name(["int", "u8"][i % 2])).chain([fun(1), last]).collect(),
                2 => {
                    let mut d = fun(2);
                    for i in 0..n.min(4097) {
                        let mut o = Die::new([0x39, 0x0b, SUB][i % 3]);
                        o.kids = vec![d];
                        if i % 100 == 1 {
                            o.kids.push(fun(i));
                        }
                        d = o;
                    }
                    u.kids = vec![d, last];
                }
                3 => {
                    for i in 0..n {
                        let mut v = u.clone();
                        v.kids = vec![fun(i)];
                        f.units.push(v);
                    }
                    u.kids = vec![last];
                }
                4 => {
                    let d = Die::new(SUB).name("f");
                    let l = (0..n as u64).map(|i| Re::Pair(0x1000 + 8 * i, 0x1001 + 8 * i)).chain([Re::Pair(1, 4)]).collect();
                    u.kids = vec![d.at(AT_RANGES, F_SECOFF, Val::R(l)), last];
                }
                5 => u.kids = vec![Die::new(SUB).name(&"n".repeat(n)).pc(1, 1), last],
                6 => {
                    let mut d = Die::new(SUB);
                    d.attrs = (0..n).map(|i| (0x3000 + (i % 4000) as u16, F_DATA1, Val::U(1))).collect();
                    u.kids = vec![d.name("f").pc(1, 3), last];
                }
                7 => {
                    let mut b = crate::wasmgen::leb(n as u64);
                    b.extend(vec![0xff; n]);
                    u.kids = vec![Die::new(SUB).at(0x40, 0x09, Val::B(b)).name("f").pc(1, 3), last];
                }
                _ => {
                    u.kids = vec![fun(3), last];
                    f.units.push(u);
                    let mut s = f.sections();
                    for _ in 0..n {
                        s.v.insert(0, (".text.f", vec![]));
                    }
                    let bytes = f.wrap(&s);
                    return judge_bytes(&f, bytes, c).map_err(|e| {
                        // The index of the section with the names then stands in the first section header.
                        if s.v.len() + 2 >= 0xff00 && e.contains("\n0 items []\n") {
                            return format!("signature=elf-extended-section-numbers\n{}", e);
                        }
                        e
                    });
                }
            }
            f.units.push(u);
            judge(&f, c)
        },
    );
    let m = tier.pick(3, 4);
    let lists = fam(
        "range-lists",
        format!("versions 3 and 5, both address sizes, with and without a unit base: all range lists of up to {} entries over every entry kind (pairs, base addresses, start and end or length, direct or by index) with empty, reversed and large ranges", m),
        move |ch, c| {
            let (mut f, mut u) = cfg([1, 3, 33, 35][ch.pick(4)]);
            if ch.flag() {
                u.low = Some(0x500);
            }
            let v5 = u.version == 5;
            let n = ch.range(0, m);
            let mut l = vec![];
            for _ in 0..n {
                let big = 0x8000_0000u64;
                let e = if v5 {
                    [
                        Re::Pair(0x10, 0x17),
                        Re::Pair(5, 5),
                        Re::Pair(9, 3),
                        Re::Base(0x2000),
                        Re::Basex(0x3000),
                        Re::StartEnd(0x40, 0x63),
                        Re::StartEnd(0x63, 0x40),
                        Re::StartLen(0x70, 11),
                        Re::StartLen(0, big),
                        Re::StartxEndx(0x900, 0x90d),
                        Re::StartxLen(0x80, 13),
                        Re::StartxEndx(0x90d, 0x900),
                    ][ch.pick(12)]
                    .clone()
                } else {
                    [
                        Re::Pair(0x10, 0x17),
                        Re::Pair(5, 5),
                        Re::Pair(9, 3),
                        Re::Base(0x2000),
                        Re::Base(0),
                        Re::Pair(0, big),
                        Re::Pair(0, 1),
                    ][ch.pick(7)]
                    .clone()
                };
                l.push(e);
            }
            let d = Die::new(SUB).name("f").at(AT_RANGES, if v5 && ch.flag() { F_RNGX } else { rng_form(&u) }, Val::R(l.clone()));
            u.kids = vec![d, Die::new(SUB).name("g").pc(0x9000, 17)];
            f.units.push(u);
            c.state(&f);
            c.sample(|| format!("{:?}", l));
            if n > 1 {
                c.nontrivial();
            }
            judge(&f, c)
        },
    );
    let values = fam(
        "values",
        "every pair of start and end (or length) from 17 boundary values of 32 and 64 bit numbers, by every direct form and through range lists; reversed, negative, too large and missing ranges are refused",
        |ch, c| {
            let (mut f, mut u) = cfg([2, 3, 34, 35][ch.pick(4)]);
            let m = mask(u.addr);
            let bs: Vec<u64> = [
                0u64,
                1,
                2,
                0x7f,
                0x80,
                0xff,
                0x100,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_fffd,
                0xffff_ffff,
                0x1_0000_0000,
                0x1_0000_0001,
                i64::MAX as u64,
                1 << 63,
                u64::MAX - 1,
                u64::MAX,
            ]
            .to_vec();
            let (low, x) = (*ch.of(&bs), *ch.of(&bs));
            let v5 = u.version == 5;
            let way = ch.pick(if v5 { 11 } else { 7 });
            let sub = Die::new(SUB).name("f");
            let lo = |d: Die| d.at(AT_LOW, F_ADDR, Val::U(low & m));
            let fits = |bits: u32| if bits == 64 { x } else { x & ((1 << bits) - 1) };
            let d = match way {
                0 => lo(sub).at(AT_HIGH, F_ADDR, Val::U(x & m)),
                1 => lo(sub).at(AT_HIGH, F_DATA4, Val::U(fits(32))),
                2 => lo(sub).at(AT_HIGH, F_DATA8, Val::U(x)),
                3 => lo(sub).at(AT_HIGH, F_UDATA, Val::U(x)),
                4 => lo(sub).at(AT_HIGH, F_SDATA, Val::U(x)),
                5 => lo(sub).at(AT_HIGH, F_DATA1, Val::U(fits(8))),
                6 => {
                    // a list that is not there
                    let far = 0x4000 + (x & 0xffff);
                    sub.at(AT_RANGES, F_SECOFF, Val::Raw(far))
                }
                7 => sub.at(AT_LOW, F_ADDRX, Val::U(low & m)).at(AT_HIGH, F_ADDRX, Val::U(x & m)),
                8 => sub.at(AT_RANGES, F_RNGX, Val::R(vec![Re::StartEnd(low & m, x & m)])),
                9 => sub.at(AT_RANGES, F_SECOFF, Val::R(vec![Re::StartEnd(1, 1u64 << 31), Re::StartEnd(low & m, x & m)])),
                _ => lo(sub).at(AT_HIGH, F_IMPLICIT, Val::U(x)),
            };
            // addresses that mean "removed" in a list
            if way >= 8 && way <= 9 && (low & m == m || low & m == m - 1) {
                return Ok(());
            }
            u.kids = vec![d];
            f.units.push(u);
            c.state(&f);
            c.sample(|| format!("{:?}", f.units[0].kids));
            c.nontrivial();
            judge(&f, c)
        },
    );
    let sums = fam(
        "sums",
        "all lists of up to 4 functions (5 thorough) with sizes of 0 to 2^32-1 around the limits of 32 bits, split into two units in every way: files with more than 2^32-1 code bytes are refused, others have exact sizes",
        move |ch, c| {
            let n = ch.range(0, tier.pick(4, 5));
            let l: Vec<u64> = (0..n).map(|_| *ch.of(&SIZES)).collect();
            let f = sized_file(&l, ch.range(0, n), [2, 3, 4, 5][ch.pick(4)]);
            c.state(&f);
            c.nontrivial();
            judge(&f, c)
        },
    );
    let units = fam(
        "units",
        "all sequences of up to 3 units (4 thorough), each of version 2-5, 32 or 64 bit, compile, partial or type unit, empty, with one or with two functions (one nested); ELF class and byte order",
        move |ch, c| {
            let n = ch.range(0, tier.pick(3, 4));
            let mut f = File { class64: ch.flag(), big: ch.flag(), units: vec![] };
            for i in 0..n {
                let (version, kind) = *ch.of(&[(2, 1), (3, 1), (4, 1), (5, 1), (5, 3), (5, 2)]);
                let mut u = Unit::new(version);
                u.kind = kind;
                u.fmt64 = if version >= 3 { ch.flag() } else { false };
                let mut ru = Unit::new(version);
                ru.fmt64 = u.fmt64;
                let fun = |k: u64| ranged(Die::new(SUB), &ru, if version == 5 { "rnglistx" } else { "ranges" }, 0x100, 1 + k + 10 * i as u64);
                u.kids = match ch.pick(3) {
                    0 => vec![],
                    1 => vec![fun(1).name("f")],
                    _ => {
                        let mut ns = Die::new(0x39).name("ns");
                        ns.kids.push(fun(2).name(&format!("g{}", i)));
                        vec![ns, fun(3)]
                    }
                };
                if kind == 2 {
                    u.kids.retain(|d| d.tag != SUB && d.tag != 0x39);
                    u.kids.push(Die::new(SUB).name("method"));
                }
                f.units.push(u);
            }
            c.state(&f);
            c.sample(|| format!("{:?}", f));
            if n > 1 {
                c.nontrivial();
            }
            judge(&f, c)
        },
    );
    Check {
        id: "C20",
        level: "model_checking",
        families: vec![forms, packed, mach, coff, reloc, names, trees, attrs, tables, many, lists, values, sums, units],
        assumptions: vec![
            "an entry with an empty range list may yield an item of size 0 or none",
            "names that stand in another entry (specification, abstract origin) count as absent",
        ],
        hang_secs: 60,
    }
}
