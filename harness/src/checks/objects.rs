//! Containers other than ELF for the same debugging sections.
use super::elf::{Buf, Sections};
use crate::wasmgen::{leb, string};

fn padded(o: &mut Buf, s: &str, n: usize) {
    let mut v = s.as_bytes().to_vec();
    v.resize(n, 0);
    o.b.extend(v);
}

/// A Mach-O file, as a relocatable object (one segment without a name) or as an executable (the debugging sections in
/// a segment of their own after the code).
pub fn macho(s: &Sections, class64: bool, big: bool, exec: bool) -> Vec<u8> {
    let w = if class64 { 8 } else { 4 };
    let (head, seg, sec) = if class64 { (32, 72, 80) } else { (28, 56, 68) };
    let nseg = if exec { 2 } else { 1 };
    let cmds = nseg * seg + (s.v.len() + 1) * sec;
    let text = vec![0x90u8; 8];
    let mut o = Buf::new(big);
    o.n(if class64 { 0xfeed_facf } else { 0xfeed_face }, 4);
    o.n(match (class64, big) {
        (true, false) => 0x0100_0007,
        (false, false) => 7,
        (true, true) => 0x0100_0012,
        (false, true) => 18,
    }, 4);
    o.n(3, 4);
    o.n(if exec { 2 } else { 1 }, 4);
    o.n(nseg as u64, 4);
    o.n(cmds as u64, 4);
    o.n(0, 4);
    if class64 {
        o.n(0, 4);
    }
    let start = head + cmds;
    let total: usize = s.v.iter().map(|x| x.1.len()).sum();
    let segment = |o: &mut Buf, name: &str, at: usize, len: usize, n: usize| {
        o.n(if class64 { 0x19 } else { 1 }, 4);
        o.n((seg + n * sec) as u64, 4);
        padded(o, name, 16);
        o.n(0x1000, w);
        o.n(len as u64, w);
        o.n(at as u64, w);
        o.n(len as u64, w);
        o.n(7, 4);
        o.n(7, 4);
        o.n(n as u64, 4);
        o.n(0, 4);
    };
    let section = |o: &mut Buf, name: &str, sn: &str, at: usize, len: usize, flags: u64| {
        let cut: String = name.chars().take(16).collect();
        padded(o, &cut, 16);
        padded(o, sn, 16);
        o.n(0x1000 + (at - start) as u64, w);
        o.n(len as u64, w);
        o.n(at as u64, 4);
        o.n(0, 4);
        o.n(0, 4);
        o.n(0, 4);
        o.n(flags, 4);
        o.n(0, 4);
        o.n(0, 4);
        if class64 {
            o.n(0, 4);
        }
    };
    if exec {
        segment(&mut o, "__TEXT", start, text.len(), 1);
        section(&mut o, "__text", "__TEXT", start, text.len(), 0x8000_0400);
        segment(&mut o, "__DWARF", start + text.len(), total, s.v.len());
    } else {
        segment(&mut o, "", start, text.len() + total, s.v.len() + 1);
        section(&mut o, "__text", "__TEXT", start, text.len(), 0x8000_0400);
    }
    let mut at = start + text.len();
    for (n, b) in &s.v {
        section(&mut o, &n.replacen('.', "__", 1), "__DWARF", at, b.len(), 0x0200_0000);
        at += b.len();
    }
    assert_eq!(o.b.len(), start, "harness: Mach-O header");
    o.b.extend(text);
    for (_, b) in &s.v {
        o.b.extend(b);
    }
    o.b
}

/// A COFF object, or (`image`) a PE image with it.
pub fn coff(s: &Sections, class64: bool, image: bool) -> Vec<u8> {
    coff_after(&[], s, class64, image)
}

/// A PE image that has, besides, tables of exports, imports, debugging records and (64 bit) exceptions.
pub fn pe_tables(s: &Sections, class64: bool) -> Vec<u8> {
    const RVA: u64 = 0x1000;
    let mut o = Buf::new(false);
    // exports: a function and one that another library has
    for (v, n) in [(0, 4), (0, 4), (0, 4), (RVA + 0x3c, 4), (1, 4), (2, 4), (2, 4), (RVA + 0x28, 4), (RVA + 0x30, 4), (RVA + 0x38, 4)] {
        o.n(v, n);
    }
    for v in [0x2000, RVA + 0x46, RVA + 0x42, RVA + 0x44] {
        o.n(v, 4);
    }
    o.n(0, 2);
    o.n(1, 2);
    o.b.extend(b"d.dll\0f\0g\0k.#12\0");
    o.b.resize(0x50, 0);
    // imports: one library, a name and an ordinal
    let w = if class64 { 8 } else { 4 };
    for v in [RVA + 0x80, 0, 0, RVA + 0x3c, RVA + 0xa0, 0, 0, 0, 0, 0] {
        o.n(v, 4);
    }
    for at in [0x80, 0xa0] {
        o.b.resize(at, 0);
        o.n(RVA + 0xc0, w);
        o.n(1 << (8 * w - 1) | 5, w);
        o.n(0, w);
    }
    o.b.resize(0xc0, 0);
    o.n(3, 2);
    o.b.extend(b"i\0");
    // debugging records: the name of a file
    let n = s.v.len() as u64 + 1;
    let at = (0x40 + 24 + if class64 { 240 } else { 224 } + 40 * n + 511) / 512 * 512;
    for (v, n) in [(0, 4), (0, 4), (0, 4), (2, 4), (24 + 6, 4), (RVA + 0xe4, 4), (at + 0xe4, 4)] {
        o.n(v, n);
    }
    o.b.resize(0xe4, 0);
    o.b.extend(b"RSDS0123456789abcdef");
    o.n(1, 4);
    o.b.extend(b"a.pdb\0");
    // exceptions: a function without any
    o.b.resize(0x104, 0);
    for v in [0x2000, 0x2004, RVA + 0x110] {
        o.n(v, 4);
    }
    o.n(1, 4);
    let mut b = coff_after(&o.b, s, class64, true);
    let dirs = 0x40 + 24 + if class64 { 112 } else { 96 };
    for (i, rva, size) in [(0, 0, 0x50), (1, 0x50, 0x28), (3, 0x104, 12), (6, 0xc4, 28)] {
        let d = dirs + 8 * i;
        b[d..d + 4].copy_from_slice(&(RVA as u32 + rva).to_le_bytes());
        b[d + 4..d + 8].copy_from_slice(&(size as u32).to_le_bytes());
    }
    b
}

/// The same with a first section of these contents, if any.
fn coff_after(first: &[u8], s: &Sections, class64: bool, image: bool) -> Vec<u8> {
    let mut sections: Vec<(&str, &[u8])> = s.v.iter().map(|x| (x.0, &x.1[..])).collect();
    let mut align = 1;
    if !first.is_empty() {
        sections.insert(0, (".rdata", first));
        align = 512;
    }
    let mut o = Buf::new(false);
    if image {
        o.b.extend(b"MZ");
        o.b.resize(0x3c, 0);
        o.n(0x40, 4);
        o.b.extend(b"PE\0\0");
    }
    let opt = if !image { 0 } else if class64 { 112 + 16 * 8 } else { 96 + 16 * 8 };
    let heads = (o.b.len() + 20 + opt + sections.len() * 40 + align - 1) / align * align;
    // the sections of an image are filled up in the file
    let raw = |n: usize| if image { (n + 31) / 32 * 32 } else { n };
    let total: usize = sections.iter().map(|x| raw(x.1.len())).sum();
    o.n(if class64 { 0x8664 } else { 0x14c }, 2);
    o.n(sections.len() as u64, 2);
    o.n(0, 4);
    o.n((heads + total) as u64, 4);
    o.n(0, 4);
    o.n(opt as u64, 2);
    o.n(if image { 0x22 } else { 0 }, 2);
    if image {
        let end = o.b.len() + opt;
        o.n(if class64 { 0x20b } else { 0x10b }, 2);
        o.n(0x0e, 2);
        for _ in 0..5 {
            o.n(0, 4);
        }
        if class64 {
            o.n(0x1_4000_0000, 8);
        } else {
            o.n(0, 4);
            o.n(0x40_0000, 4);
        }
        o.n(0x1000, 4);
        o.n(0x200, 4);
        o.n(4, 4);
        o.n(0, 4);
        o.n(4, 4);
        o.n(0, 4);
        o.n(0x10000, 4); // size of the image
        o.n(heads as u64, 4);
        o.n(0, 4);
        o.n(3, 2);
        o.n(0, 2);
        let w = if class64 { 8 } else { 4 };
        for _ in 0..4 {
            o.n(0x1000, w);
        }
        o.n(0, 4);
        o.n(16, 4);
        o.b.resize(end, 0);
    }
    let mut names = vec![];
    let mut at = heads;
    for (i, (n, b)) in sections.iter().enumerate() {
        if n.len() > 8 {
            padded(&mut o, &format!("/{}", names.len() + 4), 8);
            names.extend(n.bytes());
            names.push(0);
        } else {
            padded(&mut o, n, 8);
        }
        o.n(b.len() as u64, 4);
        o.n(0x1000 * (i as u64 + 1), 4);
        o.n(raw(b.len()) as u64, 4);
        o.n(at as u64, 4);
        o.n(0, 4);
        o.n(0, 4);
        o.n(0, 4);
        o.n(0x4210_0040, 4);
        at += raw(b.len());
    }
    assert!(o.b.len() <= heads && heads - o.b.len() < align, "harness: COFF header");
    o.b.resize(heads, 0);
    for (_, b) in &sections {
        o.b.extend(*b);
        o.b.resize(o.b.len() + raw(b.len()) - b.len(), 0);
    }
    o.n(names.len() as u64 + 4, 4);
    o.b.extend(names);
    o.b
}

/// A WebAssembly module with the sections as custom sections.
pub fn wasm(s: &Sections) -> Vec<u8> {
    let mut o = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    for (n, b) in &s.v {
        let mut p = string(n);
        p.extend(b);
        o.push(0);
        o.extend(leb(p.len() as u64));
        o.extend(p);
    }
    o
}
