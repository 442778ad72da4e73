//! C22: demangled names and the recognition of generics.
use crate::engine::*;
use crate::wasmgen::*;
use crate::{Check, Tier};
use twiggy_ir::{Code, Id, Item};

/// The generic that a displayed name is an instance of, by the rule in the statement.
pub fn generic_of(name: &str) -> Option<String> {
    // the last component of the path
    let b = name.as_bytes();
    let last = (0..b.len().saturating_sub(1)).filter(|&i| b[i] == b':' && b[i + 1] == b':').collect::<Vec<_>>();
    // "::h" may only be looked for where the separator starts; ":::h" has its separator at the second colon
    let sep = last.iter().rev().find(|&&i| b.get(i + 2) == Some(&b'h'));
    if let Some(&i) = sep {
        let tail = &name[i + 3..];
        let digits = tail.bytes().take_while(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c.to_ascii_lowercase())).count();
        if digits == 16 && (tail.len() == 16 || tail.as_bytes()[16] == b'.') {
            return Some(name[..i].to_string());
        }
    }
    let mut first = None;
    let mut end = None;
    for (i, c) in b.iter().enumerate() {
        if *c == b'<' && first.is_none() {
            first = Some(i);
        }
        if *c == b'>' {
            end = Some(i);
        }
    }
    match (first, end) {
        (Some(f), Some(e)) if f > 0 && e > f => Some(name[..f].to_string()),
        _ => None,
    }
}

/// Names whose angle brackets are not template argument lists.
fn open_question(name: &str) -> bool {
    name.contains("operator<") || name.contains("operator>") || name.contains("operator-")
}

/// What the demanglers themselves say.
fn shown(sym: &str) -> String {
    if let Ok(s) = rustc_demangle::try_demangle(sym) {
        return s.to_string();
    }
    if !["_Z", "__Z", "_GLOBAL_"].iter().any(|p| sym.starts_with(p)) {
        return sym.to_string();
    }
    match cpp_demangle::Symbol::new(sym).ok().and_then(|s| s.demangle(&cpp_demangle::DemangleOptions::default()).ok()) {
        Some(s) => s,
        None => sym.to_string(),
    }
}

fn judge(sym: &str, display: &str, c: &Case) -> Result<(), String> {
    c.trace();
    let code = Code::new(sym);
    let generic = code.monomorphization_of().map(String::from);
    let item = Item::new(Id::entry(1, 1), sym, 1, code);
    if item.name() != display {
        return Err(format!("the function {:?} is shown as {:?}, expected {:?}", sym, item.name(), display));
    }
    if open_question(display) {
        return Ok(());
    }
    let want = generic_of(display);
    if want.is_some() {
        c.nontrivial();
    }
    if generic != want {
        return Err(format!("the function {:?}, shown as {:?}, counts as an instance of {:?}, expected {:?}", sym, display, generic, want));
    }
    if item.monomorphization_of().map(String::from) != want {
        return Err(format!("the item of the function {:?} is an instance of {:?}, expected {:?}", sym, item.monomorphization_of(), want));
    }
    Ok(())
}

// ---------------------------------------------------------------- Rust, legacy mangling

/// Mangled text and what it stands for.
const LEGACY: [(&str, &str); 26] = [
    ("a", "a"),
    ("f_1", "f_1"),
    ("_$LT$impl$u20$a..B$GT$", "<impl a::B>"),
    ("_$LT$T$u20$as$u20$a..B$GT$", "<T as a::B>"),
    ("Vec$LT$T$GT$", "Vec<T>"),
    ("$GT$", ">"),
    ("a$LT$", "a<"),
    ("$RF$a", "&a"),
    ("$BP$a", "*a"),
    ("$LP$$RP$", "()"),
    ("$LP$a$C$b$RP$", "(a,b)"),
    ("$SP$", "@"),
    ("$u7b$$u7b$closure$u7d$$u7d$", "{{closure}}"),
    ("a.b", "a.b"),
    ("a..b", "a::b"),
    ("$u5b$a$u5d$", "[a]"),
    ("$uXY$", "$uXY$"),
    ("$x", "$x"),
    ("_", "_"),
    ("h", "h"),
    ("hash", "hash"),
    ("h0123456789abcdef", "h0123456789abcdef"),
    ("h0123456789abcde", "h0123456789abcde"),
    ("h0123456789abcdef0", "h0123456789abcdef0"),
    ("h0123456789abcdeg", "h0123456789abcdeg"),
    ("hfedcba9876543210", "hfedcba9876543210"),
];

fn legacy(tier: Tier) -> Family {
    let max = tier.pick(4, 5);
    fam(
        "rust-legacy",
        format!("all legacy Rust symbols with 1 to {} of 26 path components (identifiers, every kind of escape, hashes and near hashes) x 3 prefixes x 6 suffixes", max),
        move |ch, c| {
            let n = ch.range(1, max);
            let mut inner = String::new();
            let mut path: Vec<&str> = vec![];
            for _ in 0..n {
                let (m, d) = *ch.of(&LEGACY);
                inner.push_str(&format!("{}{}", m.len(), m));
                path.push(d);
            }
            c.state(&inner);
            let disp = path.join("::");
            for prefix in ["_ZN", "__ZN", "ZN"] {
                for (suffix, left) in [("", ""), (".llvm.0123456789ABCDEF", ""), (".llvm.12345", ""), (".cold", ".cold"), (".llvm.xyz", ".llvm.xyz"), (".1.b<c>", ".1.b<c>")] {
                    let sym = format!("{}{}E{}", prefix, inner, suffix);
                    c.sample(|| format!("{} = {}{}", sym, disp, left));
                    judge(&sym, &format!("{}{}", disp, left), c)?;
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------- Rust, v0 mangling

/// A path as (mangled, shown in types, shown in expressions).
fn path(ch: &mut Chooser, depth: usize, full: bool) -> (String, String, String) {
    let same = |m: String, d: String| (m, d.clone(), d);
    let krate = |m: &str, d: &str| same(m.to_string(), d.to_string());
    if depth == 0 {
        return match ch.pick(3) {
            0 => krate("C1a", "a[0]"),
            1 => krate("Cs_4core", "core[1]"),
            _ => krate("Csz_3std", "std[25]"),
        };
    }
    match ch.pick(7) {
        0 => {
            let (m, t, v) = path(ch, depth - 1, full);
            (format!("Nv{}1f", m), format!("{}::f", t), format!("{}::f", v))
        }
        1 => {
            let (m, t, v) = path(ch, depth - 1, full);
            (format!("Nt{}u5h_eha", m), format!("{}::{}", t, PUNY), format!("{}::{}", v, PUNY))
        }
        2 => {
            let (m, t, v) = path(ch, depth - 1, full);
            (format!("NC{}0", m), format!("{}::{{closure#0}}", t), format!("{}::{{closure#0}}", v))
        }
        3 => {
            let (m, t, v) = path(ch, depth - 1, full);
            (format!("NS{}s_6vtable", m), format!("{}::{{shim:vtable#1}}", t), format!("{}::{{shim:vtable#1}}", v))
        }
        4 => {
            let (m, t, v) = path(ch, depth - 1, full);
            let mut a = String::new();
            let mut d = vec![];
            for i in 0..ch.range(1, 2) {
                let (x, y) = arg(ch, if i == 0 || full { depth - 1 } else { 0 }, full);
                a.push_str(&x);
                d.push(y);
            }
            let d = d.join(", ");
            (format!("I{}{}E", m, a), format!("{}<{}>", t, d), format!("{}::<{}>", v, d))
        }
        5 => {
            // inherent implementation
            let (m, d) = ty(ch, 0, full);
            same(format!("MC1a{}", m), format!("<{}>", d))
        }
        _ => {
            // implementation of a trait
            let (x, y) = ty(ch, 0, full);
            let (m, t, _) = path(ch, depth - 1, full);
            let tag = *ch.of(&["XC1a", "Y"]);
            same(format!("{}{}{}", tag, x, m), format!("<{} as {}>", y, t))
        }
    }
}

/// The identifier that u5h_eha stands for.
const PUNY: &str = "h\u{fc}";

/// A generic argument: mangled, shown.
fn arg(ch: &mut Chooser, depth: usize, full: bool) -> (String, String) {
    match if depth > 0 { ch.pick(3) } else { 0 } {
        0 => ty(ch, depth, full),
        1 => ("Kj2a_".into(), "42usize".into()),
        _ => ("L_".into(), "'_".into()),
    }
}

/// A type: mangled, shown.
fn ty(ch: &mut Chooser, depth: usize, full: bool) -> (String, String) {
    let n = if depth == 0 { 6 } else { 12 };
    match ch.pick(n) {
        0 => ("l".into(), "i32".into()),
        1 => ("u".into(), "()".into()),
        2 => ("e".into(), "str".into()),
        3 => ("z".into(), "!".into()),
        4 => ("Rh".into(), "&u8".into()),
        5 => ("C1b".into(), "b[0]".into()),
        6 => {
            let (m, d) = ty(ch, depth - 1, full);
            (format!("Q{}", m), format!("&mut {}", d))
        }
        7 => {
            let (m, d) = ty(ch, depth - 1, full);
            (format!("S{}", m), format!("[{}]", d))
        }
        8 => {
            let (m, d) = ty(ch, depth - 1, full);
            (format!("T{}E", m), format!("({},)", d))
        }
        9 => {
            let (m, d) = ty(ch, depth - 1, full);
            (format!("FE{}", m), if d == "()" { "fn()".into() } else { format!("fn() -> {}", d) })
        }
        10 => {
            let (m, t, _) = path(ch, depth - 1, full);
            (format!("D{}EL_", m), format!("dyn {}", t))
        }
        _ => {
            let (m, t, _) = path(ch, depth, full);
            (m, t)
        }
    }
}

fn v0(tier: Tier) -> Family {
    let (max, full) = (2, tier.thorough());
    fam(
        "rust-v0",
        format!("all v0 Rust symbols with paths up to {} levels deep (crates with and without disambiguator, values, types, closures, shims, generics with up to two arguments (quick: the second one plain), inherent and trait implementations; argument types with references, slices, tuples, functions, constants, trait objects, paths) x 3 prefixes x 3 suffixes", max),
        move |ch, c| {
            let depth = ch.range(1, max);
            let (m, _, v) = path(ch, depth, full);
            c.state(&m);
            for (prefix, suffix, left) in [("_R", "", ""), ("R", "", ""), ("__R", "", ""), ("_R", ".llvm.99", ""), ("_R", ".1", ".1")] {
                let sym = format!("{}{}{}", prefix, m, suffix);
                c.sample(|| format!("{} = {}{}", sym, v, left));
                judge(&sym, &format!("{}{}", v, left), c)?;
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------- C++

/// A type without substitutions: mangled, shown.
fn ctype(ch: &mut Chooser, depth: usize) -> (String, String) {
    let n = if depth == 0 { 4 } else { 7 };
    match ch.pick(n) {
        0 => ("i".into(), "int".into()),
        1 => ("b".into(), "bool".into()),
        2 => ("c".into(), "char".into()),
        3 => ("1A".into(), "A".into()),
        4 => {
            let (m, d) = ctype(ch, depth - 1);
            (format!("P{}", m), format!("{}*", d))
        }
        5 => {
            let (m, d) = ctype(ch, depth - 1);
            (format!("1VI{}E", m), format!("V<{}{}>", d, if d.ends_with('>') { " " } else { "" }))
        }
        _ => ("N1n1BE".into(), "n::B".into()),
    }
}

fn cpp(tier: Tier) -> Family {
    let more = tier.thorough();
    fam(
        "c++",
        "all C++ function symbols with plain, nested and constructor-like names of up to 3 parts, with or without up to two template arguments at the last part or an earlier one, and up to two parameters, over builtin types, classes, pointers, nested templates; prefixes _Z and __Z",
        move |ch, c| {
            let parts = ch.range(1, 3);
            let targs: Vec<(String, String)> = (0..ch.range(0, 2)).map(|_| ctype(ch, if more { 2 } else { 1 })).collect();
            let at = if targs.is_empty() { parts } else { ch.pick(parts) };
            let params: Vec<(String, String)> = (0..ch.range(0, 2)).map(|_| ctype(ch, 1)).collect();
            let mut m = String::new();
            let mut d = String::new();
            for i in 0..parts {
                let id = ["f", "hx", "Klass"][i];
                m.push_str(&format!("{}{}", id.len(), id));
                if i > 0 {
                    d.push_str("::");
                }
                d.push_str(id);
                if i == at {
                    m.push('I');
                    let t: Vec<&str> = targs.iter().map(|t| t.1.as_str()).collect();
                    for t in &targs {
                        m.push_str(&t.0);
                    }
                    m.push('E');
                    d.push_str(&format!("<{}{}>", t.join(", "), if t.last().map_or(false, |t| t.ends_with('>')) { " " } else { "" }));
                }
            }
            if parts > 1 {
                m = format!("N{}E", m);
            }
            // a template function states its result
            let template = at + 1 == parts;
            if template {
                m.push('v');
            }
            if params.is_empty() {
                m.push('v');
            }
            for p in &params {
                m.push_str(&p.0);
            }
            let ps: Vec<&str> = params.iter().map(|t| t.1.as_str()).collect();
            let disp = format!("{}{}({})", if template { "void " } else { "" }, d, ps.join(", "));
            c.state(&m);
            for prefix in ["_Z", "__Z"] {
                let sym = format!("{}{}", prefix, m);
                c.sample(|| format!("{} = {}", sym, disp));
                judge(&sym, &disp, c)?;
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------- any strings

fn plain(tier: Tier) -> Family {
    const T: [&str; 17] = [
        "::h", "0123456789abcdef", "fedcba9876543210", "0123456789ABCDEF", "0123456789abcde", "0123456789abcdeg", "0", "h", ":", "::", "<", ">", ".", "a", " ", "\u{e9}", "E",
    ];
    let max = tier.pick(5, 6);
    fam(
        "plain-names",
        format!("all names made of up to {} of 17 pieces (::h, hashes and near hashes, colons, angle brackets, dots, letters, blanks, other characters), alone and after `a`, `f::h0123456789abcdef`, `b<c>`", max),
        move |ch, c| {
            let n = ch.range(0, max);
            let s: String = (0..n).map(|_| *ch.of(&T)).collect();
            c.state(&s);
            c.sample(|| s.clone());
            for head in ["", "a", "f::h0123456789abcdef", "b<c>"] {
                let s = format!("{}{}", head, s);
                judge(&s, &s, c)?;
            }
            Ok(())
        },
    )
}

fn lengths() -> Family {
    fam(
        "hash-lengths",
        "names that end in ::h and every number of digits from 0 to 40, every one of the 128 ASCII characters and 5 others at every position of the hash and directly after it",
        |ch, c| {
            let n = ch.pick(41);
            let at = ch.pick(n + 2);
            let alphabet: Vec<char> = (0..128u8).map(char::from).chain(['\u{e9}', '\u{ff11}', '\u{660}', '\u{1d7d8}', '\u{ff41}']).collect();
            c.state((n, at));
            c.sample(|| format!("{} digits, position {}", n, at));
            for x in alphabet {
                let mut h: Vec<char> = (0..n).map(|i| char::from(b"0123456789abcdef"[i % 16])).collect();
                if at < n {
                    h[at] = x;
                } else if at == n {
                    h.push(x);
                }
                let h: String = h.into_iter().collect();
                for head in ["f", "", "a::b", "<a as b>::c", "v<a>"] {
                    for s in [format!("{}::h{}", head, h), format!("{}::{}", head, h)] {
                        judge(&s, &s, c)?;
                    }
                }
            }
            Ok(())
        },
    )
}

fn near(tier: Tier) -> Family {
    let max = tier.pick(6, 8);
    fam(
        "near-symbols",
        format!("every string of up to {} characters of each mangling grammar after each prefix (_ZN, ZN, _Z, __Z, _GLOBAL_, _GLOBAL__I_, _R, R, _, Z, _z, Z_, none): shown as the demangler of the language says, or unchanged if it is not a symbol", max),
        move |ch, c| {
            let (prefix, set): (&str, &str) = *ch.of(&[
                ("_ZN", "1aEvhi."),
                ("__ZN", "1aEvhi."),
                ("ZN", "1aEvhi."),
                ("_Z", "1aNEvI"),
                ("__Z", "1aNEvI"),
                ("___Z", "1aNEvI"),
                ("_GLOBAL_", "_IZ1aE"),
                ("_GLOBAL__I_", "Z1aE_v"),
                ("_GLOBAL", "_IZ1aE"),
                ("_R", "CNv1aIE"),
                ("R", "CNv1aIE"),
                ("__R", "CNv1aIE"),
                ("_", "ZR1aE_v"),
                ("", "ZR1aE_<>"),
                ("_z", "N1aEv"),
                (" _Z", "1aEv"),
            ]);
            let set: Vec<char> = set.chars().collect();
            let n = ch.range(0, max);
            let mut s = prefix.to_string();
            for _ in 0..n {
                s.push(*ch.of(&set));
            }
            c.state(&s);
            c.sample(|| s.clone());
            judge(&s, &shown(&s), c)
        },
    )
}

// ---------------------------------------------------------------- through the parsers

fn modules(tier: Tier) -> Family {
    let big = tier.thorough();
    fam(
        "modules",
        "wasm modules and ELF files whose functions carry every ordered pair (thorough: triple) of 32 symbols of all kinds: each function keeps its own name and generic",
        move |ch, c| {
            const SYMS: [&str; 32] = [
                "_ZN1a1b17h0123456789abcdefE",
                "_ZN1a1b17h0123456789abcde0E",
                "_ZN1a1bE",
                "_ZN4core3ptr23drop_in_place$LT$u8$GT$17h0123456789abcdefE",
                "_ZN35_$LT$T$u20$as$u20$a..B$GT$1b17h0123456789abcdefE",
                "_ZN28_$LT$T$u20$as$u20$a..B$GT$1b17h0123456789abcdefE",
                "_RNvC1a1f",
                "_RINvC1a1flE",
                "_RINvC1a1fhE",
                "_Z1fv",
                "_Z1fi",
                "_Z1fIiEvv",
                "_Z1fIbEvi",
                "_ZN1a1bEv",
                "_ZN1aIiE1bEv",
                "__ZN1a1bIiEEvv",
                "_Z1fSt",
                "_Z",
                "_GLOBAL__sub_I_x",
                "a::b::h0123456789abcdef",
                "a::b::h0123456789abcdef.llvm.77",
                "a::b::h0123456789abcde",
                "a::b<c>",
                "a::b<d>",
                "<a as b>::c",
                "main",
                "RC4",
                "std::hash",
                "gr\u{fc}n<x>",
                "> <",
                "a\"b,c",
                "f<",
            ];
            let n = if big { 3 } else { 2 };
            let v: Vec<&str> = (0..n).map(|_| *ch.of(&SYMS)).collect();
            let how = ch.pick(3);
            c.state((&v, how));
            c.sample(|| format!("{:?} ({})", v, ["name section", "name section in reverse", "ELF"][how]));
            let items = if how < 2 {
                let mut names: Vec<(u32, String)> = v.iter().enumerate().map(|(i, s)| (i as u32, s.to_string())).collect();
                if how == 1 {
                    names.reverse();
                }
                let m = Module {
                    sects: vec![
                        Sect::Types(vec![FuncType(vec![], vec![])]),
                        Sect::Funcs(vec![0; n]),
                        Sect::Code((0..n).map(|i| Body { locals: vec![], ops: vec![Op::Nop; 10 * (i + 1)] }).collect()),
                        Sect::Name(vec![NameSub::Funcs(names)]),
                    ],
                    pad: 0,
                    pad_counts: 0,
                pad_inner: 0,
                };
                twiggy_parser::parse(&m.bytes()).map_err(|e| e.to_string())?
            } else {
                super::elf::named_functions(&v).map_err(|e| e.to_string())?
            };
            c.trace();
            let mut got: Vec<(u32, String, Option<String>)> = items
                .iter()
                .filter(|i| matches!(i.kind(), twiggy_ir::ItemKind::Code(_)))
                .map(|i| (i.size(), i.name().to_string(), i.monomorphization_of().map(String::from)))
                .collect();
            got.sort();
            if got.len() != n {
                return Err(format!("{:?}: {} functions instead of {}", v, got.len(), n));
            }
            for (g, s) in got.iter().zip(&v) {
                let d = shown(s);
                if g.1 != d {
                    return Err(format!("{:?} is shown as {:?}, expected {:?}", s, g.1, d));
                }
                let w = generic_of(&d);
                if g.2 != w {
                    return Err(format!("{:?} is an instance of {:?}, expected {:?}", s, g.2, w));
                }
                if w.is_some() {
                    c.nontrivial();
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------- long names

/// Lengths at which limits of one, two and three bytes, of pages and of the tools themselves lie.
fn edges(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..18).flat_map(|k| (0..3).map(move |d| (1usize << k) + d)).map(|n| n - 1).filter(|n| *n > 0 && *n <= max).collect();
    v.extend((1..=5).flat_map(|k| (0..3).map(move |d| 10usize.pow(k) + d - 1)).filter(|n| *n <= max));
    v.sort();
    v.dedup();
    v
}

fn long_names(tier: Tier) -> Family {
    let max = tier.pick(65_537, 131_073);
    fam(
        "long-names",
        format!("legacy and v0 Rust symbols, C++ symbols (up to 60000 characters) and plain names in which one part has a length on either side of every power of 2 and of 10 up to {}, and ones with that many (up to 4097) components: the name in full, the generic in full", max),
        move |ch, c| {
            let lens = edges(max);
            let n = *ch.of(&lens);
            let kind = ch.pick(12);
            let id = "q".repeat(n);
            c.state((kind, n));
            c.sample(|| format!("kind {}, {} characters or components", kind, n));
            let (sym, disp) = match kind {
                0 => (format!("_ZN{}{}E", n, id), id.clone()),
                1 => (format!("_ZN1a{}{}17h0123456789abcdefE", n, id), format!("a::{}::h0123456789abcdef", id)),
                2 => (format!("_ZN{}{}10_$LT$T$GT$1b17h0123456789abcdefE", n, id), String::new()),
                3 => (format!("_RNvC1a{}{}", n, id), format!("a[0]::{}", id)),
                4 => (format!("_RINvC1a{}{}lE", n, id), format!("a[0]::{}::<i32>", id)),
                5 if n <= 60_000 => (format!("_Z{}{}v", n, id), format!("{}()", id)),
                6 if n <= 60_000 => (format!("_ZN1n{}{}IiEEvv", n, id), format!("void n::{}<int>()", id)),
                7 => (id.clone(), id.clone()),
                8 => (format!("{}::h0123456789abcdef", id), format!("{}::h0123456789abcdef", id)),
                9 => (format!("{}<{}>::{}", id, id, id), format!("{}<{}>::{}", id, id, id)),
                10 if n <= 4097 => (format!("_ZN{}17h0123456789abcdefE", "1a".repeat(n)), format!("{}h0123456789abcdef", "a::".repeat(n))),
                11 if n <= 4097 => {
                    let m = "Vec<".repeat(n) + "u8" + &">".repeat(n);
                    (m.clone(), m)
                }
                2..=11 => return Ok(()),
                _ => unreachable!(),
            };
            let disp = if kind == 2 { format!("{}::<T>::b::h0123456789abcdef", id) } else { disp };
            let first = judge(&sym, &disp, c);
            // a name of a hundred thousand letters is no message
            first.map_err(|e| if e.len() > 2000 { format!("kind {}, length {}: {}...", kind, n, e.chars().take(400).collect::<String>()) } else { e })
        },
    )
}

pub fn c22(tier: Tier) -> Check {
    Check {
        id: "C22",
        level: "model_checking",
        families: vec![legacy(tier), v0(tier), cpp(tier), plain(tier), lengths(), long_names(tier), near(tier), modules(tier)],
        assumptions: vec![
            "near-symbols: whether a string is a symbol at all is decided by the demanglers (rustc-demangle, cpp_demangle) themselves",
            "the generic of C++ operators whose name contains an angle bracket is left open",
        ],
        hang_secs: 60,
    }
}
