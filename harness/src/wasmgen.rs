//! Abstract syntax of wasm modules with an encoder that knows to which entry every byte belongs,
//! and the items, edges and roots that a size profile of the module must have.
use std::collections::BTreeMap;

pub const I32: u8 = 0x7f;
pub const I64: u8 = 0x7e;
pub const F32: u8 = 0x7d;
pub const F64: u8 = 0x7c;
pub const V128: u8 = 0x7b;
pub const FUNCREF: u8 = 0x70;
pub const EXTERNREF: u8 = 0x6f;

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct FuncType(pub Vec<u8>, pub Vec<u8>);

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum ImportKind {
    Func(u32),
    Table,
    Memory,
    Global(u8),
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Import {
    pub module: String,
    pub field: String,
    pub kind: ImportKind,
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Space {
    Func = 0,
    Table = 1,
    Memory = 2,
    Global = 3,
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Export {
    pub name: String,
    pub space: Space,
    pub index: u32,
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Expr {
    I32(i32),
    I64(i64),
    GlobalGet(u32),
    F32,
    F64,
    RefNull,
}

/// The eight encodings of an element segment.
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Elem {
    /// 0 active table 0; 1 passive; 2 active explicit table; 3 declared; +4: expressions
    pub flag: u8,
    pub table: u32,
    pub funcs: Vec<Option<u32>>,
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Data {
    /// 0 active; 1 passive; 2 active with explicit memory 0
    pub flag: u8,
    pub off: Expr,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Op {
    Call(u32),
    CallIndirect(u32, u32),
    GlobalGet(u32),
    GlobalSet(u32),
    I32Const(i32),
    /// opcode, align, offset
    Load(u8, u8, u32),
    Drop,
    Nop,
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, Hash, PartialEq, Default)]
pub struct Body {
    pub locals: Vec<(u32, u8)>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum NameSub {
    Module(String),
    Funcs(Vec<(u32, String)>),
    Locals(Vec<(u32, Vec<(u32, String)>)>),
    Data(Vec<(u32, String)>),
    /// another known indirect map id or any id, raw payload; readable says whether the pinned wasmparser knows it
    Other(u8, Vec<u8>),
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Sect {
    Types(Vec<FuncType>),
    Imports(Vec<Import>),
    Funcs(Vec<u32>),
    /// reftype, min, max
    Tables(Vec<(u8, u32, Option<u32>)>),
    Mems(Vec<(u32, Option<u32>)>),
    /// type, mutable, initial value
    Globals(Vec<(u8, bool, Expr)>),
    Exports(Vec<Export>),
    Start(u32),
    Elems(Vec<Elem>),
    DataCount(u32),
    Code(Vec<Body>),
    Datas(Vec<Data>),
    Custom(String, Vec<u8>),
    Name(Vec<NameSub>),
}

#[derive(Clone, Debug, Hash, PartialEq, Default)]
pub struct Module {
    pub sects: Vec<Sect>,
    /// pad the section lengths to this many LEB bytes (0: minimal)
    pub pad: u8,
    /// pad entry counts as well
    pub pad_counts: u8,
    /// pad every number inside the entries (lengths, indices, operands) as well
    pub pad_inner: u8,
}

thread_local! {
    static INNER: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
/// Pads every number encoded while it lives.
struct Padding(u8);
impl Padding {
    fn new(n: u8) -> Padding {
        Padding(INNER.with(|i| i.replace(n)))
    }
}
impl Drop for Padding {
    fn drop(&mut self) {
        INNER.with(|i| i.set(self.0));
    }
}

pub fn leb(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            break;
        }
        o.push(b | 0x80);
    }
    extend(&mut o, INNER.with(|i| i.get()), 0);
    o
}
/// Lengthens a LEB number to `n` bytes; `fill` is the sign (0 or 0x7f).
fn extend(o: &mut Vec<u8>, n: u8, fill: u8) {
    while o.len() < n as usize {
        let l = o.len() - 1;
        o[l] |= 0x80;
        o.push(fill);
    }
}
pub fn leb_pad(v: u32, pad: u8) -> Vec<u8> {
    let mut o = leb(u64::from(v));
    extend(&mut o, pad, 0);
    o
}
pub fn sleb(mut v: i64) -> Vec<u8> {
    let mut o = vec![];
    let fill = if v < 0 { 0x7f } else { 0 };
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            o.push(b);
            break;
        }
        o.push(b | 0x80);
    }
    extend(&mut o, INNER.with(|i| i.get()), fill);
    o
}
pub fn string(s: &str) -> Vec<u8> {
    let mut o = leb(s.len() as u64);
    o.extend_from_slice(s.as_bytes());
    o
}
fn expr(e: &Expr) -> Vec<u8> {
    let mut o = vec![];
    match e {
        Expr::I32(v) => {
            o.push(0x41);
            o.extend(sleb(i64::from(*v)));
        }
        Expr::I64(v) => {
            o.push(0x42);
            o.extend(sleb(*v));
        }
        Expr::GlobalGet(g) => {
            o.push(0x23);
            o.extend(leb(u64::from(*g)));
        }
        Expr::F32 => o.extend([0x43, 0, 0, 0, 0]),
        Expr::F64 => o.extend([0x44, 0, 0, 0, 0, 0, 0, 0, 0]),
        Expr::RefNull => o.extend([0xd0, 0x70]),
    }
    o.push(0x0b);
    o
}
fn limits(min: u32, max: Option<u32>) -> Vec<u8> {
    let mut o = vec![max.is_some() as u8];
    o.extend(leb(u64::from(min)));
    if let Some(m) = max {
        o.extend(leb(u64::from(m)));
    }
    o
}

pub fn body_bytes(b: &Body) -> Vec<u8> {
    let mut o = leb(b.locals.len() as u64);
    for (n, t) in &b.locals {
        o.extend(leb(u64::from(*n)));
        o.push(*t);
    }
    for op in &b.ops {
        match op {
            Op::Call(f) => {
                o.push(0x10);
                o.extend(leb(u64::from(*f)));
            }
            Op::CallIndirect(t, tab) => {
                o.push(0x11);
                o.extend(leb(u64::from(*t)));
                o.extend(leb(u64::from(*tab)));
            }
            Op::GlobalGet(g) => {
                o.push(0x23);
                o.extend(leb(u64::from(*g)));
            }
            Op::GlobalSet(g) => {
                o.push(0x24);
                o.extend(leb(u64::from(*g)));
            }
            Op::I32Const(v) => {
                o.push(0x41);
                o.extend(sleb(i64::from(*v)));
            }
            Op::Load(opc, al, off) => {
                o.push(*opc);
                o.push(*al);
                o.extend(leb(u64::from(*off)));
            }
            Op::Drop => o.push(0x1a),
            Op::Nop => o.push(0x01),
            Op::Raw(r) => o.extend_from_slice(r),
        }
    }
    o.push(0x0b);
    o
}

fn namemap(m: &[(u32, String)]) -> Vec<u8> {
    let mut o = leb(m.len() as u64);
    for (i, n) in m {
        o.extend(leb(u64::from(*i)));
        o.extend(string(n));
    }
    o
}

fn namesub(s: &NameSub) -> Vec<u8> {
    let (id, p) = match s {
        NameSub::Module(n) => (0, string(n)),
        NameSub::Funcs(m) => (1, namemap(m)),
        NameSub::Locals(fs) => {
            let mut o = leb(fs.len() as u64);
            for (i, m) in fs {
                o.extend(leb(u64::from(*i)));
                o.extend(namemap(m));
            }
            (2, o)
        }
        NameSub::Data(m) => (9, namemap(m)),
        NameSub::Other(id, p) => (*id, p.clone()),
    };
    let mut o = vec![id];
    o.extend(leb(p.len() as u64));
    o.extend(p);
    o
}

impl Sect {
    pub fn id(&self) -> u8 {
        match self {
            Sect::Custom(..) | Sect::Name(..) => 0,
            Sect::Types(..) => 1,
            Sect::Imports(..) => 2,
            Sect::Funcs(..) => 3,
            Sect::Tables(..) => 4,
            Sect::Mems(..) => 5,
            Sect::Globals(..) => 6,
            Sect::Exports(..) => 7,
            Sect::Start(..) => 8,
            Sect::Elems(..) => 9,
            Sect::Code(..) => 10,
            Sect::Datas(..) => 11,
            Sect::DataCount(..) => 12,
        }
    }
    /// The bytes before the entries, and the entries.
    pub fn parts(&self, pad_counts: u8) -> (Vec<u8>, Vec<Vec<u8>>) {
        let cnt = |n: usize| leb_pad(n as u32, pad_counts);
        match self {
            Sect::Types(ts) => (
                cnt(ts.len()),
                ts.iter()
                    .map(|t| {
                        let mut o = vec![0x60];
                        o.extend(leb(t.0.len() as u64));
                        o.extend(&t.0);
                        o.extend(leb(t.1.len() as u64));
                        o.extend(&t.1);
                        o
                    })
                    .collect(),
            ),
            Sect::Imports(is) => (
                cnt(is.len()),
                is.iter()
                    .map(|i| {
                        let mut o = string(&i.module);
                        o.extend(string(&i.field));
                        match i.kind {
                            ImportKind::Func(t) => {
                                o.push(0);
                                o.extend(leb(u64::from(t)));
                            }
                            ImportKind::Table => o.extend([1, FUNCREF, 0, 1]),
                            ImportKind::Memory => o.extend([2, 0, 1]),
                            ImportKind::Global(t) => o.extend([3, t, 0]),
                        }
                        o
                    })
                    .collect(),
            ),
            Sect::Funcs(fs) => (cnt(fs.len()), fs.iter().map(|f| leb(u64::from(*f))).collect()),
            Sect::Tables(ts) => (
                cnt(ts.len()),
                ts.iter()
                    .map(|t| {
                        let mut o = vec![t.0];
                        o.extend(limits(t.1, t.2));
                        o
                    })
                    .collect(),
            ),
            Sect::Mems(ms) => (cnt(ms.len()), ms.iter().map(|m| limits(m.0, m.1)).collect()),
            Sect::Globals(gs) => (
                cnt(gs.len()),
                gs.iter()
                    .map(|g| {
                        let mut o = vec![g.0, g.1 as u8];
                        o.extend(expr(&g.2));
                        o
                    })
                    .collect(),
            ),
            Sect::Exports(es) => (
                cnt(es.len()),
                es.iter()
                    .map(|e| {
                        let mut o = string(&e.name);
                        o.push(e.space as u8);
                        o.extend(leb(u64::from(e.index)));
                        o
                    })
                    .collect(),
            ),
            Sect::Start(f) => (leb(u64::from(*f)), vec![]),
            Sect::Elems(es) => (
                cnt(es.len()),
                es.iter()
                    .map(|e| {
                        let mut o = leb(u64::from(e.flag));
                        if e.flag & 1 == 0 {
                            if e.flag & 2 != 0 {
                                o.extend(leb(u64::from(e.table)));
                            }
                            o.extend(expr(&Expr::I32(0)));
                        }
                        if e.flag & 3 != 0 {
                            // elemkind or reftype
                            o.push(if e.flag & 4 != 0 { FUNCREF } else { 0 });
                        }
                        o.extend(leb(e.funcs.len() as u64));
                        for f in &e.funcs {
                            if e.flag & 4 != 0 {
                                match f {
                                    Some(f) => {
                                        o.push(0xd2);
                                        o.extend(leb(u64::from(*f)));
                                    }
                                    None => o.extend([0xd0, FUNCREF]),
                                }
                                o.push(0x0b);
                            } else {
                                o.extend(leb(u64::from(f.expect("harness: null in index form"))));
                            }
                        }
                        o
                    })
                    .collect(),
            ),
            Sect::DataCount(n) => (leb(u64::from(*n)), vec![]),
            Sect::Code(bs) => (
                cnt(bs.len()),
                bs.iter()
                    .map(|b| {
                        let p = body_bytes(b);
                        let mut o = leb(p.len() as u64);
                        o.extend(p);
                        o
                    })
                    .collect(),
            ),
            Sect::Datas(ds) => (
                cnt(ds.len()),
                ds.iter()
                    .map(|d| {
                        let mut o = leb(u64::from(d.flag));
                        if d.flag == 2 {
                            o.push(0);
                        }
                        if d.flag != 1 {
                            o.extend(expr(&d.off));
                        }
                        o.extend(leb(d.bytes.len() as u64));
                        o.extend(&d.bytes);
                        o
                    })
                    .collect(),
            ),
            Sect::Custom(n, p) => (string(n), vec![p.clone()]),
            Sect::Name(subs) => (string("name"), subs.iter().map(namesub).collect()),
        }
    }
}

impl Module {
    /// Sections as encoded, the wasm header first.
    pub fn encode(&self) -> (Vec<u8>, Vec<SecLayout>) {
        let mut out = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
        let mut lay = vec![];
        let _padding = Padding::new(self.pad_inner);
        for s in &self.sects {
            let (head, entries) = s.parts(self.pad_counts);
            let len = head.len() + entries.iter().map(|e| e.len()).sum::<usize>();
            let start = out.len();
            out.push(s.id());
            out.extend(leb_pad(len as u32, self.pad));
            out.extend(head);
            let mut es = vec![];
            for e in &entries {
                es.push(e.len() as u32);
                out.extend(e);
            }
            lay.push(SecLayout { len: (out.len() - start) as u32, entries: es });
        }
        (out, lay)
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.encode().0
    }
}

pub struct SecLayout {
    pub len: u32,
    pub entries: Vec<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Code,
    Data,
    Debug,
    Misc,
}

#[derive(Clone, Debug)]
pub struct XItem {
    pub name: String,
    pub size: u32,
    pub kind: Kind,
    pub root: bool,
}

/// What twiggy must extract from a module. Items in file order.
#[derive(Clone, Debug, Default)]
pub struct Expected {
    pub total: u32,
    pub items: Vec<XItem>,
    pub edges: std::collections::BTreeSet<(usize, usize)>,
}

fn ty(t: u8) -> &'static str {
    match t {
        I32 => "i32",
        I64 => "i64",
        F32 => "f32",
        F64 => "f64",
        V128 => "v128",
        FUNCREF => "funcref",
        EXTERNREF => "externref",
        _ => "?",
    }
}

/// Subsections of the name section that the format defines (ids 0..=9).
fn subname(id: u8) -> &'static str {
    match id {
        0 => "\"module name\" subsection",
        1 => "\"function names\" subsection",
        2 => "\"local names\" subsection",
        3 => "\"label names\" subsection",
        4 => "\"type names\" subsection",
        5 => "\"table names\" subsection",
        6 => "\"memory names\" subsection",
        7 => "\"global names\" subsection",
        8 => "\"element names\" subsection",
        9 => "\"data names\" subsection",
        _ => "\"unknown name\" subsection",
    }
}

/// The model. Requires exactly one function and one code section.
pub fn expect(m: &Module) -> Expected {
    expect_with(m, false)
}

/// `forward`: the known defect that a load refers to the first non-empty segment that begins at or
/// after its address, instead of the segment that covers the address.
pub fn expect_with(m: &Module, forward: bool) -> Expected {
    let (bytes, lay) = m.encode();
    let mut x = Expected { total: bytes.len() as u32, ..Default::default() };
    // Names given by name sections.
    let mut fnames: BTreeMap<u32, String> = BTreeMap::new();
    let mut dnames: BTreeMap<u32, String> = BTreeMap::new();
    let mut imported_funcs = 0;
    for s in &m.sects {
        match s {
            Sect::Name(subs) => {
                for sub in subs {
                    match sub {
                        NameSub::Funcs(v) => fnames.extend(v.iter().cloned()),
                        NameSub::Data(v) => dnames.extend(v.iter().cloned()),
                        _ => {}
                    }
                }
            }
            Sect::Imports(is) => {
                imported_funcs += is.iter().filter(|i| matches!(i.kind, ImportKind::Func(_))).count();
            }
            _ => {}
        }
    }
    let fsec = m.sects.iter().position(|s| matches!(s, Sect::Funcs(_)));
    let item = |x: &mut Expected, name: String, size: u32, kind: Kind, root: bool| -> usize {
        x.items.push(XItem { name, size, kind, root });
        x.items.len() - 1
    };
    item(&mut x, "wasm magic bytes".into(), 8, Kind::Misc, true);
    let mut types: Vec<usize> = vec![];
    let mut spaces: [Vec<usize>; 4] = Default::default();
    let mut code: Vec<usize> = vec![];
    let mut exports: Vec<usize> = vec![];
    let mut elems: Vec<usize> = vec![];
    let mut datas: Vec<usize> = vec![];
    let mut start = None;
    let mut imports: Vec<(usize, Space)> = vec![];
    for (si, s) in m.sects.iter().enumerate() {
        let l = &lay[si];
        let sum: u32 = l.entries.iter().sum();
        let mut header = Some((String::new(), l.len - sum));
        match s {
            Sect::Types(ts) => {
                for (i, t) in ts.iter().enumerate() {
                    let ps = t.0.iter().map(|p| ty(*p)).collect::<Vec<_>>().join(", ");
                    let rs = match t.1.len() {
                        0 => "nil".to_string(),
                        1 => ty(t.1[0]).to_string(),
                        _ => format!("({})", t.1.iter().map(|p| ty(*p)).collect::<Vec<_>>().join(", ")),
                    };
                    let id = item(&mut x, format!("type[{}]: ({}) -> {}", i, ps, rs), l.entries[i], Kind::Misc, false);
                    types.push(id);
                }
                header.as_mut().unwrap().0 = "type section headers".into();
            }
            Sect::Imports(is) => {
                for (i, im) in is.iter().enumerate() {
                    let id = item(&mut x, format!("import {}::{}", im.module, im.field), l.entries[i], Kind::Misc, false);
                    let sp = match im.kind {
                        ImportKind::Func(_) => Space::Func,
                        ImportKind::Table => Space::Table,
                        ImportKind::Memory => Space::Memory,
                        ImportKind::Global(_) => Space::Global,
                    };
                    imports.push((id, sp));
                }
                header.as_mut().unwrap().0 = "import section headers".into();
            }
            Sect::Funcs(_) => header = None,
            Sect::Tables(ts) => {
                for i in 0..ts.len() {
                    let id = item(&mut x, format!("table[{}]", i), l.entries[i], Kind::Misc, true);
                    spaces[1].push(id);
                }
                header.as_mut().unwrap().0 = "table section headers".into();
            }
            Sect::Mems(ms) => {
                for i in 0..ms.len() {
                    let id = item(&mut x, format!("memory[{}]", i), l.entries[i], Kind::Misc, false);
                    spaces[2].push(id);
                }
                header.as_mut().unwrap().0 = "memory section headers".into();
            }
            Sect::Globals(gs) => {
                for i in 0..gs.len() {
                    let id = item(&mut x, format!("global[{}]", i), l.entries[i], Kind::Data, false);
                    spaces[3].push(id);
                }
                header.as_mut().unwrap().0 = "global section headers".into();
            }
            Sect::Exports(es) => {
                for (i, e) in es.iter().enumerate() {
                    exports.push(item(&mut x, format!("export \"{}\"", e.name), l.entries[i], Kind::Misc, true));
                }
                header.as_mut().unwrap().0 = "export section headers".into();
            }
            Sect::Start(_) => header.as_mut().unwrap().0 = "start section headers".into(),
            Sect::Elems(es) => {
                for i in 0..es.len() {
                    elems.push(item(&mut x, format!("elem[{}]", i), l.entries[i], Kind::Misc, false));
                }
                header.as_mut().unwrap().0 = "element section headers".into();
            }
            Sect::DataCount(_) => header.as_mut().unwrap().0 = "data count section headers".into(),
            Sect::Code(bs) => {
                let fsec = fsec.expect("harness: no function section");
                for i in 0..bs.len() {
                    let name = fnames
                        .get(&((i + imported_funcs) as u32))
                        .cloned()
                        .unwrap_or_else(|| format!("code[{}]", i));
                    let size = l.entries[i] + lay[fsec].entries[i];
                    code.push(item(&mut x, name, size, Kind::Code, false));
                }
                let fh = lay[fsec].len - lay[fsec].entries.iter().sum::<u32>();
                header = Some(("code section headers".into(), l.len - sum + fh));
            }
            Sect::Datas(ds) => {
                for i in 0..ds.len() {
                    let name = match dnames.get(&(i as u32)) {
                        Some(n) => format!("data segment \"{}\"", n),
                        None => format!("data[{}]", i),
                    };
                    datas.push(item(&mut x, name, l.entries[i], Kind::Data, false));
                }
                header.as_mut().unwrap().0 = "data section headers".into();
            }
            Sect::Custom(n, _) => {
                item(&mut x, format!("custom section '{}'", n), l.entries[0], Kind::Misc, false);
                header.as_mut().unwrap().0 = format!("custom section '{}' headers", n);
            }
            Sect::Name(subs) => {
                for (i, sub) in subs.iter().enumerate() {
                    let id = match sub {
                        NameSub::Module(_) => 0,
                        NameSub::Funcs(_) => 1,
                        NameSub::Locals(_) => 2,
                        NameSub::Data(_) => 9,
                        NameSub::Other(id, _) => *id,
                    };
                    item(&mut x, subname(id).into(), l.entries[i], Kind::Debug, true);
                }
                header.as_mut().unwrap().0 = "custom section 'name' headers".into();
            }
        }
        if let Some((name, size)) = header {
            let id = item(&mut x, name, size, Kind::Misc, true);
            if let Sect::Start(f) = s {
                start = Some((id, *f));
            }
        }
    }
    // Index spaces: imports first.
    let mut sp: [Vec<usize>; 4] = Default::default();
    for (id, s) in &imports {
        sp[*s as usize].push(*id);
    }
    for k in 1..4 {
        sp[k].extend(&spaces[k]);
    }
    sp[0].extend(&code);
    // References.
    let mut segs: Vec<(u64, u64, usize)> = vec![];
    for s in &m.sects {
        if let Sect::Datas(ds) = s {
            for (i, d) in ds.iter().enumerate() {
                if d.flag != 1 {
                    let off = match d.off {
                        Expr::I32(v) => Some(u64::from(v as u32)),
                        Expr::I64(v) => Some(v as u64),
                        _ => None,
                    };
                    if let Some(o) = off {
                        segs.push((o, d.bytes.len() as u64, datas[i]));
                    }
                }
            }
        }
    }
    for s in &m.sects {
        match s {
            Sect::Funcs(fs) => {
                for (i, f) in fs.iter().enumerate() {
                    if !types.is_empty() {
                        x.edges.insert((code[i], types[*f as usize]));
                    }
                }
            }
            Sect::Code(bs) => {
                for (i, b) in bs.iter().enumerate() {
                    let mut prev: Option<i32> = None;
                    for op in &b.ops {
                        let mut cur = None;
                        match op {
                            Op::Call(f) => {
                                x.edges.insert((code[i], sp[0][*f as usize]));
                            }
                            Op::GlobalGet(g) | Op::GlobalSet(g) => {
                                x.edges.insert((code[i], sp[3][*g as usize]));
                            }
                            Op::I32Const(v) => cur = Some(*v),
                            Op::Load(opc, _, off) => {
                                if (0x28..=0x35).contains(opc) {
                                    if let Some(v) = prev {
                                        let addr = u64::from(v as u32) + u64::from(*off);
                                        if forward {
                                            let next = segs.iter().filter(|s| s.1 > 0 && s.0 >= addr).min_by_key(|s| s.0);
                                            if let Some(s) = next {
                                                x.edges.insert((code[i], s.2));
                                            }
                                            continue;
                                        }
                                        for (o, l, id) in &segs {
                                            if addr >= *o && addr - *o < *l {
                                                x.edges.insert((code[i], *id));
                                            }
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                        prev = cur;
                    }
                }
            }
            Sect::Exports(es) => {
                for (i, e) in es.iter().enumerate() {
                    x.edges.insert((exports[i], sp[e.space as usize][e.index as usize]));
                }
            }
            Sect::Elems(es) => {
                for (i, e) in es.iter().enumerate() {
                    if e.flag & 1 == 0 {
                        let t = if e.flag & 2 != 0 { e.table } else { 0 };
                        x.edges.insert((sp[1][t as usize], elems[i]));
                    }
                    for f in e.funcs.iter().flatten() {
                        x.edges.insert((elems[i], sp[0][*f as usize]));
                    }
                }
            }
            _ => {}
        }
    }
    if let Some((id, f)) = start {
        x.edges.insert((id, sp[0][f as usize]));
    }
    x
}

/// Compares the parsed items with the model. `edges`: also compare edges and roots.
/// Items are identified by name and, among equal names, by their order in the file.
pub fn compare(items: &twiggy_ir::Items, x: &Expected, inventory: bool, edges: bool) -> Result<(), String> {
    use twiggy_ir::{Id, ItemKind};
    let root = items.meta_root();
    let mut by_name: BTreeMap<&str, Vec<&twiggy_ir::Item>> = BTreeMap::new();
    for i in items.iter() {
        if i.id() != root {
            by_name.entry(i.name()).or_default().push(i);
        }
    }
    let mut want: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (k, i) in x.items.iter().enumerate() {
        want.entry(&i.name).or_default().push(k);
    }
    for (n, v) in &by_name {
        if want.get(n).map_or(0, |w| w.len()) != v.len() {
            return Err(format!(
                "{} item(s) named {:?}, expected {}",
                v.len(),
                n,
                want.get(n).map_or(0, |w| w.len())
            ));
        }
    }
    let mut ids: Vec<Option<Id>> = vec![None; x.items.len()];
    for (n, w) in &want {
        let v = match by_name.get(n) {
            Some(v) => v,
            None => return Err(format!("no item named {:?} (size {})", n, x.items[w[0]].size)),
        };
        for (k, i) in w.iter().zip(v) {
            ids[*k] = Some(i.id());
            if inventory {
                let e = &x.items[*k];
                if i.size() != e.size {
                    return Err(format!("item {:?} has size {}, expected {}", n, i.size(), e.size));
                }
                let kind = match i.kind() {
                    ItemKind::Code(_) => Kind::Code,
                    ItemKind::Data(_) => Kind::Data,
                    ItemKind::Debug(_) => Kind::Debug,
                    ItemKind::Misc(_) => Kind::Misc,
                };
                let same = match e.kind {
                    // only code and data are observable
                    Kind::Debug | Kind::Misc => kind == Kind::Debug || kind == Kind::Misc,
                    k => k == kind,
                };
                if !same {
                    return Err(format!("item {:?} is {:?}, expected {:?}", n, kind, e.kind));
                }
            }
        }
    }
    if edges {
        let mut back: BTreeMap<Id, usize> = BTreeMap::new();
        for (k, id) in ids.iter().enumerate() {
            back.insert(id.unwrap(), k);
        }
        let nm = |k: usize| x.items[k].name.as_str();
        for (k, id) in ids.iter().enumerate() {
            let mut got: Vec<usize> = vec![];
            for t in items.neighbors(id.unwrap()) {
                match back.get(&t) {
                    Some(t) => got.push(*t),
                    None => return Err(format!("{:?} refers to an item that does not exist", nm(k))),
                }
            }
            got.sort_unstable();
            let w: Vec<usize> = x.edges.range((k, 0)..(k + 1, 0)).map(|e| e.1).collect();
            if got != w {
                return Err(format!(
                    "{:?} refers to {:?}, expected {:?}",
                    nm(k),
                    got.iter().map(|t| nm(*t)).collect::<Vec<_>>(),
                    w.iter().map(|t| nm(*t)).collect::<Vec<_>>()
                ));
            }
        }
        let mut got: Vec<usize> = vec![];
        for t in items.neighbors(root) {
            match back.get(&t) {
                Some(t) => got.push(*t),
                None => return Err("a root does not exist".into()),
            }
        }
        got.sort_unstable();
        let w: Vec<usize> = (0..x.items.len()).filter(|k| x.items[*k].root).collect();
        if got != w {
            return Err(format!(
                "roots are {:?}, expected {:?}",
                got.iter().map(|t| nm(*t)).collect::<Vec<_>>(),
                w.iter().map(|t| nm(*t)).collect::<Vec<_>>()
            ));
        }
    }
    Ok(())
}
