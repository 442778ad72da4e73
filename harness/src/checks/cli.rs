//! C18 (failing writes), C19 (what a command leaves behind) and C21 (input formats), mostly on the command itself.
use crate::engine::*;
use crate::opts;
use crate::report::*;
use crate::suite::{self, Ana};
use crate::util::Scratch;
use crate::wasmgen::*;
use crate::{Check, Tier};
use std::io::{self, Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use twiggy_analyze as an;
use twiggy_ir::Items;
use twiggy_opt as opt;
use twiggy_traits::{Emit, ParseMode};

// ---------------------------------------------------------------- running the command

pub fn twiggy() -> String {
    std::env::var("TWIGGY").unwrap_or_else(|_| "/verif/.build/cli/debug/twiggy".into())
}

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}

impl Ran {
    pub fn show(&self) -> String {
        format!("status {:?} signal {:?}\nstdout: {}\nstderr: {}", self.code, self.signal, String::from_utf8_lossy(&self.out), self.err)
    }
}

pub enum Out {
    Pipe,
    File(String),
    ClosedPipe,
}

/// Runs the command in `dir` with at most `limit` bytes per written file.
pub fn run(dir: &str, args: &[String], out: Out, limit: Option<u64>) -> Ran {
    let mut c = Command::new(twiggy());
    c.args(args).current_dir(dir).stdin(Stdio::null()).stderr(Stdio::piped()).env_clear();
    let pipe = matches!(out, Out::Pipe);
    match out {
        Out::Pipe => {
            c.stdout(Stdio::piped());
        }
        Out::File(p) => {
            c.stdout(std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&p).expect("harness: stdout file"));
        }
        Out::ClosedPipe => {
            let mut fds = [0i32; 2];
            unsafe {
                assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0, "harness: pipe");
                libc::close(fds[0]);
                c.stdout(<Stdio as std::os::unix::io::FromRawFd>::from_raw_fd(fds[1]));
            }
        }
    }
    if let Some(l) = limit {
        unsafe {
            c.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let r = libc::rlimit { rlim_cur: l as libc::rlim_t, rlim_max: l as libc::rlim_t };
                if libc::setrlimit(libc::RLIMIT_FSIZE, &r) != 0 {
                    return Err(io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let mut ch = c.spawn().unwrap_or_else(|e| panic!("harness: cannot run {}: {}", twiggy(), e));
    drop(c);
    let mut o = vec![];
    let mut e = vec![];
    let mut es = ch.stderr.take().unwrap();
    if pipe {
        let mut os = ch.stdout.take().unwrap();
        let h = std::thread::spawn(move || {
            let mut e = vec![];
            let _ = es.read_to_end(&mut e);
            e
        });
        let _ = os.read_to_end(&mut o);
        e = h.join().unwrap();
    } else {
        let _ = es.read_to_end(&mut e);
    }
    let st = ch.wait().unwrap();
    Ran { code: st.code(), signal: st.signal(), out: o, err: String::from_utf8_lossy(&e).into_owned() }
}

pub fn sv(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

/// The error message of a failed command: exit status 1, something on stderr, no crash.
fn failed(r: &Ran) -> Result<(), String> {
    if r.code != Some(1) {
        return Err(format!("a failing command must exit with status 1\n{}", r.show()));
    }
    if r.err.trim().is_empty() {
        return Err(format!("a failing command must say why\n{}", r.show()));
    }
    if r.err.contains("panicked") {
        return Err(format!("the command panics\n{}", r.show()));
    }
    Ok(())
}

// ---------------------------------------------------------------- subjects

/// A small module with generics, data, exports, garbage; `v` varies the sizes.
pub fn subject(v: usize) -> Vec<u8> {
    let code = |k: usize, calls: &[u32]| Body {
        locals: vec![],
        ops: calls.iter().map(|c| Op::Call(*c)).chain((0..k).map(|_| Op::Nop)).collect(),
    };
    let names = ["main", "f<a>", "f<b>", "g::h0123456789abcdef", "g::h0123456789abcde0", "dead, \"x\""];
    Module {
        sects: vec![
            Sect::Types(vec![FuncType(vec![], vec![])]),
            Sect::Funcs(vec![0; 6]),
            Sect::Mems(vec![(1, None)]),
            Sect::Exports(vec![Export { name: "main".into(), space: Space::Func, index: 0 }]),
            Sect::Code(vec![
                code(2 + v, &[1, 2]),
                code(4, &[3]),
                code(4 + 3 * v, &[3, 4]),
                code(9 - v, &[1]),
                code(9, &[]),
                code(5, &[5]),
            ]),
            Sect::Datas(vec![Data { flag: 0, off: Expr::I32(8), bytes: vec![1; 10 + v] }]),
            Sect::Name(vec![NameSub::Funcs(names.iter().enumerate().map(|(i, n)| (i as u32, n.to_string())).collect())]),
        ],
        pad: 0,
        pad_counts: 0,
                pad_inner: 0,
    }
    .bytes()
}

/// Arguments after the input files, by command.
fn commands(rich: bool) -> Vec<(&'static str, Vec<String>)> {
    let mut v = vec![
        ("top", sv(&[])),
        ("dominators", sv(&[])),
        ("paths", sv(&["f<b>"])),
        ("monos", sv(&[])),
        ("garbage", sv(&[])),
        ("diff", sv(&[])),
    ];
    if rich {
        v.push(("top", sv(&["-n", "2", "--retained"])));
        v.push(("dominators", sv(&["f<b>", "-d", "1"])));
        v.push(("paths", sv(&["--descending", "-d", "2"])));
        v.push(("monos", sv(&["-g", "-m", "1"])));
        v.push(("garbage", sv(&["--show-data-segments", "-n", "0"])));
        v.push(("diff", sv(&["--regex", "f.*", "-n", "1"])));
    }
    v
}

/// The command line; input file names are given.
fn line(cmd: &str, inputs: &[&str], more: &[String]) -> Vec<String> {
    let mut a = vec![cmd.to_string(), inputs[0].to_string()];
    if cmd == "diff" {
        a.push(inputs[1].to_string());
    }
    a.extend(more.iter().cloned());
    a
}

/// What the library says for this command line on these items.
pub fn library(args: &[String], a: &mut Items, b: Option<&mut Items>) -> Result<Vec<u8>, String> {
    let o = opts::parse(args)?;
    let fmt = opt::CommonCliOptions::output_format(&o);
    let e: Box<dyn Emit> = match &o {
        opt::Options::Top(o) => an::top(a, o),
        opt::Options::Dominators(o) => an::dominators(a, o),
        opt::Options::Paths(o) => an::paths(a, o),
        opt::Options::Monos(o) => an::monos(a, o),
        opt::Options::Garbage(o) => an::garbage(a, o),
        opt::Options::Diff(o) => an::diff(a, b.expect("harness: second items"), o),
    }
    .map_err(|e| e.to_string())?;
    let mut buf = vec![];
    e.emit(a, &mut buf, fmt).map_err(|e| e.to_string())?;
    Ok(buf)
}

pub fn expected(args: &[String], old: &[u8], new: &[u8]) -> Result<Vec<u8>, String> {
    let mut a = twiggy_parser::parse(old).map_err(|e| e.to_string())?;
    let mut b = twiggy_parser::parse(new).map_err(|e| e.to_string())?;
    library(args, &mut a, Some(&mut b))
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    Full,
    /// at most this many bytes
    Short(usize),
    Interrupted,
    Fail(u8),
    Zero,
}

const KINDS: [io::ErrorKind; 4] = [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied];

struct Sink<'a> {
    got: Vec<u8>,
    calls: usize,
    flushes: usize,
    plan: &'a dyn Fn(usize, usize) -> Step,
    flush: &'a dyn Fn(usize) -> Step,
    faults: usize,
}

impl<'a> Sink<'a> {
    fn new(plan: &'a dyn Fn(usize, usize) -> Step, flush: &'a dyn Fn(usize) -> Step) -> Sink<'a> {
        Sink { got: vec![], calls: 0, flushes: 0, plan, flush, faults: 0 }
    }
}

impl<'a> Write for Sink<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let s = (self.plan)(self.calls, self.got.len());
        self.calls += 1;
        match s {
            Step::Full => {
                self.got.extend_from_slice(buf);
                Ok(buf.len())
            }
            Step::Short(n) => {
                let n = n.clamp(1, buf.len());
                self.got.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Step::Interrupted => Err(io::ErrorKind::Interrupted.into()),
            Step::Zero => {
                self.faults += 1;
                Ok(0)
            }
            Step::Fail(k) => {
                self.faults += 1;
                Err(io::Error::new(KINDS[k as usize], "injected"))
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        let s = (self.flush)(self.flushes);
        self.flushes += 1;
        match s {
            Step::Fail(k) => {
                self.faults += 1;
                Err(io::Error::new(KINDS[k as usize], "injected flush"))
            }
            _ => Ok(()),
        }
    }
}

struct Prepared {
    name: String,
    items: Items,
    emit: Box<dyn Emit>,
    full: [Vec<u8>; 3],
    calls: [usize; 3],
    flushes: [usize; 3],
}

fn never(_: usize, _: usize) -> Step {
    Step::Full
}
fn noflush(_: usize) -> Step {
    Step::Full
}

fn prepare(a: &Ana, k: usize) -> Prepared {
    let (s, t) = super::formats::subject(k);
    let (mut x, mut y) = (s.build(), t.build());
    let emit = (a.run)(&mut x, &mut y).unwrap_or_else(|e| panic!("{}: analysis failed: {}", a.name, e));
    let mut p = Prepared {
        name: format!("graph {} {}", k, a.name),
        items: x,
        emit,
        full: Default::default(),
        calls: [0; 3],
        flushes: [0; 3],
    };
    for f in 0..3 {
        let mut s = Sink::new(&never, &noflush);
        let r = p.emit.emit(&p.items, &mut s, FMTS[f].of());
        assert!(r.is_ok(), "{} {}: emitting fails: {:?}", p.name, FMTS[f].name(), r.err());
        p.full[f] = s.got;
        p.calls[f] = s.calls;
        p.flushes[f] = s.flushes;
    }
    p
}

fn verdict(p: &Prepared, f: usize, s: &Sink, r: &anyhow::Result<()>, how: &str) -> Result<(), String> {
    let at = format!("{} -f {}, {}", p.name, FMTS[f].name(), how);
    match r {
        Ok(()) if s.faults > 0 => Err(format!("{}: a write failed, yet success is reported; received {} of {} bytes", at, s.got.len(), p.full[f].len())),
        Ok(()) if s.got != p.full[f] => Err(format!(
            "{}: success is reported, but the destination received\n{}\ninstead of\n{}",
            at,
            String::from_utf8_lossy(&s.got),
            String::from_utf8_lossy(&p.full[f])
        )),
        Err(e) if s.faults == 0 => Err(format!("{}: no write failed, yet the call returns {}", at, e)),
        _ => Ok(()),
    }
}

const GRAPHS: usize = 5;

fn anas18() -> Vec<Ana> {
    let mut v = suite::all();
    v.push(suite::dominators(&sv(&["f", "b"]), false, None, None));
    v.push(suite::paths(&sv(&["f", "b", "c"]), false, false, Some(1), Some(1)));
    v
}

pub fn c18(tier: Tier) -> Check {
    let calls = fam(
        "every-write-call",
        "15 analyses x 5 graphs x 3 formats: each write call of the fault-free run in turn fails (4 error kinds, or accepts nothing), for good or only once; and each flush fails",
        |ch, c| {
            let anas = anas18();
            let a = ch.of(&anas);
            let k = ch.pick(GRAPHS);
            let f = ch.pick(3);
            let kind = ch.pick(5);
            let step = if kind == 4 { Step::Zero } else { Step::Fail(kind as u8) };
            let forever = ch.flag();
            let p = prepare(a, k);
            c.state((&p.name, f, kind, forever));
            c.sample(|| format!("{} -f {} {:?} at each of {} calls, for good: {}", p.name, FMTS[f].name(), step, p.calls[f], forever));
            c.nontrivial();
            for at in 0..p.calls[f] {
                let plan = |n: usize, _: usize| if n == at || forever && n > at { step } else { Step::Full };
                let mut s = Sink::new(&plan, &noflush);
                let r = p.emit.emit(&p.items, &mut s, FMTS[f].of());
                c.trace();
                verdict(&p, f, &s, &r, &format!("{:?} at write call {} (for good: {})", step, at, forever))?;
                if s.faults == 0 {
                    return Err(format!("harness: the fault at call {} was not reached", at));
                }
            }
            if kind < 4 {
                for at in 0..p.flushes[f] {
                    let fl = |n: usize| if n == at { step } else { Step::Full };
                    let mut s = Sink::new(&never, &fl);
                    let r = p.emit.emit(&p.items, &mut s, FMTS[f].of());
                    c.trace();
                    verdict(&p, f, &s, &r, &format!("{:?} at flush {}", step, at))?;
                }
            }
            Ok(())
        },
    );
    let bytes = fam(
        "every-byte",
        "the same, with a destination that accepts exactly B bytes and then fails or accepts nothing, for every B from 0 to the length of the report, the last accepted write being cut short",
        |ch, c| {
            let anas = anas18();
            let a = ch.of(&anas);
            let k = ch.pick(GRAPHS);
            let f = ch.pick(3);
            let p = prepare(a, k);
            c.state((&p.name, f));
            c.sample(|| format!("{} -f {}: {} cut points", p.name, FMTS[f].name(), p.full[f].len()));
            c.nontrivial();
            for b in 0..=p.full[f].len() {
                for end in [Step::Fail(0), Step::Zero] {
                    let plan = |_: usize, have: usize| if have < b { Step::Short(b - have) } else { end };
                    let mut s = Sink::new(&plan, &noflush);
                    let r = p.emit.emit(&p.items, &mut s, FMTS[f].of());
                    c.trace();
                    verdict(&p, f, &s, &r, &format!("room for {} bytes, then {:?}", b, end))?;
                    if b < p.full[f].len() && r.is_ok() {
                        return Err(format!("harness: the limit {} was not reached", b));
                    }
                    if !p.full[f].starts_with(&s.got) {
                        return Err(format!("{} -f {} with room for {} bytes writes something else before failing", p.name, FMTS[f].name(), b));
                    }
                }
            }
            Ok(())
        },
    );
    let short = fam(
        "short-writes",
        "the same, with writes cut to 1..12 bytes and interruptions before none, every, every second, every third write: the report arrives complete",
        |ch, c| {
            let anas = anas18();
            let a = ch.of(&anas);
            let k = ch.pick(GRAPHS);
            let p = prepare(a, k);
            c.state(&p.name);
            c.sample(|| p.name.clone());
            c.nontrivial();
            for f in 0..3 {
                for n in 1..=12usize {
                    for i in 0..4usize {
                        let plan = |call: usize, _: usize| {
                            if i == 1 && call % 2 == 0 || i == 2 && call % 3 == 0 || i == 3 && call % 3 != 2 {
                                Step::Interrupted
                            } else {
                                Step::Short(n)
                            }
                        };
                        let mut s = Sink::new(&plan, &noflush);
                        let r = p.emit.emit(&p.items, &mut s, FMTS[f].of());
                        c.trace();
                        verdict(&p, f, &s, &r, &format!("writes of {} bytes, interruptions {}", n, i))?;
                    }
                }
            }
            Ok(())
        },
    );
    let depth = tier.pick(6, 9);
    let plans = fam(
        "fault-plans",
        format!("all assignments of full, one byte, interrupted, failing to the first {} write calls of 13 analyses x 3 formats on the graph with every role", depth),
        move |ch, c| {
            let anas = suite::all();
            let a = ch.of(&anas);
            let f = ch.pick(3);
            let p = prepare(a, 0);
            let head: Vec<usize> = (0..3).map(|_| ch.pick(4)).collect();
            c.state((&p.name, f, &head));
            c.sample(|| format!("{} -f {} {:?}...", p.name, FMTS[f].name(), head));
            c.nontrivial();
            let rest = 4usize.pow(depth as u32 - 3);
            for code in 0..rest {
                let of = |n: usize| {
                    let x = if n < 3 {
                        head[n]
                    } else if n < depth {
                        code / 4usize.pow(n as u32 - 3) % 4
                    } else {
                        0
                    };
                    [Step::Full, Step::Short(1), Step::Interrupted, Step::Fail(1)][x]
                };
                let plan = |n: usize, _: usize| of(n);
                let mut s = Sink::new(&plan, &noflush);
                let r = p.emit.emit(&p.items, &mut s, FMTS[f].of());
                c.trace();
                verdict(&p, f, &s, &r, &format!("plan {:?}", (0..depth).map(of).collect::<Vec<_>>()))?;
            }
            Ok(())
        },
    );
    let cli = fam(
        "command-file-limit",
        "the twiggy command, 12 command lines x 3 formats, writing to a file given with -o and to a redirected standard output, under every limit on the file size from 0 to beyond the length of the report (quick: every limit for 6 command lines, the ends and every 7th for the rest)",
        move |ch, c| {
            let cmds = commands(true);
            let i = ch.pick(cmds.len());
            let (cmd, more) = &cmds[i];
            let f = *ch.of(&FMTS);
            let by_o = ch.flag();
            let (old, new) = (subject(0), subject(1));
            let mut args = line(cmd, &["old.wasm", "new.wasm"], more);
            args.extend(sv(&["-f", f.name()]));
            let want = expected(&args, &old, &new)?;
            if by_o {
                args.extend(sv(&["-o", "out"]));
            }
            let k = ch.pick(want.len() + 3);
            if !tier.thorough() && i >= 6 && k > 2 && k + 2 < want.len() && k % 7 != 0 {
                return Ok(());
            }
            let dir = Scratch::new("c18");
            let p = |n: &str| format!("{}/{}", dir.path(), n);
            std::fs::write(p("old.wasm"), &old).unwrap();
            std::fs::write(p("new.wasm"), &new).unwrap();
            c.state((&args, k));
            c.sample(|| format!("{} with room for {} of {} bytes", args.join(" "), k, want.len()));
            c.nontrivial();
            let stdout = if by_o { Out::Pipe } else { Out::File(p("out")) };
            let r = run(dir.path(), &args, stdout, Some(k as u64));
            c.trace();
            let got = std::fs::read(p("out")).unwrap_or_default();
            let at = || format!("{} with room for {} of {} bytes", args.join(" "), k, want.len());
            if k < want.len() {
                failed(&r).map_err(|e| format!("{}: {}", at(), e))?;
            } else {
                if r.code != Some(0) || !r.err.is_empty() {
                    return Err(format!("{}: fails although there is room\n{}", at(), r.show()));
                }
                if got != want {
                    return Err(format!("{}: success, but the file holds\n{}", at(), String::from_utf8_lossy(&got)));
                }
            }
            Ok(())
        },
    );
    let ends = fam(
        "command-full-destination",
        "the same command lines with the destinations /dev/full (by -o and by redirection), a pipe nobody reads, and a destination that cannot be opened: exit status 1 and a message",
        |ch, c| {
            let cmds = commands(true);
            let (cmd, more) = ch.of(&cmds).clone();
            let f = *ch.of(&FMTS);
            let how = ch.pick(5);
            let (old, new) = (subject(0), subject(1));
            let dir = Scratch::new("c18");
            let p = |n: &str| format!("{}/{}", dir.path(), n);
            std::fs::write(p("old.wasm"), &old).unwrap();
            std::fs::write(p("new.wasm"), &new).unwrap();
            let mut args = line(cmd, &["old.wasm", "new.wasm"], &more);
            args.extend(sv(&["-f", f.name()]));
            let want = expected(&args, &old, &new)?;
            let out = match how {
                0 => {
                    args.extend(sv(&["-o", "/dev/full"]));
                    Out::Pipe
                }
                1 => Out::File("/dev/full".into()),
                2 => Out::ClosedPipe,
                3 => {
                    args.extend(sv(&["-o", "no/such/dir/out"]));
                    Out::Pipe
                }
                _ => {
                    args.extend(sv(&["-o", "."]));
                    Out::Pipe
                }
            };
            c.state(&(&args, how));
            c.sample(|| format!("{} (destination {})", args.join(" "), how));
            c.nontrivial();
            let r = run(dir.path(), &args, out, None);
            c.trace();
            if want.is_empty() && how < 3 {
                return Ok(());
            }
            failed(&r).map_err(|e| format!("{} (destination {}): {}", args.join(" "), how, e))?;
            if !r.out.is_empty() {
                return Err(format!("{}: a report on standard output\n{}", args.join(" "), r.show()));
            }
            Ok(())
        },
    );
    Check {
        id: "C18",
        level: "fault_enumeration",
        families: vec![calls, bytes, short, plans, ends, cli],
        assumptions: vec!["a standard output that is closed before the start is replaced by /dev/null by the language runtime"],
        hang_secs: 60,
    }
}

// ---------------------------------------------------------------- C19

/// Contents an input file may have; None: the file does not exist.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Cond {
    Wasm,
    Elf,
    Missing,
    Dir,
    Empty,
    Junk,
    Cut,
    Magic,
    Invalid,
}
const CONDS: [Cond; 9] =
    [Cond::Wasm, Cond::Elf, Cond::Missing, Cond::Dir, Cond::Empty, Cond::Junk, Cond::Cut, Cond::Magic, Cond::Invalid];

impl Cond {
    fn bytes(self, v: usize) -> Option<Vec<u8>> {
        let w = subject(v);
        Some(match self {
            Cond::Wasm => w,
            Cond::Elf => super::elf::tiny(v),
            Cond::Missing | Cond::Dir => return None,
            Cond::Empty => vec![],
            Cond::Junk => b"#!/bin/sh\nexit 0\n".to_vec(),
            Cond::Cut => w[..w.len() - 3].to_vec(),
            Cond::Magic => w[..4].to_vec(),
            // a valid prefix, then a call of a function that does not exist
            Cond::Invalid => {
                let mut m = w;
                m.extend([0x08, 0x01, 0x63]);
                m
            }
        })
    }
    fn make(self, path: &str, v: usize) {
        match self {
            Cond::Missing => {}
            Cond::Dir => std::fs::create_dir(path).unwrap(),
            _ => std::fs::write(path, self.bytes(v).unwrap()).unwrap(),
        }
    }
    /// Whether the mode can read it (file names end in .wasm or .o).
    fn readable(self, mode: &str, wasm_name: bool) -> bool {
        match self {
            Cond::Wasm => mode != "dwarf",
            Cond::Elf => mode == "dwarf" || mode != "wasm" && !wasm_name,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Dest {
    Stdout,
    Dash,
    New,
    Longer,
    EmptyFile,
    Input,
    Link,
    Sub,
    Abs,
}
const DESTS: [Dest; 9] = [Dest::Stdout, Dest::New, Dest::Longer, Dest::Dash, Dest::EmptyFile, Dest::Input, Dest::Link, Dest::Sub, Dest::Abs];

/// All regular files below `dir` with their contents.
fn files(dir: &str) -> std::collections::BTreeMap<String, Vec<u8>> {
    let mut out = std::collections::BTreeMap::new();
    let mut todo = vec![String::new()];
    while let Some(rel) = todo.pop() {
        for e in std::fs::read_dir(format!("{}/{}", dir, rel)).unwrap() {
            let e = e.unwrap();
            let name = format!("{}{}", rel, e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_dir() {
                out.insert(format!("{}/", name), vec![]);
                todo.push(format!("{}/", name));
            } else if t.is_symlink() {
                out.insert(name, std::fs::read_link(e.path()).unwrap().to_string_lossy().into_owned().into_bytes());
            } else {
                out.insert(name, std::fs::read(e.path()).unwrap());
            }
        }
    }
    out
}

struct Place {
    dir: Scratch,
    /// arguments that select the destination
    args: Vec<String>,
    /// the file that receives the report
    file: Option<String>,
}

fn place(d: Dest, input: &str) -> Place {
    let dir = Scratch::new("c19");
    let p = |n: &str| format!("{}/{}", dir.path(), n);
    let (args, file) = match d {
        Dest::Stdout => (sv(&[]), None),
        Dest::Dash => (sv(&["-o", "-"]), None),
        Dest::New => (sv(&["-o", "out"]), Some("out".to_string())),
        Dest::Longer => {
            std::fs::write(p("out"), vec![b'x'; 20000]).unwrap();
            (sv(&["-o", "out"]), Some("out".to_string()))
        }
        Dest::EmptyFile => {
            std::fs::write(p("out"), b"").unwrap();
            (sv(&["-o", "out"]), Some("out".to_string()))
        }
        Dest::Input => (sv(&["-o", input]), Some(input.to_string())),
        Dest::Link => {
            std::fs::write(p("real"), b"precious").unwrap();
            std::os::unix::fs::symlink("real", p("out")).unwrap();
            (sv(&["-o", "out"]), Some("real".to_string()))
        }
        Dest::Sub => {
            std::fs::create_dir(p("s")).unwrap();
            std::fs::write(p("s/out"), b"precious\n").unwrap();
            (sv(&["-o", "s/out"]), Some("s/out".to_string()))
        }
        Dest::Abs => (sv(&["-o", &p("a b.json")]), Some("a b.json".to_string())),
    };
    Place { dir, args, file }
}

/// Runs the command and compares status, both streams and every file with what must be there.
fn observe(pl: &Place, args: &[String], want: &Result<Vec<u8>, String>, c: &Case) -> Result<(), String> {
    let before = files(pl.dir.path());
    let r = run(pl.dir.path(), args, Out::Pipe, None);
    c.trace();
    let after = files(pl.dir.path());
    let at = |e: String| format!("{:?}: {}", args, e);
    match want {
        Err(_) => {
            failed(&r).map_err(at)?;
            if !r.out.is_empty() {
                return Err(at(format!("fails, but prints a report\n{}", r.show())));
            }
            if before != after {
                let d: Vec<&String> = after.iter().filter(|(k, v)| before.get(*k) != Some(*v)).map(|x| x.0).collect();
                return Err(at(format!("fails, but changes {:?}", d)));
            }
        }
        Ok(w) => {
            if r.code != Some(0) {
                return Err(at(format!("fails\n{}", r.show())));
            }
            if !r.err.is_empty() {
                return Err(at(format!("succeeds with an error message\n{}", r.show())));
            }
            let mut should = before;
            match &pl.file {
                None => {
                    if r.out != *w {
                        return Err(at(format!("prints\n{}\nexpected\n{}", String::from_utf8_lossy(&r.out), String::from_utf8_lossy(w))));
                    }
                }
                Some(f) => {
                    should.insert(f.clone(), w.clone());
                    if !r.out.is_empty() {
                        return Err(at(format!("writes to a file, but also prints\n{}", r.show())));
                    }
                }
            }
            if after != should {
                let d: Vec<String> = after
                    .iter()
                    .filter(|(k, v)| should.get(*k) != Some(*v))
                    .map(|(k, v)| format!("{}: {}", k, String::from_utf8_lossy(v)))
                    .chain(should.keys().filter(|k| !after.contains_key(*k)).map(|k| format!("{} is missing", k)))
                    .collect();
                return Err(at(format!("wrong files after success: {}", d.join("\n"))));
            }
        }
    }
    Ok(())
}

/// The items in the bytes by the format they are known to have.
fn items_of(cond: Cond, v: usize) -> Result<Items, String> {
    match cond {
        Cond::Wasm => twiggy_parser::parse(&subject(v)).map_err(|e| e.to_string()),
        Cond::Elf => Ok(super::elf::tiny_items(v)),
        _ => Err("unreadable".into()),
    }
}

pub fn c19(tier: Tier) -> Check {
    let product = fam(
        "product",
        "the twiggy command: 12 command lines (quick: 6 x 4 destinations and 12 x 2) x 9 input conditions (wasm, ELF, missing, directory, empty, junk, cut short, magic number only, dangling index), for diff in either position x 4 modes x 4 formats x 2 file names x 9 destinations; status, both streams and all files",
        move |ch, c| {
            let cmds = commands(true);
            let i = ch.pick(cmds.len());
            let (cmd, more) = cmds[i].clone();
            let nd = tier.pick(if i < 6 { 4 } else { 2 }, 9);
            let d = DESTS[ch.pick(nd)];
            let mode = *ch.of(&["", "auto", "wasm", "dwarf"]);
            let fmt = *ch.of(&["", "json", "csv", "text"]);
            let wasm_name = ch.flag();
            let c1 = *ch.of(&CONDS);
            let c2 = if cmd == "diff" { *ch.of(&CONDS) } else { Cond::Missing };
            if cmd == "diff" && c1 != Cond::Wasm && c2 != Cond::Wasm && c1 != c2 && !(c1 == Cond::Elf || c2 == Cond::Elf) {
                return Ok(());
            }
            let (n1, n2) = if wasm_name { ("old.wasm", "new.wasm") } else { ("old.o", "new") };
            // a wasm module is an object file without DWARF to the object reader
            let odd = |x: Cond| mode == "dwarf" && matches!(x, Cond::Wasm | Cond::Cut | Cond::Magic | Cond::Invalid);
            if odd(c1) || cmd == "diff" && odd(c2) {
                return Ok(());
            }
            let pl = place(d, n1);
            c1.make(&format!("{}/{}", pl.dir.path(), n1), 0);
            if cmd == "diff" {
                c2.make(&format!("{}/{}", pl.dir.path(), n2), 1);
            }
            let mut args = line(cmd, &[n1, n2], &more);
            if !fmt.is_empty() {
                args.extend(sv(&["-f", fmt]));
            }
            let plain = args.clone();
            if !mode.is_empty() {
                args.extend(sv(&["--mode", mode]));
            }
            args.extend(pl.args.clone());
            c.state((&args, c1, c2));
            c.sample(|| format!("{} with inputs {:?} {:?}", args.join(" "), c1, c2));
            let ok = c1.readable(mode, wasm_name) && (cmd != "diff" || c2.readable(mode, wasm_name));
            let want = if ok {
                let (mut a, mut b) = (items_of(c1, 0)?, if cmd == "diff" { Some(items_of(c2, 1)?) } else { None });
                library(&plain, &mut a, b.as_mut())
            } else {
                Err("input".into())
            };
            if !ok || d != Dest::Stdout {
                c.nontrivial();
            }
            observe(&pl, &args, &want, c)
        },
    );
    let bad = fam(
        "bad-arguments",
        "each argument error (malformed regular expression, option that is not implemented, malformed numbers, formats and modes, unknown options, missing input argument) of each command x 4 formats x 9 destinations",
        |ch, c| {
            let cases: Vec<(&str, Vec<String>)> = {
                let mut v: Vec<(&str, Vec<String>)> = vec![];
                for cmd in ["dominators", "paths", "monos", "diff"] {
                    for re in ["(", "*", "[a", "a{2", "\\"] {
                        if re == "a{2" {
                            continue;
                        }
                        v.push((cmd, sv(&["--regex", re])));
                        v.push((cmd, sv(&["--regex", "f.*", re])));
                    }
                }
                v.push(("top", sv(&["-r"])));
                v.push(("top", sv(&["--retaining-paths", "-n", "1"])));
                for cmd in ["top", "dominators", "paths", "monos", "diff", "garbage"] {
                    v.push((cmd, sv(&["--mode", "elf"])));
                    v.push((cmd, sv(&["--no-such-option"])));
                    let n = match cmd {
                        "dominators" | "paths" => "-d",
                        _ => "-n",
                    };
                    v.push((cmd, sv(&[n, "ten"])));
                    v.push((cmd, sv(&[n, "-1"])));
                    v.push((cmd, sv(&[n, "4294967296"])));
                }
                v.push(("top", sv(&["main"])));
                v.push(("garbage", sv(&["main"])));
                v
            };
            let (cmd, more) = ch.of(&cases).clone();
            let d = *ch.of(&DESTS);
            let fmt = *ch.of(&["text", "json", "csv", "xml"]);
            let pl = place(d, "old.wasm");
            Cond::Wasm.make(&format!("{}/old.wasm", pl.dir.path()), 0);
            Cond::Wasm.make(&format!("{}/new.wasm", pl.dir.path()), 1);
            let mut args = line(cmd, &["old.wasm", "new.wasm"], &[]);
            args.extend(sv(&["-f", fmt]));
            args.extend(pl.args.clone());
            args.extend(more);
            c.state(&args);
            c.sample(|| args.join(" "));
            c.nontrivial();
            observe(&pl, &args, &Err("arguments".into()), c)
        },
    );
    let len = tier.pick(3, 5);
    let hist = fam(
        "histories",
        format!("all sequences of {} commands (5 that succeed with reports of different length, 4 that fail at the input, the second input, a regular expression) writing to one file, with and without an earlier file: it always holds exactly the last successful report", len),
        move |ch, c| {
            let lines: [(&[&str], bool); 9] = [
                (&["top", "old.wasm", "-o", "out"], true),
                (&["garbage", "old.wasm", "-f", "json", "-o", "out"], true),
                (&["diff", "old.wasm", "new.wasm", "-f", "csv", "-o", "out"], true),
                (&["paths", "old.wasm", "no such item", "-f", "csv", "-o", "out"], true),
                (&["monos", "new.wasm", "-o", "out", "-f", "json"], true),
                (&["top", "missing.wasm", "-o", "out"], false),
                (&["diff", "old.wasm", "out/x", "-o", "out"], false),
                (&["diff", "old.wasm", "new.wasm", "--regex", "*", "-o", "out"], false),
                (&["dominators", "old.wasm", "--regex", "(", "-o", "out", "-f", "json"], false),
            ];
            let first = ch.flag();
            let seq: Vec<usize> = (0..len).map(|_| ch.pick(lines.len())).collect();
            c.state((first, &seq));
            c.sample(|| seq.iter().map(|i| lines[*i].0.join(" ")).collect::<Vec<_>>().join("; "));
            c.nontrivial();
            let pl = place(if first { Dest::Longer } else { Dest::New }, "old.wasm");
            Cond::Wasm.make(&format!("{}/old.wasm", pl.dir.path()), 0);
            Cond::Wasm.make(&format!("{}/new.wasm", pl.dir.path()), 1);
            for i in &seq {
                let a = sv(lines[*i].0);
                let old = if a[1] == "new.wasm" { subject(1) } else { subject(0) };
                let want = if lines[*i].1 { Ok(expected(&a, &old, &subject(1))?) } else { Err("fails".into()) };
                observe(&pl, &a, &want, c)?;
            }
            Ok(())
        },
    );
    let help = fam(
        "information",
        "twiggy and each command with -h, --help, -V, --version, help: status 0, text on standard output, nothing else; twiggy without a command fails",
        |ch, c| {
            let cmd = *ch.of(&["", "top", "dominators", "paths", "monos", "diff", "garbage"]);
            let f = *ch.of(&["--help", "-h", "--version", "-V", "help", ""]);
            let mut args: Vec<String> = vec![];
            if f == "help" {
                args.push("help".into());
            }
            if !cmd.is_empty() {
                args.push(cmd.into());
            }
            if f != "help" && !f.is_empty() {
                args.push(f.into());
            }
            c.state(&args);
            c.sample(|| args.join(" "));
            c.nontrivial();
            let pl = place(Dest::New, "x");
            let r = run(pl.dir.path(), &args, Out::Pipe, None);
            c.trace();
            if !files(pl.dir.path()).is_empty() {
                return Err(format!("{:?} creates files", args));
            }
            if f.is_empty() {
                failed(&r)?;
                return Ok(());
            }
            if r.code != Some(0) || r.out.is_empty() || !r.err.is_empty() {
                return Err(format!("{:?}: {}", args, r.show()));
            }
            Ok(())
        },
    );
    Check {
        id: "C19",
        level: "model_checking",
        families: vec![help, bad, hist, product],
        assumptions: vec!["what --mode dwarf makes of a wasm module is left open",
            "the checks run as root, so files without permission cannot be told from readable ones"],
        hang_secs: 60,
    }
}

// ---------------------------------------------------------------- C21

/// A wasm module that carries the DWARF sections of `elf::tiny_wasm` in custom sections.
fn wasm_with_dwarf(v: usize) -> Vec<u8> {
    let mut m = subject(v);
    for (n, b) in super::elf::tiny_wasm(v).v {
        let mut p = string(n);
        p.extend(b);
        m.push(0);
        m.extend(leb(p.len() as u64));
        m.extend(p);
    }
    m
}

/// What an input must be read as, by contents: the items as wasm and as an object file. None: left open.
struct Content {
    what: String,
    bytes: Vec<u8>,
    obj: Option<Result<usize, ()>>,
}

/// What the parser says about the bytes as a wasm module.
fn as_wasm(b: &[u8]) -> Result<Items, String> {
    twiggy_parser::parse(b).map_err(|e| e.to_string())
}

fn contents(all: bool) -> Vec<Content> {
    let mut v: Vec<Content> = vec![];
    let mut add = |what: &str, bytes: Vec<u8>, obj| v.push(Content { what: what.into(), bytes, obj });
    let (w, e) = (subject(0), super::elf::tiny(0));
    add("wasm", w.clone(), None);
    add("ELF", e.clone(), Some(Ok(0)));
    add("ELF'", super::elf::tiny(1), Some(Ok(1)));
    add("wasm'", subject(1), None);
    add("wasm with DWARF", wasm_with_dwarf(0), Some(Ok(0)));
    add("wasm' with DWARF", wasm_with_dwarf(1), Some(Ok(1)));
    add("junk", b"#!/bin/sh\nexit 0\n".to_vec(), Some(Err(())));
    add("empty", vec![], Some(Err(())));
    if !all {
        return v;
    }
    for n in 1..=12 {
        add(&format!("first {} bytes of wasm", n), w[..n].to_vec(), if n < 4 { Some(Err(())) } else { None });
    }
    for n in [1, 3, 4, 5, 16, 63] {
        add(&format!("first {} bytes of ELF", n), e[..n].to_vec(), Some(Err(())));
    }
    for at in 0..4 {
        for x in 0..=255u8 {
            if x == w[at] {
                continue;
            }
            let mut m = w.clone();
            m[at] = x;
            add(&format!("wasm with {:#x} at {}", x, at), m, Some(Err(())));
        }
    }
    // the magic number in other places
    add("zeros", vec![0; 64], Some(Err(())));
    let mut m = vec![0];
    m.extend(&w);
    add("wasm after a zero", m, Some(Err(())));
    let mut m = e.clone();
    m[9..13].copy_from_slice(b"\0asm");
    add("ELF with the magic number in its padding", m, None);
    let mut m = e.clone();
    m.extend(&w);
    add("ELF followed by wasm", m, None);
    add("wasm, byte swapped", b"msa\0\x01\0\0\0".to_vec(), Some(Err(())));
    add("wasm text", b"(module)".to_vec(), Some(Err(())));
    v
}

/// Path below the scratch directory and its extension, as documented for Path::extension.
const PLACES: [(&str, Option<&str>); 24] = [
    ("a.wasm", Some("wasm")),
    ("a", None),
    ("a.o", Some("o")),
    (".wasm", None),
    ("wasm", None),
    ("awasm", None),
    ("a.", Some("")),
    ("a.WASM", Some("WASM")),
    ("a.wasm.o", Some("o")),
    ("a.o.wasm", Some("wasm")),
    ("..wasm", Some("wasm")),
    ("a.wasm ", Some("wasm ")),
    ("a.wat", Some("wat")),
    ("a.was", Some("was")),
    ("a.wasmx", Some("wasmx")),
    ("d.wasm/a", None),
    ("d.wasm/a.o", Some("o")),
    ("d.o/a.wasm", Some("wasm")),
    ("d/e f/\u{e9}.wasm", Some("wasm")),
    ("a.elf", Some("elf")),
    ("a.so", Some("so")),
    ("-a.wasm", Some("wasm")),
    ("a b.wasm", Some("wasm")),
    ("link.wasm", Some("wasm")),
];

fn put(dir: &str, name: &str, b: &[u8]) -> String {
    let p = format!("{}/{}", dir, name);
    let d = std::path::Path::new(&p).parent().unwrap();
    std::fs::create_dir_all(d).unwrap();
    if name == "link.wasm" {
        std::fs::write(format!("{}/target.o", dir), b).unwrap();
        std::os::unix::fs::symlink("target.o", &p).unwrap();
    } else {
        std::fs::write(&p, b).unwrap();
    }
    p
}

/// The items the statement calls for; None if it leaves this input open.
fn wanted(x: &Content, ext: Option<&str>, mode: &str) -> Option<Result<Items, String>> {
    let wasm = match mode {
        "wasm" => true,
        "dwarf" => false,
        _ => ext == Some("wasm") || x.bytes.starts_with(b"\0asm"),
    };
    if wasm {
        return Some(as_wasm(&x.bytes));
    }
    match x.obj {
        Some(Ok(v)) => {
            let mut b = twiggy_ir::ItemsBuilder::new(x.bytes.len() as u32);
            for i in super::elf::tiny_items(v).iter() {
                if i.size() > 0 {
                    b.add_item(i.clone());
                }
            }
            Some(Ok(b.finish()))
        }
        Some(Err(())) => Some(Err("not an object file".into())),
        None => None,
    }
}

/// The items without their identities.
fn listing(i: &Items) -> Vec<String> {
    let mut v: Vec<String> = i.iter().map(|x| format!("{} {} {:?}", x.name(), x.size(), x.kind())).collect();
    v.sort();
    v.push(i.size().to_string());
    v
}

/// Reads the contents from a pipe that hands out at most `chunk` bytes at once, by a path of the given name.
fn read_piped(b: &[u8], name: &str, chunk: usize, mode: ParseMode) -> anyhow::Result<Items> {
    use std::os::unix::io::FromRawFd;
    use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
    let mut fds = [0; 2];
    assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "harness: pipe");
    let (r, mut w) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
    let dir = Scratch::new("c21");
    let p = format!("{}/{}", dir.path(), name);
    std::os::unix::fs::symlink(format!("/proc/self/fd/{}", fds[0]), &p).expect("harness: link");
    let over = &AtomicBool::new(false);
    let got = std::thread::scope(|s| {
        s.spawn(move || {
            // Nobody reads on after an error.
            for part in b.chunks(chunk) {
                for small in part.chunks(4096) {
                    let mut left = 0;
                    while unsafe { libc::ioctl(fds[0], libc::FIONREAD, &mut left) } == 0 && left > 60000 && !over.load(Relaxed) {
                        std::thread::yield_now();
                    }
                    if over.load(Relaxed) || w.write_all(small).is_err() {
                        return;
                    }
                }
                let mut left = 0;
                while unsafe { libc::ioctl(fds[0], libc::FIONREAD, &mut left) } == 0 && left > 0 {
                    if over.load(Relaxed) {
                        return;
                    }
                    std::thread::yield_now();
                }
            }
        });
        let got = guarded(|| twiggy_parser::read_and_parse(&p, mode));
        over.store(true, Relaxed);
        got
    });
    drop(r);
    got.unwrap_or_else(|p| Err(anyhow::anyhow!("panic: {}", p)))
}

pub fn c21(tier: Tier) -> Check {
    let lib = fam(
        "library",
        "read_and_parse on 1052 contents (wasm, ELF, wasm with DWARF sections, every prefix of the first 12 bytes, every change of one byte of the magic number, the magic number elsewhere, junk, empty) x 24 file names and directories (extensions, none, hidden, several, upper case, in the directory only, symbolic link) x 4 modes",
        |ch, c| {
            thread_local!(static ALL: Vec<Content> = contents(true));
            ALL.with(|all| {
                let x = ch.of(all);
                let (name, ext) = *ch.of(&PLACES);
                c.state((&x.what, name));
                c.sample(|| format!("{} named {}", x.what, name));
                let dir = Scratch::new("c21");
                let p = put(dir.path(), name, &x.bytes);
                for mode in ["", "auto", "wasm", "dwarf"] {
                    let m = if mode.is_empty() {
                        Default::default()
                    } else {
                        mode.parse().map_err(|e| format!("mode {}: {}", mode, e))?
                    };
                    let want = match wanted(x, ext, mode) {
                        Some(w) => w,
                        None => continue,
                    };
                    if mode != "wasm" {
                        c.nontrivial();
                    }
                    c.trace();
                    let got = twiggy_parser::read_and_parse(&p, m).map_err(|e| e.to_string());
                    let at = || format!("{} in a file named {:?}, mode {:?}", x.what, name, mode);
                    match (got, want) {
                        (Ok(g), Ok(w)) => {
                            if listing(&g) != listing(&w) {
                                return Err(format!("{}:\n{:?}\nexpected\n{:?}", at(), listing(&g), listing(&w)));
                            }
                        }
                        (Err(_), Err(_)) => {}
                        (Ok(g), Err(_)) => return Err(format!("{}: must be an error, but is read as\n{:?}", at(), listing(&g))),
                        (Err(e), Ok(w)) => return Err(format!("{}: {}\nexpected\n{:?}", at(), e, listing(&w))),
                    }
                }
                Ok(())
            })
        },
    );
    let cli = fam(
        "command",
        "the twiggy command: 6 subcommands x 8 contents x 24 file names x 4 modes, for diff 8 x 8 contents and 24 x 3 names; the report must be the one for the items in the format called for",
        |ch, c| {
            thread_local!(static FEW: Vec<Content> = contents(false));
            FEW.with(|few| {
                let cmds = commands(false);
                let (cmd, more) = ch.of(&cmds).clone();
                let x = ch.of(few);
                let (name, ext) = *ch.of(&PLACES);
                let mode = *ch.of(&["", "auto", "wasm", "dwarf"]);
                let second = if cmd == "diff" { Some((ch.of(few), ch.flag(), *ch.of(&[("b.wasm", Some("wasm")), ("b", None), ("b.o", Some("o"))]))) } else { None };
                let w1 = match wanted(x, ext, mode) {
                    Some(w) => w,
                    None => return Ok(()),
                };
                let dir = Scratch::new("c21");
                put(dir.path(), name, &x.bytes);
                let name = if name.starts_with('-') { format!("./{}", name) } else { name.to_string() };
                let mut files = vec![name.clone()];
                let mut w2 = None;
                if let Some((y, swap, (name2, ext2))) = second {
                    w2 = Some(match wanted(y, ext2, mode) {
                        Some(w) => w,
                        None => return Ok(()),
                    });
                    put(dir.path(), name2, &y.bytes);
                    files.push(name2.to_string());
                    if swap {
                        files.swap(0, 1);
                    }
                }
                let swap = files[0] != name;
                let mut args = line(cmd, &files.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &more);
                args.extend(sv(&["-f", "json"]));
                let plain = args.clone();
                if !mode.is_empty() {
                    args.extend(sv(&["--mode", mode]));
                }
                c.state((&args, &x.what, second.as_ref().map(|s| &s.0.what)));
                c.sample(|| format!("{} ({})", args.join(" "), x.what));
                c.nontrivial();
                let want = match (w1, w2) {
                    (Ok(mut a), None) => library(&plain, &mut a, None),
                    (Ok(mut a), Some(Ok(mut b))) => {
                        if swap {
                            std::mem::swap(&mut a, &mut b);
                        }
                        library(&plain, &mut a, Some(&mut b))
                    }
                    _ => Err("input".into()),
                };
                let r = run(dir.path(), &args, Out::Pipe, None);
                c.trace();
                let at = |e: String| format!("{:?} ({}, {:?}): {}", args, x.what, second.as_ref().map(|s| &s.0.what), e);
                match want {
                    Err(_) => failed(&r).map_err(at),
                    Ok(w) => {
                        if r.code != Some(0) || r.out != w {
                            return Err(at(format!("{}\nexpected\n{}", r.show(), String::from_utf8_lossy(&w))));
                        }
                        Ok(())
                    }
                }
            })
        },
    );
    let pipes = fam(
        "sources",
        "the same contents, followed by a custom section or other bytes so that they have up to 200000 bytes, through a pipe that hands out 1, 3, 4, 5, 8, 100, 4096, 65536 bytes or everything at once, under 5 names, in 4 modes: the items are those of the regular file",
        |ch, c| {
            thread_local!(static FEW: Vec<Content> = contents(false));
            FEW.with(|few| {
                let x = ch.of(few);
                let (name, ext) = *ch.of(&[("a.wasm", Some("wasm")), ("a", None), ("a.o", Some("o")), (".wasm", None), ("a.wasm.gz", Some("gz"))]);
                let more = *ch.of(&[0usize, 1, 300, 4000, 70000, 200000]);
                let chunk = *ch.of(&[1usize, 3, 4, 5, 8, 100, 4096, 65536, 1 << 20]);
                if more / chunk > 1000 {
                    return Ok(());
                }
                let mut bytes = x.bytes.clone();
                if more > 0 && !bytes.is_empty() {
                    if bytes.starts_with(b"\0asm") {
                        let mut p = string("more");
                        p.resize(p.len() + more, 7);
                        bytes.push(0);
                        bytes.extend(leb(p.len() as u64));
                        bytes.extend(p);
                    } else {
                        bytes.resize(bytes.len() + more, 7);
                    }
                }
                let x = Content { what: x.what.clone(), bytes, obj: x.obj.clone() };
                c.state((&x.what, name, more, chunk));
                c.sample(|| format!("{} and {} bytes named {}, {} at once", x.what, more, name, chunk));
                for mode in ["", "auto", "wasm", "dwarf"] {
                    let m = if mode.is_empty() { Default::default() } else { mode.parse().map_err(|e| format!("mode {}: {}", mode, e))? };
                    let want = match wanted(&x, ext, mode) {
                        Some(w) => w,
                        None => continue,
                    };
                    c.nontrivial();
                    c.trace();
                    let got = read_piped(&x.bytes, name, chunk, m).map_err(|e| e.to_string());
                    let at = || format!("{} and {} bytes from a pipe named {:?}, {} bytes at once, mode {:?}", x.what, more, name, chunk, mode);
                    match (got, want) {
                        (Ok(g), Ok(w)) if listing(&g) != listing(&w) => {
                            return Err(format!("{}:\n{:?}\nexpected\n{:?}", at(), listing(&g), listing(&w)));
                        }
                        (Ok(g), Err(_)) => return Err(format!("{}: must be an error, but is read as\n{:?}", at(), listing(&g))),
                        (Err(e), Ok(w)) => return Err(format!("{}: {}\nexpected\n{:?}", at(), e, listing(&w))),
                        _ => {}
                    }
                }
                Ok(())
            })
        },
    );
    let top = tier.pick(25, 27);
    let large = fam(
        "large-files",
        format!("files of 2^k - 1, 2^k and 2^k + 1 bytes for k from 9 to {}: a wasm module with one section of all but a few bytes, the same with the bytes of its last section, an ELF file with the bytes at its end or before its table of sections, under 3 names, in 4 modes: read in full", top),
        move |ch, c| {
            thread_local!(static FEW: Vec<Content> = contents(false));
            FEW.with(|few| {
                let k = ch.range(9, top);
                let n = (1usize << k) + ch.pick(3) - 1;
                let how = ch.pick(4);
                let (name, ext) = *ch.of(&[("a.wasm", Some("wasm")), ("a", None), ("a.o", Some("o"))]);
                let x = &few[how / 2];
                let mut bytes = x.bytes.clone();
                let room = match n.checked_sub(bytes.len() + 40) {
                    Some(r) => r + 40,
                    None => return Ok(()),
                };
                let mut tail = vec![];
                if how == 0 {
                    let p = string("tail");
                    tail.push(0);
                    tail.push(p.len() as u8);
                    tail.extend(p);
                }
                match how {
                    0 | 1 => {
                        // A length of five bytes, so that it does not depend on itself.
                        let len = room - tail.len() - 6;
                        let mut p = string("more");
                        p.resize(len, 7);
                        bytes.push(0);
                        bytes.extend([len as u8 | 0x80, (len >> 7) as u8 | 0x80, (len >> 14) as u8 | 0x80, (len >> 21) as u8 | 0x80, (len >> 28) as u8]);
                        bytes.extend(p);
                        bytes.extend(&tail);
                    }
                    2 => bytes.resize(n, 7),
                    _ => {
                        // e_shoff of a 64 bit little endian file; everything from there on moves
                        let at = u64::from_le_bytes(bytes[0x28..0x30].try_into().unwrap()) as usize;
                        let rest = bytes.split_off(at);
                        // the table stays aligned
                        let more = room / 8 * 8;
                        bytes.resize(at + more, 7);
                        bytes.extend(rest);
                        bytes[0x28..0x30].copy_from_slice(&((at + more) as u64).to_le_bytes());
                        bytes.resize(n, 7);
                    }
                }
                assert_eq!(bytes.len(), n, "harness: length");
                let x = Content { what: x.what.clone(), bytes, obj: x.obj.clone() };
                c.state((k, n, how, name));
                c.sample(|| format!("{} of {} bytes ({}) named {}", x.what, n, how, name));
                let dir = Scratch::new("c21");
                let p = put(dir.path(), name, &x.bytes);
                for mode in ["", "auto", "wasm", "dwarf"] {
                    let m = if mode.is_empty() { Default::default() } else { mode.parse().map_err(|e| format!("mode {}: {}", mode, e))? };
                    let want = match wanted(&x, ext, mode) {
                        Some(w) => w,
                        None => continue,
                    };
                    c.nontrivial();
                    c.trace();
                    let got = guarded(|| twiggy_parser::read_and_parse(&p, m)).unwrap_or_else(|p| Err(anyhow::anyhow!("panic: {}", p))).map_err(|e| e.to_string());
                    let at = || format!("{} of {} bytes ({}) in a file named {:?}, mode {:?}", x.what, n, how, name, mode);
                    match (got, want) {
                        (Ok(g), Ok(w)) => {
                            if listing(&g) != listing(&w) {
                                return Err(format!("{}:\n{:?}\nexpected\n{:?}", at(), listing(&g), listing(&w)));
                            }
                            if g.size() as usize != n {
                                return Err(format!("{}: {} bytes in all", at(), g.size()));
                            }
                            if how < 2 {
                                let len: u64 = g.iter().filter(|i| i.name().contains("more") || i.name().contains("tail")).map(|i| u64::from(i.size())).sum();
                                // two sections, with or without the bytes that introduce them
                                let most = room as u64;
                                if len > most || len + 40 < most {
                                    return Err(format!("{}: the added sections have {} bytes, expected {}", at(), len, most));
                                }
                            }
                        }
                        (Err(_), Err(_)) => {}
                        (Ok(g), Err(_)) => return Err(format!("{}: must be an error, but is read as\n{:?}", at(), listing(&g))),
                        (Err(e), Ok(w)) => return Err(format!("{}: {}\nexpected\n{:?}", at(), e, listing(&w))),
                    }
                }
                Ok(())
            })
        },
    );
    Check {
        id: "C21",
        level: "model_checking",
        families: vec![lib, pipes, large, cli],
        assumptions: vec![
            "what --mode dwarf makes of a wasm module without DWARF sections is left open",
            "the extension is compared as written (a.WASM is not wasm), as the code has always done",
        ],
        hang_secs: 60,
    }
}
