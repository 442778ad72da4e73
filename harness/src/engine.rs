//! The explorer: walks a complete choice tree depth first on several threads,
//! running the implementation on every leaf.
use std::cell::Cell;
use std::collections::{HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

/// Resolves the choices of one execution.
pub struct Chooser {
    stack: Vec<(u32, u32)>,
    pos: usize,
    base: usize,
    edges: u64,
}

impl Chooser {
    fn new(prefix: &[u32]) -> Chooser {
        Chooser { stack: prefix.iter().map(|&c| (c, 0)).collect(), pos: 0, base: prefix.len(), edges: 0 }
    }
    /// One of `0..n`.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: empty choice");
        let n = n as u32;
        let c = if self.pos < self.stack.len() {
            let e = &mut self.stack[self.pos];
            if e.1 == 0 {
                e.1 = n;
            }
            assert_eq!(e.1, n, "harness: nondeterministic choice tree");
            e.0
        } else {
            self.stack.push((0, n));
            self.edges += 1;
            0
        };
        self.pos += 1;
        c as usize
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.pick(hi - lo + 1)
    }
    fn choices(&self) -> Vec<u32> {
        self.stack.iter().map(|e| e.0).collect()
    }
    /// Advances to the next leaf of this subtree.
    fn next(&mut self) -> bool {
        self.pos = 0;
        while self.stack.len() > self.base {
            let e = self.stack.last_mut().unwrap();
            if e.0 + 1 < e.1 {
                e.0 += 1;
                self.edges += 1;
                return true;
            }
            self.stack.pop();
        }
        false
    }
    /// Gives away the untried alternatives of the shallowest open choice.
    fn donate(&mut self) -> Vec<Vec<u32>> {
        for i in self.base..self.stack.len() {
            let (c, n) = self.stack[i];
            if c + 1 < n {
                let head: Vec<u32> = self.stack[..i].iter().map(|e| e.0).collect();
                let mut out = Vec::new();
                for a in c + 1..n {
                    let mut p = head.clone();
                    p.push(a);
                    out.push(p);
                    self.edges += 1;
                }
                self.stack[i].1 = c + 1;
                self.freeze_to(i);
                return out;
            }
        }
        vec![]
    }
    fn freeze_to(&mut self, i: usize) {
        // Everything up to and including choice i has no alternatives left here.
        self.base = self.base.max(i + 1);
        for e in &mut self.stack[..i + 1] {
            e.1 = 0; // wildcard: alternatives were given away
        }
    }
}

/// What a family reports about the current execution.
pub struct Case<'a> {
    pub st: &'a Stats,
    pub worker: usize,
    traces: Cell<u64>,
    nontrivial: Cell<bool>,
    pub replaying: bool,
}

impl<'a> Case<'a> {
    /// Registers the abstract state this execution explores.
    pub fn state<H: Hash>(&self, h: H) {
        let mut s = Fx(0xcbf29ce484222325);
        self.st.salt.load(Relaxed).hash(&mut s);
        h.hash(&mut s);
        let v = s.finish();
        let shard = (v >> 58) as usize;
        let mut g = self.st.seen[shard].lock().unwrap();
        if g.len() < 2_000_000 {
            g.insert(v);
        } else if !g.contains(&v) {
            self.st.seen_full.store(true, Relaxed);
        }
    }
    /// One execution of the implementation whose result was compared.
    pub fn trace(&self) {
        self.traces.set(self.traces.get() + 1);
    }
    pub fn traces(&self, n: u64) {
        self.traces.set(self.traces.get() + n);
    }
    /// The execution exercises the property in a non-trivial way.
    pub fn nontrivial(&self) {
        self.nontrivial.set(true);
    }
    pub fn sample<F: FnOnce() -> String>(&self, f: F) {
        if self.replaying {
            println!("  case: {}", f());
            return;
        }
        let n = self.st.sample_ctr.fetch_add(1, Relaxed);
        // powers of four: a handful of cases spread over the run
        if n != 0 && n.is_power_of_two() && n.trailing_zeros() % 4 == 2 || n == 0 {
            let mut g = self.st.samples.lock().unwrap();
            if g.len() < 12 {
                let mut s = f();
                if s.len() > 600 {
                    let mut e = 600;
                    while !s.is_char_boundary(e) {
                        e -= 1;
                    }
                    s.truncate(e);
                }
                g.push(format!("{}: {}", self.st.family.lock().unwrap(), s));
            }
        }
    }
}

/// FNV-style hasher with a final mix.
pub struct Fx(pub u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100000001b3).rotate_left(17);
        }
    }
}

pub type CaseFn = dyn Fn(&mut Chooser, &Case) -> Result<(), String> + Sync + Send;

pub struct Family {
    pub name: &'static str,
    /// How the cases of this family are made.
    pub rule: String,
    pub f: Box<CaseFn>,
}

pub fn fam<F>(name: &'static str, rule: impl Into<String>, f: F) -> Family
where
    F: Fn(&mut Chooser, &Case) -> Result<(), String> + Sync + Send + 'static,
{
    Family { name, rule: rule.into(), f: Box::new(f) }
}

#[derive(Default)]
pub struct Stats {
    pub executions: AtomicU64,
    pub nontrivial: AtomicU64,
    pub traces: AtomicU64,
    pub edges: AtomicU64,
    pub salt: AtomicU64,
    pub seen: Vec<Mutex<HashSet<u64>>>,
    pub seen_full: AtomicBool,
    pub sample_ctr: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub family: Mutex<String>,
}

impl Stats {
    pub fn new() -> Stats {
        Stats { seen: (0..64).map(|_| Mutex::new(HashSet::new())).collect(), ..Default::default() }
    }
    pub fn states(&self) -> u64 {
        self.seen.iter().map(|m| m.lock().unwrap().len() as u64).sum()
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub choices: Vec<u32>,
    pub msg: String,
}

thread_local! {
    static PANIC_MSG: Cell<Option<String>> = Cell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        PANIC_MSG.with(|m| m.set(Some(s)));
    }));
}

pub fn take_panic() -> String {
    PANIC_MSG.with(|m| m.take()).unwrap_or_else(|| "unknown panic".into())
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

/// Shared-memory journal: per worker slot the family index and choices in flight.
pub struct Journal {
    ptr: *mut u32,
}
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
pub const SLOT: usize = 4096; // u32 words per worker
pub const WORKERS: usize = 8;

impl Journal {
    pub fn open(path: &str, create: bool) -> Journal {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("journal");
        let len = SLOT * 4 * (WORKERS + 1);
        if create {
            f.set_len(len as u64).unwrap();
        }
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Journal { ptr: p as *mut u32 }
    }
    fn write(&self, w: usize, family: usize, ch: &Chooser) {
        unsafe {
            let p = self.ptr.add(w * SLOT);
            let n = ch.stack.len().min(SLOT - 3);
            *p = 0;
            *p.add(1) = family as u32;
            *p.add(2) = n as u32;
            for i in 0..n {
                *p.add(3 + i) = ch.stack[i].0;
            }
            std::ptr::write_volatile(p, 1);
        }
    }
    /// The stack may still grow while the case runs: record each late choice too.
    fn clear(&self, w: usize) {
        unsafe { std::ptr::write_volatile(self.ptr.add(w * SLOT), 0) }
    }
    pub fn read(&self, w: usize) -> Option<(usize, Vec<u32>)> {
        unsafe {
            let p = self.ptr.add(w * SLOT);
            if *p == 0 {
                return None;
            }
            let n = *p.add(2) as usize;
            Some((*p.add(1) as usize, (0..n).map(|i| *p.add(3 + i)).collect()))
        }
    }
    pub fn set_hung(&self, w: usize) {
        unsafe { *self.ptr.add(WORKERS * SLOT) = w as u32 + 1 }
    }
    pub fn hung(&self) -> Option<usize> {
        let v = unsafe { *self.ptr.add(WORKERS * SLOT) };
        if v == 0 { None } else { Some(v as usize - 1) }
    }
}

struct Queue {
    jobs: VecDeque<Vec<u32>>,
    idle: usize,
    done: bool,
}

pub struct Limits {
    pub hang_secs: u64,
    pub max_violations: usize,
}

/// Explores one family completely. Returns the violations found.
pub fn explore(
    index: usize,
    family: &Family,
    st: &Stats,
    journal: &Journal,
    lim: &Limits,
    accept: &(dyn Fn(&Violation) -> bool + Sync),
) -> Vec<Violation> {
    *st.family.lock().unwrap() = family.name.to_string();
    st.salt.store(index as u64 + 1, Relaxed);
    st.sample_ctr.store(0, Relaxed);
    let q = Mutex::new(Queue { jobs: VecDeque::from(vec![vec![]]), idle: 0, done: false });
    let cv = Condvar::new();
    let hungry = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let started: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(0)).collect();
    // CPU clock of each worker, and its time when the case began
    let clocks: Vec<(AtomicI32, AtomicU64)> = (0..WORKERS).map(|_| (AtomicI32::new(0), AtomicU64::new(0))).collect();
    let t0 = Instant::now();
    let finished = AtomicBool::new(false);

    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (q, cv, hungry, stop, found, started) = (&q, &cv, &hungry, &stop, &found, &started);
            let clock = &clocks[w];
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let mut id = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) };
                    clock.0.store(id, Relaxed);
                    loop {
                        let job = {
                            let mut g = q.lock().unwrap();
                            g.idle += 1;
                            hungry.store(g.idle, Relaxed);
                            loop {
                                if g.done {
                                    return;
                                }
                                if let Some(j) = g.jobs.pop_front() {
                                    g.idle -= 1;
                                    hungry.store(g.idle.saturating_sub(g.jobs.len()), Relaxed);
                                    break j;
                                }
                                if g.idle == WORKERS {
                                    g.done = true;
                                    cv.notify_all();
                                    return;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        let mut ch = Chooser::new(&job);
                        loop {
                            if stop.load(Relaxed) {
                                break;
                            }
                            let case = Case {
                                st,
                                worker: w,
                                traces: Cell::new(0),
                                nontrivial: Cell::new(false),
                                replaying: false,
                            };
                            journal.write(w, index, &ch);
                            clock.1.store(cpu_ms(id), Relaxed);
                            started[w].store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                            ch.pos = 0;
                            let r = match guarded(|| (family.f)(&mut ch, &case)) {
                                Ok(r) => r,
                                Err(p) => Err(format!("panic: {}", p)),
                            };
                            started[w].store(0, Relaxed);
                            journal.clear(w);
                            st.executions.fetch_add(1, Relaxed);
                            st.traces.fetch_add(case.traces.get(), Relaxed);
                            if case.nontrivial.get() {
                                st.nontrivial.fetch_add(1, Relaxed);
                            }
                            if let Err(msg) = r {
                                let v = Violation { family: family.name.into(), choices: ch.choices(), msg };
                                if accept(&v) {
                                    let mut g = found.lock().unwrap();
                                    g.push(v);
                                    if g.len() >= lim.max_violations {
                                        stop.store(true, Relaxed);
                                    }
                                }
                            }
                            if hungry.load(Relaxed) > 0 {
                                let d = ch.donate();
                                if !d.is_empty() {
                                    let mut g = q.lock().unwrap();
                                    g.jobs.extend(d);
                                    hungry.store(g.idle.saturating_sub(g.jobs.len()), Relaxed);
                                    cv.notify_all();
                                }
                            }
                            if !ch.next() {
                                break;
                            }
                        }
                        st.edges.fetch_add(ch.edges, Relaxed);
                    }
                })
                .unwrap();
        }
        // Watchdog: a case that does not end is reported by the supervisor.
        let (started, finished, clocks) = (&started, &finished, &clocks);
        let h = s.spawn(move || {
            while !finished.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for w in 0..WORKERS {
                    let t = started[w].load(Relaxed);
                    if t != 0 && now > t + lim.hang_secs * 1000 {
                        // On a busy machine the time that the worker had counts.
                        let used = cpu_ms(clocks[w].0.load(Relaxed)).saturating_sub(clocks[w].1.load(Relaxed));
                        if started[w].load(Relaxed) == t && (used > lim.hang_secs * 1000 || now > t + hang_wall(lim.hang_secs) * 1000) {
                            journal.set_hung(w);
                            std::process::exit(97);
                        }
                    }
                }
            }
        });
        // Wait for workers by polling the queue state.
        loop {
            std::thread::sleep(std::time::Duration::from_millis(5));
            if q.lock().unwrap().done {
                break;
            }
        }
        finished.store(true, Relaxed);
        let _ = h.join();
    });
    let mut v = found.into_inner().unwrap();
    v.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
    v
}

fn cpu_ms(clock: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

/// Time after which a case does not end, whatever CPU time it got: it may wait for another thread or process.
pub fn hang_wall(hang_secs: u64) -> u64 {
    (hang_secs * 5).min(300).max(hang_secs)
}

/// Runs exactly one execution.
pub fn run_one(index: usize, family: &Family, choices: &[u32], st: &Stats) -> (Vec<u32>, Result<(), String>) {
    *st.family.lock().unwrap() = family.name.to_string();
    st.salt.store(index as u64 + 1, Relaxed);
    let mut ch = Chooser::new(choices);
    let case = Case { st, worker: 0, traces: Cell::new(0), nontrivial: Cell::new(false), replaying: true };
    let r = match guarded(|| (family.f)(&mut ch, &case)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    (ch.choices(), r)
}
