mod checks;
mod engine;
mod model;
mod opts;
mod rdr;
mod report;
mod suite;
mod util;
mod wasmgen;

use engine::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub families: Vec<Family>,
    pub assumptions: Vec<&'static str>,
    /// Seconds after which a single case counts as not ending.
    pub hang_secs: u64,
}

fn verif() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    case: String,
    /// Set instead of `case` where the finding is a call site whose exact faulty result the check
    /// computes; a result that is neither right nor exactly that is a violation.
    signature: String,
    what: String,
}

/// known_findings.jsonl: one object per line with string fields only.
fn known(id: &str) -> Vec<Known> {
    let path = format!("{}/known_findings.jsonl", verif());
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = vec![];
    for line in s.lines().filter(|l| !l.trim().is_empty()) {
        let j = rdr::parse_json(line).expect("known_findings.jsonl");
        let get = |k: &str| j.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
        if get("status") == "known" && get("property") == id {
            out.push(Known { case: get("case"), signature: get("signature"), what: get("what") });
        }
    }
    out
}

fn case_key(family: &str, choices: &[u32]) -> String {
    format!("{}:{}", family, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))
}

fn replay_file(id: &str, tier: Tier, family: &str, choices: &[u32], msg: &str) -> String {
    let dir = format!("{}/evidence/replay", verif());
    let _ = std::fs::create_dir_all(&dir);
    let mut h = Fx(7);
    use std::hash::Hasher;
    h.write(case_key(family, choices).as_bytes());
    let path = format!("{}/{}-{}-{:08x}.json", dir, id, family, h.finish() as u32);
    let cs = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
    let body = format!(
        "{{\"property\":{},\"tier\":{},\"family\":{},\"choices\":[{}],\"message\":{}}}\n",
        jstr(id),
        jstr(tier.pick("quick", "thorough")),
        jstr(family),
        cs,
        jstr(msg)
    );
    let _ = std::fs::write(&path, body);
    path
}

fn parse_tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("tier must be quick or thorough");
            exit(2)
        }
    }
}

fn report_violation(id: &str, tier: Tier, v: &Violation) {
    let path = replay_file(id, tier, &v.family, &v.choices, &v.msg);
    let mut m = v.msg.clone();
    if m.len() > 3000 {
        let mut e = 3000;
        while !m.is_char_boundary(e) {
            e -= 1;
        }
        m.truncate(e);
    }
    println!("--- {} {}\n{}", id, case_key(&v.family, &v.choices), m);
    println!("VIOLATION property={} replay={}", id, path);
}

fn worker(id: &str, tier: Tier, journal_path: &str) -> i32 {
    let t0 = Instant::now();
    let journal = Journal::open(journal_path, false);
    let check = checks::get(id, tier);
    let st = Stats::new();
    let known = known(id);
    let hit: Vec<std::sync::atomic::AtomicBool> = known.iter().map(|_| Default::default()).collect();
    let mut all = vec![];
    let mut per_family = vec![];
    let lim = Limits { hang_secs: check.hang_secs, max_violations: 3 };
    let only = std::env::var("MC_FAMILY").ok();
    for (i, f) in check.families.iter().enumerate() {
        if only.as_deref().map_or(false, |o| o != f.name) {
            continue;
        }
        let (e0, s0, tf) = (st.executions.load(Relaxed), st.states(), Instant::now());
        let accept = |v: &Violation| {
            let key = case_key(&v.family, &v.choices);
            match known.iter().position(|k| {
                !k.case.is_empty() && k.case == key
                    || !k.signature.is_empty() && v.msg.starts_with(&format!("signature={}\n", k.signature))
            }) {
                Some(i) => {
                    hit[i].store(true, Relaxed);
                    false
                }
                None => true,
            }
        };
        let vs = explore(i, f, &st, &journal, &lim, &accept);
        per_family.push(format!(
            "{{\"family\":{},\"rule\":{},\"executions\":{},\"new_states\":{},\"wall_s\":{:.2}}}",
            jstr(f.name),
            jstr(&f.rule),
            st.executions.load(Relaxed) - e0,
            st.states() - s0,
            tf.elapsed().as_secs_f64()
        ));
        eprintln!(
            "{} {:<24} {:>10} executions {:>9} states {:>7.2}s",
            id,
            f.name,
            st.executions.load(Relaxed) - e0,
            st.states() - s0,
            tf.elapsed().as_secs_f64()
        );
        let broken = !vs.is_empty();
        all.extend(vs);
        if broken {
            break;
        }
    }
    if let Some(v) = all.iter().find(|v| v.msg.contains("harness:")) {
        eprintln!("internal error in {}: {}", case_key(&v.family, &v.choices), v.msg);
        return 2;
    }
    for (k, h) in known.iter().zip(&hit) {
        if h.load(Relaxed) {
            println!("KNOWN-FINDING: property={} {}", id, k.what);
        }
    }
    for v in &all {
        report_violation(id, tier, v);
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let samples = st.samples.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    let exec = st.executions.load(Relaxed);
    let mut cov = BTreeMap::new();
    let rule = check.families.iter().map(|f| format!("{}: {}", f.name, f.rule)).collect::<Vec<_>>().join(" | ");
    if check.level == "model_checking" {
        cov.insert("states", st.states().to_string());
        cov.insert("transitions", st.edges.load(Relaxed).to_string());
        cov.insert("traces_validated_against_impl", st.traces.load(Relaxed).to_string());
        cov.insert("complete_executions", exec.to_string());
    } else {
        cov.insert("evaluations", exec.to_string());
        cov.insert("distinct_nontrivial", st.states().min(exec).to_string());
        cov.insert("impl_runs", st.traces.load(Relaxed).to_string());
    }
    cov.insert("nontrivial_executions", st.nontrivial.load(Relaxed).to_string());
    cov.insert("rule", jstr(&rule));
    cov.insert("samples", format!("[{}]", samples));
    cov.insert("families", format!("[{}]", per_family.join(",")));
    cov.insert("exhaustive", (all.is_empty() && only.is_none()).to_string());
    cov.insert("states_counted_as_lower_bound", st.seen_full.load(Relaxed).to_string());
    let cov = cov.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
    let ass = check.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(",");
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(id),
        jstr(tier.pick("quick", "thorough")),
        seed,
        jstr(check.level),
        cov,
        ass,
        t0.elapsed().as_secs_f64(),
        all.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(format!("{}/evidence/{}.json", verif(), id), ev).expect("write evidence");
    if all.is_empty() {
        0
    } else {
        1
    }
}

fn wait_timeout(ch: &mut std::process::Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed() > d {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// Limits the CPU time and the memory of a process that explores, so that code that does not end is told from code that
/// takes the sandbox down with it.
fn limited(c: &mut Command, cpu_secs: Option<u64>, bytes: u64) {
    let set = |what, cur, max| {
        let l = libc::rlimit { rlim_cur: cur, rlim_max: max };
        match unsafe { libc::setrlimit(what, &l) } {
            0 => Ok(()),
            _ => Err(std::io::Error::last_os_error()),
        }
    };
    unsafe {
        c.pre_exec(move || {
            if let Some(s) = cpu_secs {
                set(libc::RLIMIT_CPU, s, s + 5)?;
            }
            set(libc::RLIMIT_DATA, bytes, bytes)
        })
    };
}

fn supervise(id: &str, tier: Tier) -> i32 {
    let check = checks::get(id, tier);
    let scratch = util::Scratch::new("mc");
    let jp = format!("{}/journal", scratch.path());
    let journal = Journal::open(&jp, true);
    let me = std::env::current_exe().unwrap();
    let tiers = tier.pick("quick", "thorough");
    let mut child = Command::new(&me);
    child.args(["worker", id, tiers, &jp]);
    limited(&mut child, None, 24 << 30);
    let mut child = child.spawn().unwrap();
    let status = child.wait().unwrap();
    match status.code() {
        Some(c @ (0 | 1 | 2)) => return c,
        _ => {}
    }
    eprintln!("{}: exploration ended abnormally ({:?}); rerunning the executions that were in flight", id, status);
    let hung = if status.code() == Some(97) { journal.hung() } else { None };
    let mut n = 0;
    for w in 0..WORKERS {
        if hung.map_or(false, |h| h != w) {
            continue;
        }
        let (fi, choices) = match journal.read(w) {
            Some(x) => x,
            None => continue,
        };
        let f = &check.families[fi];
        let cs = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
        let mut c = Command::new(&me);
        c.args(["one", id, tiers, f.name, &cs]).stdout(Stdio::null()).stderr(Stdio::null());
        let secs = check.hang_secs;
        limited(&mut c, Some(secs), 8 << 30);
        let mut c = c.spawn().unwrap();
        let wall = engine::hang_wall(secs);
        let msg = match wait_timeout(&mut c, Duration::from_secs(wall)) {
            None => Some(format!("execution does not end ({} s)", wall)),
            Some(s) if s.signal() == Some(libc::SIGXCPU) => Some(format!("execution does not end ({} s of CPU time)", secs)),
            Some(s) if s.code() == Some(0) => None,
            Some(s) if s.code() == Some(2) => None,
            Some(s) if s.code() == Some(1) => Some("execution fails when run alone".into()),
            Some(s) => Some(format!("the process dies: {}", s)),
        };
        if let Some(msg) = msg {
            n += 1;
            report_violation(id, tier, &Violation { family: f.name.into(), choices, msg });
            // The others that were in flight may each take as long.
            break;
        }
    }
    if n > 0 {
        1
    } else {
        eprintln!("{}: abnormal end could not be reproduced", id);
        3
    }
}

fn one(id: &str, tier: Tier, family: &str, choices: &[u32]) -> i32 {
    let check = checks::get(id, tier);
    let (i, f) = check.families.iter().enumerate().find(|(_, f)| f.name == family).expect("no such family");
    let st = Stats::new();
    // On a thread with the same stack as in the exploration.
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                let (ch, r) = run_one(i, f, choices, &st);
                println!("choices {:?}", ch);
                match r {
                    Ok(()) => {
                        println!("holds");
                        0
                    }
                    Err(m) => {
                        println!("{}", m);
                        if m.contains("harness:") {
                            2
                        } else {
                            1
                        }
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let parse_choices = |s: &str| -> Vec<u32> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let code = match &a[1..] {
        ["check", id, tier] => supervise(id, parse_tier(tier)),
        ["worker", id, tier, j] => worker(id, parse_tier(tier), j),
        ["one", id, tier, fam, cs] => one(id, parse_tier(tier), fam, &parse_choices(cs)),
        ["replay", file] => {
            let j = rdr::parse_json(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
            let s = |k: &str| j.get(k).and_then(|v| v.as_str()).unwrap().to_string();
            let cs: Vec<u32> = match j.get("choices") {
                Some(rdr::Json::Arr(a)) => a.iter().map(|x| x.as_f64().unwrap() as u32).collect(),
                _ => panic!("choices"),
            };
            let id = s("property");
            let c = one(&id, parse_tier(&s("tier")), &s("family"), &cs);
            if c == 1 {
                println!("VIOLATION property={} replay={}", id, file);
            }
            c
        }
        ["list"] => {
            println!("{}", checks::ids().join(" "));
            0
        }
        _ => {
            eprintln!("usage: mc check ID quick|thorough | replay FILE | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    exit(code)
}
