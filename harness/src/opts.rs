//! Option objects. Fields without a setter are set by parsing a command line once per combination.
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};
use structopt::StructOpt;
use twiggy_opt as opt;

fn cache() -> &'static Mutex<HashMap<Vec<String>, opt::Options>> {
    static C: OnceLock<Mutex<HashMap<Vec<String>, opt::Options>>> = OnceLock::new();
    C.get_or_init(Default::default)
}

pub fn parse(args: &[String]) -> Result<opt::Options, String> {
    let mut v = vec!["twiggy".to_string()];
    v.extend(args.iter().cloned());
    opt::Options::from_iter_safe(&v).map_err(|e| e.message)
}

/// Parses (and remembers) a command line without the program name.
pub fn cli(args: &[String]) -> opt::Options {
    if let Some(o) = cache().lock().unwrap().get(args) {
        return o.clone();
    }
    let o = parse(args).unwrap_or_else(|e| panic!("command line {:?} is rejected: {}", args, e));
    let mut g = cache().lock().unwrap();
    if g.len() < 20000 {
        g.insert(args.to_vec(), o.clone());
    }
    o
}

fn strs(a: &[&str], more: &[String]) -> Vec<String> {
    let mut v: Vec<String> = a.iter().map(|s| s.to_string()).collect();
    v.extend(more.iter().cloned());
    v
}

pub fn garbage(max: u32, show: bool) -> opt::Garbage {
    let mut o = if show {
        match cli(&strs(&["garbage", "in.wasm", "--show-data-segments"], &[])) {
            opt::Options::Garbage(g) => g,
            _ => panic!("garbage options expected"),
        }
    } else {
        opt::Garbage::new()
    };
    o.set_max_items(max);
    o
}

pub fn dominators(names: &[String], regex: bool, depth: Option<u32>, rows: Option<u32>) -> opt::Dominators {
    let mut o = if names.is_empty() {
        opt::Dominators::new()
    } else {
        let mut a = strs(&["dominators", "in.wasm"], &[]);
        if regex {
            a.push("--regex".into());
        }
        a.push("--".into());
        a.extend(names.iter().cloned());
        match cli(&a) {
            opt::Options::Dominators(o) => o,
            _ => panic!("dominators options expected"),
        }
    };
    // with no limits given the defaults are kept
    if let Some(d) = depth {
        o.set_max_depth(d);
    }
    if let Some(r) = rows {
        o.set_max_rows(r);
    }
    o
}

pub fn paths(names: &[String], regex: bool, descending: bool, depth: Option<u32>, paths: Option<u32>) -> opt::Paths {
    let mut o = opt::Paths::new();
    for n in names {
        o.add_function(n.clone());
    }
    o.set_using_regexps(regex);
    o.set_descending(descending);
    if let Some(d) = depth {
        o.set_max_depth(d);
    }
    if let Some(p) = paths {
        o.set_max_paths(p);
    }
    o
}

pub fn monos(names: &[String], regex: bool, only: bool, generics: Option<u32>, monos: Option<u32>) -> opt::Monos {
    let mut o = if names.is_empty() {
        opt::Monos::new()
    } else {
        let mut a = strs(&["monos", "in.wasm"], &[]);
        if regex {
            a.push("--regex".into());
        }
        a.push("--".into());
        a.extend(names.iter().cloned());
        match cli(&a) {
            opt::Options::Monos(o) => o,
            _ => panic!("monos options expected"),
        }
    };
    o.set_only_generics(only);
    if let Some(g) = generics {
        o.set_max_generics(g);
    }
    if let Some(m) = monos {
        o.set_max_monos(m);
    }
    o
}

pub fn diff(names: &[String], regex: bool, max: Option<u32>) -> opt::Diff {
    let mut a = strs(&["diff", "old.wasm", "new.wasm"], &[]);
    if regex {
        a.push("--regex".into());
    }
    a.push("--".into());
    a.extend(names.iter().cloned());
    let mut o = match cli(&a) {
        opt::Options::Diff(o) => o,
        _ => panic!("diff options expected"),
    };
    if let Some(m) = max {
        o.set_max_items(m);
    }
    o
}
