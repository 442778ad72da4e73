//! Every analysis with representative options, for checks that range over analyses.
use crate::opts;
use crate::report::*;
use twiggy_analyze as an;
use twiggy_ir::Items;
use twiggy_opt as opt;
use twiggy_traits::Emit;

pub type Run = dyn Fn(&mut Items, &mut Items) -> anyhow::Result<Box<dyn Emit>> + Sync + Send;

/// An analysis with fixed options; the second items are only used by diff.
pub struct Ana {
    pub name: String,
    pub run: Box<Run>,
}

pub fn ana<F>(name: &str, f: F) -> Ana
where
    F: Fn(&mut Items, &mut Items) -> anyhow::Result<Box<dyn Emit>> + Sync + Send + 'static,
{
    Ana { name: name.to_string(), run: Box::new(f) }
}

pub fn top(n: u32, retained: bool) -> Ana {
    let mut o = opt::Top::new();
    o.set_max_items(n);
    o.set_retained(retained);
    ana(&format!("top -n {}{}", n, if retained { " --retained" } else { "" }), move |a, _| an::top(a, &o))
}

pub fn dominators(names: &[String], regex: bool, depth: Option<u32>, rows: Option<u32>) -> Ana {
    let o = opts::dominators(names, regex, depth, rows);
    ana(&format!("dominators {:?} regex={} -d {:?} -r {:?}", names, regex, depth, rows), move |a, _| an::dominators(a, &o))
}

pub fn paths(names: &[String], regex: bool, descending: bool, depth: Option<u32>, paths: Option<u32>) -> Ana {
    let o = opts::paths(names, regex, descending, depth, paths);
    ana(
        &format!("paths {:?} regex={} descending={} -d {:?} -r {:?}", names, regex, descending, depth, paths),
        move |a, _| an::paths(a, &o),
    )
}

pub fn monos(names: &[String], regex: bool, only: bool, g: Option<u32>, m: Option<u32>) -> Ana {
    let o = opts::monos(names, regex, only, g, m);
    ana(&format!("monos {:?} regex={} -g={} -m {:?} -n {:?}", names, regex, only, g, m), move |a, _| an::monos(a, &o))
}

pub fn garbage(n: u32, show: bool) -> Ana {
    let o = opts::garbage(n, show);
    ana(&format!("garbage -n {} show={}", n, show), move |a, _| an::garbage(a, &o))
}

/// a is the old binary
pub fn diff(names: &[String], regex: bool, n: Option<u32>) -> Ana {
    let o = opts::diff(names, regex, n);
    ana(&format!("diff old new {:?} regex={} -n {:?}", names, regex, n), move |a, b| an::diff(a, b, &o))
}

/// a is the new binary
pub fn diff_as_new(names: &[String], regex: bool, n: Option<u32>) -> Ana {
    let o = opts::diff(names, regex, n);
    ana(&format!("diff new old {:?} regex={} -n {:?}", names, regex, n), move |a, b| an::diff(b, a, &o))
}

/// One of each with default and with restrictive options.
pub fn all() -> Vec<Ana> {
    let no: &[String] = &[];
    let any = &[".*".to_string()];
    vec![
        top(u32::MAX, false),
        top(1, true),
        dominators(no, false, None, None),
        dominators(any, true, Some(2), Some(3)),
        paths(no, false, false, None, None),
        paths(no, false, true, Some(3), Some(2)),
        paths(any, true, false, Some(2), None),
        monos(no, false, false, None, None),
        monos(any, true, true, Some(1), Some(1)),
        garbage(10, false),
        garbage(0, true),
        diff(no, false, None),
        diff_as_new(any, true, Some(1)),
    ]
}

impl Ana {
    pub fn text(&self, a: &mut Items, b: &mut Items, fmt: Fmt) -> Result<String, String> {
        let e = (self.run)(a, b).map_err(|e| format!("{}: analysis failed: {}", self.name, e))?;
        emit_of(&*e, a, fmt).map_err(|x| format!("{} -f {}: {}", self.name, fmt.name(), x))
    }
}
