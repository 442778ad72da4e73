//! Running analyses and reading their reports.
use twiggy_ir::Items;
use twiggy_traits::{Emit, OutputFormat};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    Text,
    Json,
    Csv,
}
pub const FMTS: [Fmt; 3] = [Fmt::Text, Fmt::Json, Fmt::Csv];

impl Fmt {
    pub fn of(self) -> OutputFormat {
        match self {
            Fmt::Text => OutputFormat::Text,
            Fmt::Json => OutputFormat::Json,
            Fmt::Csv => OutputFormat::Csv,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Fmt::Text => "text",
            Fmt::Json => "json",
            Fmt::Csv => "csv",
        }
    }
}

pub fn emit_of(e: &dyn Emit, items: &Items, fmt: Fmt) -> Result<String, String> {
    let mut buf = vec![];
    e.emit(items, &mut buf, fmt.of()).map_err(|e| format!("emit failed: {}", e))?;
    String::from_utf8(buf).map_err(|_| "output is not UTF-8".to_string())
}

pub fn emit<F>(f: F, items: &mut Items, fmt: Fmt) -> Result<String, String>
where
    F: FnOnce(&mut Items) -> anyhow::Result<Box<dyn Emit>>,
{
    let e = f(items).map_err(|e| format!("analysis failed: {}", e))?;
    emit_of(&*e, items, fmt)
}

/// One line of a flat report.
#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub name: String,
    /// numbers by column, None where the cell is empty or "..."
    pub nums: Vec<Option<f64>>,
}

fn pct(s: &str) -> Result<Option<f64>, String> {
    if s.is_empty() || s == "..." {
        return Ok(None);
    }
    let t = s.strip_suffix('%').ok_or_else(|| format!("not a percentage: {:?}", s))?;
    let (a, b) = t.split_once('.').ok_or_else(|| format!("not a percentage: {:?}", s))?;
    if b.len() != 2 || !b.bytes().all(|c| c.is_ascii_digit()) || a.is_empty() || !a.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("not a percentage with two digits: {:?}", s));
    }
    Ok(Some(t.parse().unwrap()))
}

fn num(s: &str, signed: bool) -> Result<Option<f64>, String> {
    if s.is_empty() || s == "..." {
        return Ok(None);
    }
    let t = if signed {
        if !s.starts_with('+') && !s.starts_with('-') {
            return Err(format!("not a signed number: {:?}", s));
        }
        &s[1..]
    } else {
        s
    };
    if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("not a number: {:?}", s));
    }
    Ok(Some(s.parse::<f64>().unwrap()))
}

/// Kinds of text columns.
#[derive(Clone, Copy, PartialEq)]
pub enum Col {
    N,
    S,
    P,
}

/// Reads a text table with numeric columns followed by a name column.
pub fn text_rows(text: &str, header: &[&str], cols: &[Col]) -> Result<Vec<Row>, String> {
    let t = crate::rdr::parse_table(text, cols.len() + 1).map_err(|e| format!("{}\n{}", e, text))?;
    if t.header != header {
        return Err(format!("text header is {:?}, expected {:?}", t.header, header));
    }
    let mut out = vec![];
    for r in t.rows {
        let mut nums = vec![];
        for (i, c) in cols.iter().enumerate() {
            nums.push(match c {
                Col::N => num(&r[i], false)?,
                Col::S => num(&r[i], true)?,
                Col::P => pct(&r[i])?,
            });
        }
        out.push(Row { name: r[cols.len()].clone(), nums });
    }
    Ok(out)
}

/// Reads CSV records: `name` is the name column, `nums` the numeric ones. An output without any
/// record may lack the header.
pub fn csv_rows(text: &str, header: &[&str], name: usize, nums: &[usize]) -> Result<Vec<Row>, String> {
    let rows = crate::rdr::parse_csv(text).map_err(|e| format!("{}\n{}", e, text))?;
    if rows.is_empty() {
        return Ok(vec![]);
    }
    if rows[0] != header {
        return Err(format!("CSV header is {:?}, expected {:?}", rows[0], header));
    }
    rows[1..]
        .iter()
        .map(|r| {
            let ns = nums
                .iter()
                .map(|i| {
                    if r[*i].is_empty() {
                        Ok(None)
                    } else {
                        match r[*i].parse::<f64>() {
                            Ok(v) if v.is_finite() => Ok(Some(v)),
                            _ => Err(format!("CSV: not a number: {:?}", r[*i])),
                        }
                    }
                })
                .collect::<Result<Vec<_>, String>>()?;
            Ok(Row { name: r[name].clone(), nums: ns })
        })
        .collect()
}

/// Reads a JSON array of flat objects. Missing numeric fields are None.
pub fn json_rows(text: &str, name: &str, nums: &[&str]) -> Result<Vec<Row>, String> {
    let j = crate::rdr::parse_json(text).map_err(|e| format!("{}\n{}", e, text))?;
    j.arr()
        .ok_or("JSON: not an array")?
        .iter()
        .map(|o| {
            let n = o.get(name).and_then(|v| v.as_str()).ok_or_else(|| format!("JSON: no {}", name))?;
            Ok(Row { name: n.to_string(), nums: nums.iter().map(|k| o.get(k).and_then(|v| v.as_f64())).collect() })
        })
        .collect()
}

/// Percentages printed with two decimals, or in full.
pub fn pct_ok(fmt: Fmt, got: Option<f64>, part: f64, total: f64) -> bool {
    let want = part / total * 100.0;
    match got {
        None => false,
        Some(g) => (g - want).abs() <= if fmt == Fmt::Text { 0.005001 } else { 1e-9 * (1.0 + want.abs()) },
    }
}
