//! Strict readers for twiggy's output formats.

#[derive(Clone, Debug, PartialEq)]
pub enum Json {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}

impl Json {
    pub fn get(&self, k: &str) -> Option<&Json> {
        match self {
            Json::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            Json::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            Json::Num(s) => Some(*s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[Json]> {
        match self {
            Json::Arr(s) => Some(s),
            _ => None,
        }
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

/// RFC 8259, nothing more: no trailing text, no raw control characters, finite numbers, unique keys.
pub fn parse_json(text: &str) -> Result<Json, String> {
    let mut p = P { s: text.as_bytes(), i: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("JSON: trailing text at byte {}", p.i));
    }
    Ok(v)
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> Result<u8, String> {
        self.s.get(self.i).copied().ok_or_else(|| "JSON: unexpected end".to_string())
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("JSON: {} at byte {}", m, self.i))
    }
    fn value(&mut self, depth: usize) -> Result<Json, String> {
        if depth > 20000 {
            return self.err("too deep");
        }
        match self.peek()? {
            b'{' => {
                self.i += 1;
                let mut o: Vec<(String, Json)> = vec![];
                self.ws();
                if self.peek()? == b'}' {
                    self.i += 1;
                    return Ok(Json::Obj(o));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    if o.iter().any(|(n, _)| *n == k) {
                        return self.err(&format!("duplicate key {:?}", k));
                    }
                    self.ws();
                    if self.peek()? != b':' {
                        return self.err("expected ':'");
                    }
                    self.i += 1;
                    self.ws();
                    let v = self.value(depth + 1)?;
                    o.push((k, v));
                    self.ws();
                    match self.peek()? {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(Json::Obj(o));
                        }
                        _ => return self.err("expected ',' or '}'"),
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.peek()? == b']' {
                    self.i += 1;
                    return Ok(Json::Arr(a));
                }
                loop {
                    self.ws();
                    a.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek()? {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(Json::Arr(a));
                        }
                        _ => return self.err("expected ',' or ']'"),
                    }
                }
            }
            b'"' => Ok(Json::Str(self.string()?)),
            b't' => self.word("true", Json::Bool(true)),
            b'f' => self.word("false", Json::Bool(false)),
            b'n' => self.word("null", Json::Null),
            b'-' | b'0'..=b'9' => self.number(),
            _ => self.err("unexpected character"),
        }
    }
    fn word(&mut self, w: &str, v: Json) -> Result<Json, String> {
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn digits(&mut self) -> Result<(), String> {
        let b = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        if self.i == b {
            self.err("expected digit")
        } else {
            Ok(())
        }
    }
    fn number(&mut self) -> Result<Json, String> {
        let b = self.i;
        if self.peek()? == b'-' {
            self.i += 1;
        }
        if self.peek()? == b'0' {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.s.get(self.i) == Some(&b'.') {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.s.get(self.i), Some(b'e') | Some(b'E')) {
            self.i += 1;
            if matches!(self.s.get(self.i), Some(b'+') | Some(b'-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        let t = std::str::from_utf8(&self.s[b..self.i]).unwrap();
        let v: f64 = t.parse().map_err(|_| "JSON: bad number".to_string())?;
        if !v.is_finite() {
            return self.err("number out of range");
        }
        Ok(Json::Num(v))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        if self.i + 4 > self.s.len() {
            return self.err("short \\u");
        }
        let t = std::str::from_utf8(&self.s[self.i..self.i + 4]).map_err(|_| "JSON: bad \\u".to_string())?;
        if !t.bytes().all(|b| b.is_ascii_hexdigit()) {
            return self.err("bad \\u");
        }
        self.i += 4;
        Ok(u32::from_str_radix(t, 16).unwrap())
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek()? != b'"' {
            return self.err("expected string");
        }
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|_| "JSON: invalid UTF-8".to_string()),
                0..=0x1f => {
                    self.i -= 1;
                    return self.err("raw control character in string");
                }
                b'\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) {
                                if self.s.get(self.i) == Some(&b'\\') && self.s.get(self.i + 1) == Some(&b'u') {
                                    self.i += 2;
                                    let b = self.hex4()?;
                                    if !(0xdc00..0xe000).contains(&b) {
                                        return self.err("lone surrogate");
                                    }
                                    char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).unwrap()
                                } else {
                                    return self.err("lone surrogate");
                                }
                            } else {
                                match char::from_u32(a) {
                                    Some(c) => c,
                                    None => return self.err("lone surrogate"),
                                }
                            }
                        }
                        _ => return self.err("bad escape"),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                c => out.push(c),
            }
        }
    }
}

/// RFC 4180 with LF or CRLF record ends. All records must have the header's length.
pub fn parse_csv(text: &str) -> Result<Vec<Vec<String>>, String> {
    let mut rows = vec![];
    let mut row: Vec<String> = vec![];
    let mut f = String::new();
    let mut it = text.chars().peekable();
    if it.peek().is_none() {
        return Ok(rows);
    }
    // states: start of field, unquoted, quoted, after closing quote
    let mut st = 0;
    loop {
        let c = it.next();
        match (st, c) {
            (0, Some('"')) => st = 2,
            (2, Some('"')) => st = 3,
            (2, Some(c)) => f.push(c),
            (2, None) => return Err("CSV: unterminated quote".into()),
            (3, Some('"')) => {
                f.push('"');
                st = 2
            }
            (_, Some(',')) => {
                row.push(std::mem::take(&mut f));
                st = 0;
            }
            (_, Some('\n')) => {
                row.push(std::mem::take(&mut f));
                rows.push(std::mem::take(&mut row));
                st = 0;
                if it.peek().is_none() {
                    break;
                }
            }
            (_, Some('\r')) => {
                if it.peek() == Some(&'\n') {
                    continue;
                }
                return Err("CSV: bare CR outside quotes".into());
            }
            (_, None) => return Err("CSV: last record not terminated".into()),
            (3, Some(_)) => return Err("CSV: text after closing quote".into()),
            (_, Some('"')) => return Err("CSV: quote inside unquoted field".into()),
            (_, Some(c)) => {
                f.push(c);
                st = 1;
            }
        }
    }
    for (i, r) in rows.iter().enumerate() {
        if r.len() != rows[0].len() {
            return Err(format!("CSV: record {} has {} fields, header has {}", i, r.len(), rows[0].len()));
        }
    }
    Ok(rows)
}

/// A text table: header and rows of cells, checked to line up.
pub struct TextTable {
    pub header: Vec<String>,
    /// All but the last cell trimmed; the last one as printed.
    pub rows: Vec<Vec<String>>,
}

/// Reads a table of `cols` columns whose last column is left aligned and the others right aligned.
/// Names must not contain line breaks or the column separator.
pub fn parse_table(text: &str, cols: usize) -> Result<TextTable, String> {
    if !text.ends_with('\n') {
        return Err("table: not terminated by a newline".into());
    }
    let lines: Vec<&str> = text[..text.len() - 1].split('\n').collect();
    if lines.len() < 2 {
        return Err("table: header missing".into());
    }
    let header: Vec<&str> = lines[0].splitn(cols, " │ ").collect();
    if header.len() != cols {
        return Err(format!("table: header has {} columns", header.len()));
    }
    let rule: Vec<&str> = lines[1].splitn(cols, "─┼─").collect();
    if rule.len() != cols || !rule.iter().all(|r| r.chars().all(|c| c == '─')) {
        return Err("table: bad rule line".into());
    }
    // widths in characters of all but the last column
    let w: Vec<usize> = rule[..cols - 1].iter().map(|r| r.chars().count()).collect();
    let check = |cells: &[&str], what: &str| -> Result<(), String> {
        for i in 0..cols - 1 {
            // the first column has one leading space; the rule one leading dash
            let got = cells[i].chars().count();
            if got != w[i] {
                return Err(format!("table: column {} of {} is {} wide, rule is {}", i, what, got, w[i]));
            }
        }
        Ok(())
    };
    check(&header, "header")?;
    let mut rows = vec![];
    for l in &lines[2..] {
        let cells: Vec<&str> = l.splitn(cols, " ┊ ").collect();
        if cells.len() != cols {
            return Err(format!("table: row has {} columns: {:?}", cells.len(), l));
        }
        check(&cells, "row")?;
        let mut r: Vec<String> = cells[..cols - 1].iter().map(|c| c.trim().to_string()).collect();
        r.push(cells[cols - 1].to_string());
        rows.push(r);
    }
    Ok(TextTable { header: header.iter().map(|h| h.trim().to_string()).collect(), rows })
}
