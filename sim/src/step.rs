//! An independent reader of the STEP exchange structure: the oracle never asks the library's own
//! parser what a document says.

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Node {
    Null,
    Star,
    Num(String),
    /// undecoded content
    Str(String),
    Enum(String),
    Ref(u64),
    List(Vec<Node>),
    Typed(String, Vec<Node>),
    /// only in expectations: anything of the right kind
    Any,
    /// only in expectations: a number computed with rounding
    F(f64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub kw: String,
    pub args: Vec<Node>,
    /// the record's text without the terminating semicolon
    pub raw: String,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Doc {
    pub header: Vec<(String, Vec<Node>)>,
    pub data: Vec<(u64, Rec)>,
}

impl Doc {
    /// last definition wins
    pub fn map(&self) -> BTreeMap<u64, &Rec> {
        self.data.iter().map(|(i, r)| (*i, r)).collect()
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let a = self.i.min(self.s.len());
        let e = (a + 30).min(self.s.len());
        Err(format!(
            "{m} at byte {} near {:?}",
            self.i,
            String::from_utf8_lossy(&self.s[a..e])
        ))
    }
    fn ws(&mut self) -> R<()> {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.s[self.i..].starts_with(b"/*") {
                match find(&self.s[self.i + 2..], b"*/") {
                    Some(k) => self.i += 2 + k + 2,
                    None => return self.err("unterminated comment"),
                }
            } else {
                return Ok(());
            }
        }
    }
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn lit(&mut self, l: &str) -> R<()> {
        self.ws()?;
        if self.s[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(())
        } else {
            self.err(&format!("expected {l:?}"))
        }
    }
    fn try_lit(&mut self, l: &str) -> R<bool> {
        self.ws()?;
        if self.s[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(true)
        } else {
            Ok(false)
        }
    }
    fn ident(&mut self) -> String {
        let a = self.i;
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn string(&mut self) -> R<String> {
        // at the opening quote; '' inside is an apostrophe
        self.i += 1;
        let a = self.i;
        loop {
            if self.i >= self.s.len() {
                return self.err("unterminated string");
            }
            if self.peek() == b'\'' {
                if self.s.get(self.i + 1) == Some(&b'\'') {
                    self.i += 2;
                    continue;
                }
                let r = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
                self.i += 1;
                return Ok(r);
            }
            self.i += 1;
        }
    }
    fn number(&mut self) -> R<String> {
        let a = self.i;
        while matches!(self.peek(), b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E') {
            self.i += 1;
        }
        let t = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
        if t.parse::<f64>().is_err() {
            self.i = a;
            return self.err("malformed number");
        }
        Ok(t)
    }
    fn node(&mut self) -> R<Node> {
        self.ws()?;
        Ok(match self.peek() {
            b'$' => {
                self.i += 1;
                Node::Null
            }
            b'*' => {
                self.i += 1;
                Node::Star
            }
            b'\'' => Node::Str(self.string()?),
            b'"' => {
                self.i += 1;
                let a = self.i;
                while self.peek() != b'"' {
                    if self.i >= self.s.len() {
                        return self.err("unterminated binary");
                    }
                    self.i += 1;
                }
                self.i += 1;
                Node::Str(String::from_utf8_lossy(&self.s[a..self.i - 1]).into_owned())
            }
            b'#' => {
                self.i += 1;
                let t = self.ident();
                match id_of(&t) {
                    Some(v) => Node::Ref(v),
                    None => return self.err("malformed reference"),
                }
            }
            b'(' => {
                self.i += 1;
                Node::List(self.items()?)
            }
            b'.' if !self.s.get(self.i + 1).is_some_and(|c| c.is_ascii_digit()) => {
                self.i += 1;
                let t = self.ident();
                if self.peek() != b'.' {
                    return self.err("malformed enumeration");
                }
                self.i += 1;
                Node::Enum(t)
            }
            b'0'..=b'9' | b'+' | b'-' | b'.' => Node::Num(self.number()?),
            c if c.is_ascii_alphabetic() => {
                let t = self.ident();
                if self.try_lit("(")? {
                    Node::Typed(t, self.items()?)
                } else {
                    Node::Typed(t, vec![])
                }
            }
            _ => return self.err("unexpected character"),
        })
    }
    /// after the opening parenthesis, through the closing one
    fn items(&mut self) -> R<Vec<Node>> {
        let mut v = vec![];
        loop {
            if self.try_lit(")")? {
                return Ok(v);
            }
            v.push(self.node()?);
            self.try_lit(",")?;
        }
    }
    fn record(&mut self) -> R<Rec> {
        self.ws()?;
        let a = self.i;
        let n = self.node()?;
        self.ws()?;
        let e = self.i;
        self.lit(";")?;
        let raw = String::from_utf8_lossy(&self.s[a..e]).trim_end().to_string();
        Ok(match n {
            Node::Typed(kw, args) => Rec { kw, args, raw },
            Node::List(args) => Rec {
                kw: String::new(),
                args,
                raw,
            },
            _ => return self.err("not a record"),
        })
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

pub fn parse_doc(text: &str) -> R<Doc> {
    let mut p = P {
        s: text.as_bytes(),
        i: 0,
    };
    let mut d = Doc::default();
    p.lit("ISO-10303-21;")?;
    p.lit("HEADER;")?;
    while !p.try_lit("ENDSEC;")? {
        let r = p.record()?;
        d.header.push((r.kw, r.args));
    }
    p.lit("DATA;")?;
    while !p.try_lit("ENDSEC;")? {
        p.lit("#")?;
        let t = p.ident();
        let Ok(id) = t.parse() else {
            return p.err("malformed id");
        };
        p.lit("=")?;
        let r = p.record()?;
        d.data.push((id, r));
    }
    p.lit("END-ISO-10303-21;")?;
    p.ws()?;
    if p.i != p.s.len() {
        return p.err("trailing content");
    }
    Ok(d)
}

/// parses one attribute
pub fn parse_node(text: &str) -> R<Node> {
    let mut p = P {
        s: text.as_bytes(),
        i: 0,
    };
    let n = p.node()?;
    p.ws()?;
    if p.i != p.s.len() {
        return p.err("trailing content");
    }
    Ok(n)
}

/// decodes the STEP string escapes
pub fn decode(s: &str) -> String {
    let s = s.replace("''", "'");
    let mut out = String::new();
    let mut rest = &s[..];
    loop {
        let Some(k) = rest.find('\\') else {
            out.push_str(rest);
            return out;
        };
        out.push_str(&rest[..k]);
        let t = &rest[k..];
        if let Some(body) = t.strip_prefix("\\X2\\") {
            if let Some(e) = body.find("\\X0\\") {
                let hex = &body[..e];
                if hex.len() % 4 == 0
                    && !hex.is_empty()
                    && hex.bytes().all(|b| b.is_ascii_hexdigit())
                {
                    let u: Vec<u16> = (0..hex.len() / 4)
                        .map(|i| u16::from_str_radix(&hex[i * 4..i * 4 + 4], 16).unwrap())
                        .collect();
                    if let Ok(d) = String::from_utf16(&u) {
                        out.push_str(&d);
                        rest = &body[e + 4..];
                        continue;
                    }
                }
            }
        }
        // \\ \S\c \X\hh \X4\...\X0\
        if let Some(more) = t.strip_prefix("\\\\") {
            out.push('\\');
            rest = more;
            continue;
        }
        if let Some(body) = t.strip_prefix("\\S\\") {
            if let Some(c @ ' '..='~') = body.chars().next() {
                out.push((c as u8 + 128) as char);
                rest = &body[1..];
                continue;
            }
        }
        if let Some(body) = t.strip_prefix("\\X\\") {
            if let Some(b) = body.get(..2).and_then(|h| u8::from_str_radix(h, 16).ok()) {
                out.push(b as char);
                rest = &body[2..];
                continue;
            }
        }
        if let Some((hex, more)) = t.strip_prefix("\\X4\\").and_then(|b| b.split_once("\\X0\\")) {
            if !hex.is_empty() && hex.len() % 8 == 0 && hex.bytes().all(|b| b.is_ascii_hexdigit()) {
                let c: Option<String> = (0..hex.len() / 8)
                    .map(|i| char::from_u32(u32::from_str_radix(&hex[i * 8..i * 8 + 8], 16).unwrap()))
                    .collect();
                if let Some(c) = c {
                    out.push_str(&c);
                    rest = more;
                    continue;
                }
            }
        }
        out.push('\\');
        rest = &t[1..];
    }
}

/// are all backslashes part of escape sequences this parser knows?
pub fn escaped(s: &str) -> bool {
    !decode(&s.replace("\\\\", "")).contains('\\')
}

pub fn num(s: &str) -> f64 {
    s.parse().unwrap_or(f64::NAN)
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b
        || (a - b).abs() <= tol * a.abs().max(b.abs())
        || (tol >= 1e-9 && (a - b).abs() < tol)
}

fn bool_name(e: &str) -> &str {
    match e {
        "T" => "TRUE",
        "F" => "FALSE",
        "U" => "UNKNOWN",
        e => e,
    }
}

/// an expected direction: its length means nothing
fn ratios(n: &Node) -> bool {
    match n {
        Node::Typed(k, v) if k == "IFCDIRECTION" => {
            matches!(v.first(), Some(Node::List(l)) if matches!(l.first(), Some(Node::F(_))))
        }
        _ => false,
    }
}

/// the unit vector of direction ratios
fn unit(v: &[Node]) -> Vec<f64> {
    let Some(Node::List(l)) = v.first() else { return vec![] };
    let l: Vec<f64> = l
        .iter()
        .map(|x| match x {
            Node::F(f) => *f,
            Node::Num(s) => num(s),
            _ => f64::NAN,
        })
        .collect();
    let n = l.iter().map(|x| x * x).sum::<f64>().sqrt();
    l.into_iter().map(|x| if n > 0.0 { x / n } else { x }).collect()
}

/// value equality of two attributes; numbers by value (relative tolerance), strings decoded
pub fn same(a: &Node, b: &Node, tol: f64) -> bool {
    use Node::*;
    match (a, b) {
        (Any, _) | (_, Any) => true,
        (Null, Null) | (Star, Star) => true,
        (Num(x), Num(y)) if x.parse::<i128>().is_ok() && y.parse::<i128>().is_ok() => {
            x.parse::<i128>() == y.parse::<i128>()
        }
        (Num(x), Num(y)) => close(num(x), num(y), tol),
        (F(x), Num(y)) | (Num(y), F(x)) => close(*x, num(y), tol),
        (F(x), F(y)) => close(*x, *y, tol),
        (Str(x), Str(y)) => x == y || decode(x) == decode(y),
        (Enum(x), Enum(y)) => bool_name(x) == bool_name(y),
        (Ref(x), Ref(y)) => x == y,
        (List(x), List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q, tol)),
        (Typed(n, x), Typed(m, y)) if n == "IFCDIRECTION" && m == n && ratios(a) => unit(x) == unit(y) || {
            let (x, y) = (unit(x), unit(y));
            x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| (p - q).abs() < tol.max(1e-12))
        },
        (Typed(n, x), Typed(m, y)) => {
            n.eq_ignore_ascii_case(m)
                && x.len() == y.len()
                && x.iter().zip(y).all(|(p, q)| same(p, q, tol))
        }
        _ => false,
    }
}

pub fn show(n: &Node) -> String {
    use Node::*;
    match n {
        Null => "$".into(),
        Star => "*".into(),
        Num(s) => s.clone(),
        F(f) => format!("~{f}"),
        Str(s) => format!("'{s}'"),
        Enum(e) => format!(".{e}."),
        Ref(i) => format!("#{i}"),
        List(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(",")),
        Typed(k, v) => format!("{k}({})", v.iter().map(show).collect::<Vec<_>>().join(",")),
        Any => "<any>".into(),
    }
}

pub fn refs(n: &Node, out: &mut Vec<u64>) {
    match n {
        Node::Ref(i) => out.push(*i),
        Node::List(v) | Node::Typed(_, v) => v.iter().for_each(|x| refs(x, out)),
        _ => {}
    }
}

/// The meaning of a record with every reference replaced by the record it points to (GUIDs and
/// timestamps become placeholders). Recursion is cut where `stop` says so.
pub fn expand(
    id: u64,
    m: &BTreeMap<u64, &Rec>,
    stop: &dyn Fn(&str) -> Option<String>,
    depth: usize,
) -> Node {
    let Some(r) = m.get(&id) else {
        return Node::Typed("DANGLING".into(), vec![]);
    };
    if let Some(s) = stop(&r.kw) {
        return Node::Typed(s, vec![]);
    }
    if depth > 60 {
        return Node::Typed("CYCLE".into(), vec![]);
    }
    Node::Typed(
        r.kw.clone(),
        r.args.iter().map(|a| expand_node(a, m, stop, depth)).collect(),
    )
}

pub fn expand_node(
    n: &Node,
    m: &BTreeMap<u64, &Rec>,
    stop: &dyn Fn(&str) -> Option<String>,
    depth: usize,
) -> Node {
    match n {
        Node::Ref(i) => expand(*i, m, stop, depth + 1),
        Node::List(v) => Node::List(v.iter().map(|x| expand_node(x, m, stop, depth)).collect()),
        Node::Typed(k, v) => Node::Typed(
            k.clone(),
            v.iter().map(|x| expand_node(x, m, stop, depth)).collect(),
        ),
        o => o.clone(),
    }
}

/// first difference between two trees, as a path
pub fn diff(a: &Node, b: &Node, tol: f64) -> Option<String> {
    use Node::*;
    match (a, b) {
        (List(x), List(y)) => {
            if x.len() != y.len() {
                return Some(format!("lists of {} and {} items", x.len(), y.len()));
            }
            x.iter()
                .zip(y)
                .enumerate()
                .find_map(|(i, (p, q))| diff(p, q, tol).map(|d| format!("[{i}]{d}")))
        }
        (Typed(n, x), Typed(m, y)) if n.eq_ignore_ascii_case(m) && x.len() == y.len() && !ratios(a) => x
            .iter()
            .zip(y)
            .enumerate()
            .find_map(|(i, (p, q))| diff(p, q, tol).map(|d| format!("/{n}.{i}{d}"))),
        _ => {
            if same(a, b, tol) {
                None
            } else {
                let cut = |s: String| s.chars().take(160).collect::<String>();
                Some(format!(": {} vs {}", cut(show(a)), cut(show(b))))
            }
        }
    }
}

/// the number of an id; one beyond 64 bits is a number of its own that nothing else has
pub fn id_of(digits: &str) -> Option<u64> {
    if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    Some(digits.parse().unwrap_or_else(|_| {
        let h = digits.trim_start_matches('0').bytes().fold(7u64, |h, c| h.wrapping_mul(1099511628211) ^ c as u64);
        u64::MAX - h % (1 << 40)
    }))
}
