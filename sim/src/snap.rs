//! What a simulated process reports about a model, and the oracles over it.

use crate::cov::quiet;
use crate::docgen::{sch, valid_guid, DocPlan, classes};
use crate::fw::{viol, Viol};
use crate::schema::{entity_of, target_classes, written, Ent, F};
use crate::step::{self, parse_doc, parse_node, refs, same, show, Node, Rec};
use crate::view::view;
use ifc_rs::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const TOL: f64 = 1e-12;

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Snap {
    pub text: String,
    /// id -> (kind of object, publicly readable attributes)
    pub ents: BTreeMap<u64, (String, Vec<Option<String>>)>,
}

/// inside of a simulated process
pub fn snap(ifc: &IFC) -> Snap {
    let text = ifc.to_string();
    quiet(|| {
        let mut s = Snap {
            ents: Default::default(),
            text,
        };
        for id in ids_in(&s.text) {
            if let Some(v) = view_at(ifc, id) {
                s.ents.insert(id, v);
            }
        }
        s
    })
}

pub fn view_at(ifc: &IFC, id: u64) -> Option<(String, Vec<Option<String>>)> {
    let i = Id(id as usize);
    if !ifc.data.contains(&i) {
        return None;
    }
    let o = ifc.data.get_untyped(i);
    match view(o) {
        Some((t, v)) => Some((t.to_string(), v)),
        None => Some(("?".into(), vec![])),
    }
}

/// ids of the lines of rendered text
pub fn ids_in(text: &str) -> Vec<u64> {
    split(text)
        .map(|d| d.into_iter().map(|(i, _)| i).collect())
        .unwrap_or_default()
}

// ------------------------------------------------------------------------------ splitter

/// Splits a document into its data records: (id, text of the record), aware of strings and
/// comments, without any demands on the records themselves. None: no such structure.
pub fn split(text: &str) -> Option<Vec<(u64, String)>> {
    let b = text.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let mut state = 0; // 0 before DATA, 1 in DATA
    while i < b.len() {
        // one statement, without comments outside of it
        let a = i;
        let mut end = None;
        while i < b.len() {
            match b[i] {
                b'\'' => {
                    i += 1;
                    while i < b.len() && b[i] != b'\'' {
                        i += 1;
                    }
                    if i >= b.len() {
                        return None;
                    }
                    i += 1;
                }
                b'/' if b.get(i + 1) == Some(&b'*') => {
                    i += 2;
                    while i < b.len() && !b[i..].starts_with(b"*/") {
                        i += 1;
                    }
                    if i >= b.len() {
                        return None;
                    }
                    i += 2;
                }
                b';' => {
                    end = Some(i);
                    i += 1;
                    break;
                }
                _ => i += 1,
            }
        }
        let e = end?;
        let s = trim(&text[a..e]);
        if state == 0 {
            if s == "DATA" {
                state = 1;
            }
            continue;
        }
        if s == "ENDSEC" {
            return Some(out);
        }
        let s = s.strip_prefix('#')?;
        let d = s.bytes().take_while(|c| c.is_ascii_digit()).count();
        let id = crate::step::id_of(&s[..d])?;
        let s = trim(&s[d..]).strip_prefix('=')?;
        out.push((id, trim(s).to_string()));
    }
    None
}

/// strips white space and comments at both ends
fn trim(s: &str) -> &str {
    let mut s = s.trim_matches([' ', '\t', '\r', '\n']);
    loop {
        let t = s;
        if let Some(r) = s.strip_prefix("/*") {
            let k = match r.find("*/") {
                Some(k) => k,
                None => return s,
            };
            s = r[k + 2..].trim_start_matches([' ', '\t', '\r', '\n']);
        }
        s = s.trim_end_matches([' ', '\t', '\r', '\n']);
        if s == t {
            return s;
        }
    }
}

/// without white space and comments at the end
pub fn trim_tail(s: &str) -> String {
    let b = s.as_bytes();
    let (mut i, mut last) = (0, 0);
    while i < b.len() {
        if b[i] == b'\'' {
            i += 1;
            while i < b.len() && b[i] != b'\'' {
                i += 1;
            }
            i = (i + 1).min(b.len());
            last = i;
        } else if b[i..].starts_with(b"/*") {
            match s[i + 2..].find("*/") {
                Some(k) => i += k + 4,
                None => {
                    i = b.len();
                    last = i;
                }
            }
        } else {
            if !b[i].is_ascii_whitespace() {
                last = i + 1;
            }
            i += 1;
        }
    }
    s[..last].to_string()
}

// ------------------------------------------------------------------------------ expectations

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    /// schema keyword and attributes
    Typed(&'static str, Vec<Node>),
    /// verbatim
    Raw(String),
}

pub type Expect = BTreeMap<u64, Exp>;

pub fn expect_of(d: &DocPlan) -> Expect {
    d.recs
        .iter()
        .map(|x| {
            (
                x.id,
                if x.kw.is_empty() {
                    Exp::Raw(x.raw.clone())
                } else {
                    Exp::Typed(crate::docgen::ent(&x.kw).unwrap().kw, x.args.clone())
                },
            )
        })
        .collect()
}

/// what a text written by the library says
pub fn expect_text(text: &str) -> Result<Expect, String> {
    let d = parse_doc(text)?;
    Ok(d.data
        .iter()
        .map(|(i, r)| {
            (
                *i,
                match entity_of(sch(), &r.kw, &r.args) {
                    Some(e) if e.attrs.len() == r.args.len() => Exp::Typed(e.kw, r.args.clone()),
                    _ => Exp::Raw(r.raw.clone()),
                },
            )
        })
        .collect())
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

/// reals beyond the range of doubles, broken escape sequences (damaged text only)
fn unrepresentable(n: &Node) -> bool {
    match n {
        Node::Num(s) => !crate::step::num(s).is_finite(),
        // a stray backslash cannot be told from an escape sequence
        Node::Str(s) => !crate::step::escaped(s),
        Node::List(v) | Node::Typed(_, v) => v.iter().any(unrepresentable),
        _ => false,
    }
}

/// equality of a stored attribute with what the file said
fn attr_same(f: &F, want: &Node, got: &Node) -> bool {
    if same(want, got, TOL) || unrepresentable(want) {
        return true;
    }
    // dimension counts other than 1, 2, 3 are read as "derived" on purpose
    matches!((f, want, got), (F::ODim, Node::Num(n), Node::Star) if !["1","2","3"].contains(&n.as_str()))
}

/// the object's public attributes agree with the given ones
pub fn view_agrees(e: &Ent, want: &[Node], v: &[Option<String>]) -> Result<(), String> {
    if v.is_empty() {
        return Ok(());
    }
    if v.len() != want.len() {
        return Err(format!("{} attributes instead of {}", v.len(), want.len()));
    }
    for (i, (w, g)) in want.iter().zip(v).enumerate() {
        let Some(g) = g else { continue };
        if unrepresentable(w) {
            continue;
        }
        let n = match parse_node(g) {
            Ok(n) => n,
            Err(x) => return Err(format!("attribute {i} renders as {g:?} ({x})")),
        };
        if !attr_same(&e.attrs[i], w, &n) && !loose(w, &n) {
            return Err(format!("attribute {i} is {} instead of {}", cut(&show(&n)), cut(&show(w))));
        }
    }
    Ok(())
}

/// fields whose own rendering lacks the dots/quotes the record adds
fn loose(w: &Node, g: &Node) -> bool {
    match (w, g) {
        (Node::Enum(a), Node::Typed(b, v)) if v.is_empty() => a == b,
        (Node::Str(a), Node::Typed(b, v)) if v.is_empty() => a == b,
        _ => false,
    }
}

/// The model (text and objects) says exactly what is expected.
pub fn agrees(want: &Expect, s: &Snap, what: &str) -> Result<(), Viol> {
    let d = match parse_doc(&s.text) {
        Ok(d) => d,
        Err(e) => return viol("malformed", format!("{what}: the rendered text is malformed: {e}")),
    };
    let have = d.map();
    if have.len() != d.data.len() {
        return viol("duplicate", format!("{what}: an id is written twice"));
    }
    for (id, x) in want {
        let Some(r) = have.get(id) else {
            return viol("lost", format!("{what}: record #{id} {} is lost", cut(&show_exp(x))));
        };
        rec_agrees(*id, x, r, what)?;
        match (x, s.ents.get(id)) {
            (_, None) => return viol("lost", format!("{what}: object #{id} cannot be looked up")),
            (Exp::Raw(raw), Some((t, v))) => {
                if t != "Dummy" {
                    return viol("kind", format!("{what}: #{id} {} is read as {t}", cut(raw)));
                }
                if v[0].as_deref().map(str::trim_end) != Some(raw.as_str()) {
                    return viol("value", format!("{what}: #{id} {} is kept as {:?}", cut(raw), v[0]));
                }
            }
            (Exp::Typed(kw, args), Some((t, v))) => {
                let e = crate::docgen::ent(kw).unwrap();
                if t != "?" && t != e.ty {
                    return viol("kind", format!("{what}: #{id} {} is read as {t} instead of {}", cut(&show_exp(x)), e.ty));
                }
                if t == "?" && !matches!(e.ty, "MaterialProperties") {
                    return viol("kind", format!("{what}: #{id} {} is read as an unknown kind", cut(&show_exp(x))));
                }
                if let Err(m) = view_agrees(e, args, v) {
                    return viol("field", format!("{what}: #{id} {}: {m}", cut(&show_exp(x))));
                }
            }
        }
    }
    if let Some((id, r)) = have.iter().find(|(i, _)| !want.contains_key(i)) {
        return viol("extra", format!("{what}: record #{id} {} appeared", cut(&r.raw)));
    }
    Ok(())
}

pub fn show_exp(x: &Exp) -> String {
    match x {
        Exp::Raw(s) => s.clone(),
        Exp::Typed(k, a) => show(&Node::Typed(written(k).into(), a.clone())),
    }
}

pub fn rec_agrees(id: u64, x: &Exp, r: &Rec, what: &str) -> Result<(), Viol> {
    match x {
        Exp::Raw(raw) => {
            if &r.raw != raw {
                return viol("value", format!("{what}: #{id} {} is written as {}", cut(raw), cut(&r.raw)));
            }
        }
        Exp::Typed(kw, args) => {
            let e = crate::docgen::ent(kw).unwrap();
            let bad = r.kw != written(kw)
                || r.args.len() != args.len()
                || args.iter().zip(&r.args).zip(&e.attrs).any(|((w, g), f)| !attr_same(f, w, g));
            if bad {
                return viol("value", format!("{what}: #{id} {} is written as {}", cut(&show_exp(x)), cut(&r.raw)));
            }
        }
    }
    Ok(())
}

pub fn head_agrees(want: &[(String, Vec<Node>)], text: &str, what: &str) -> Result<(), Viol> {
    let d = match parse_doc(text) {
        Ok(d) => d,
        Err(e) => return viol("malformed", format!("{what}: the rendered text is malformed: {e}")),
    };
    let w: Vec<Node> = want.iter().map(|(k, a)| Node::Typed(k.clone(), a.clone())).collect();
    let g: Vec<Node> = d.header.iter().map(|(k, a)| Node::Typed(k.clone(), a.clone())).collect();
    // header strings are not decoded
    if w != g {
        return viol(
            "header",
            format!(
                "{what}: header {} became {}",
                cut(&show(&Node::List(w))),
                cut(&show(&Node::List(g)))
            ),
        );
    }
    Ok(())
}

/// Two reports of the same model (before a save / after the load) say the same.
pub fn equal(a: &Snap, b: &Snap, what: &str) -> Result<(), Viol> {
    let want = match expect_text(&a.text) {
        Ok(w) => w,
        Err(e) => return viol("malformed", format!("{what}: the rendered text is malformed: {e}")),
    };
    // objects held before the save as the same kinds afterwards
    for (id, (t, v)) in &a.ents {
        match b.ents.get(id) {
            None => return viol("lost", format!("{what}: object #{id} ({t}) is lost")),
            Some((u, w)) => {
                if t != u {
                    return viol("kind", format!("{what}: #{id} was a {t} and is a {u} now"));
                }
                for (i, (x, y)) in v.iter().zip(w).enumerate() {
                    let (Some(x), Some(y)) = (x, y) else { continue };
                    if x == y {
                        continue;
                    }
                    let ok = match (parse_node(x), parse_node(y)) {
                        (Ok(p), Ok(q)) => same(&p, &q, TOL),
                        _ => false,
                    };
                    if !ok {
                        return viol("field", format!("{what}: attribute {i} of #{id} ({t}) was {} and is {} now", cut(x), cut(y)));
                    }
                }
            }
        }
    }
    agrees(&want, b, what)?;
    let d = parse_doc(&a.text).unwrap();
    head_agrees(&d.header, &b.text, what)
}

// ------------------------------------------------------------------------------ damaged text

/// A model loaded from `bytes` (which may be damaged) says what they say. Returns the number of
/// records that could be judged and that could not.
pub fn says(text: &str, s: &Snap, what: &str) -> Result<(u64, u64), Viol> {
    let Some(recs) = split(text) else {
        return Ok((0, 1));
    };
    let m: BTreeMap<u64, String> = recs.into_iter().collect();
    let mut judged = 0;
    let mut unjudged = 0;
    let out = parse_doc(&s.text).ok();
    let out_map: Option<BTreeMap<u64, &Rec>> = out.as_ref().map(|d| d.map());
    for (id, raw) in &m {
        let Some((t, v)) = s.ents.get(id) else {
            return viol("lost", format!("{what}: the stored record #{id}={} is not in the model", cut(raw)));
        };
        if t == "Dummy" {
            let kept = v[0].clone().unwrap_or_default();
            if trim_tail(kept.trim()).trim() != trim_tail(raw.trim()).trim() {
                return viol("misread", format!("{what}: #{id}={} is kept as {}", cut(raw), cut(&kept)));
            }
            judged += 1;
            continue;
        }
        let Ok(Node::Typed(kw, args)) = parse_node(raw) else {
            unjudged += 1;
            continue;
        };
        let e = match entity_of(sch(), &kw, &args) {
            Some(e) => e,
            None => return viol("misread", format!("{what}: #{id}={} is read as {t}", cut(raw))),
        };
        if t != "?" && e.ty != t {
            return viol("misread", format!("{what}: #{id}={} is read as {t}", cut(raw)));
        }
        if e.attrs.len() != args.len() {
            return viol("misread", format!("{what}: #{id}={} with {} attributes is read as {t}", cut(raw), args.len()));
        }
        if let Err(x) = view_agrees(e, &args, v) {
            return viol("misread", format!("{what}: #{id}={}: {x}", cut(raw)));
        }
        if let Some(om) = &out_map {
            if let Some(r) = om.get(id) {
                let bad = r.args.len() != args.len()
                    || args.iter().zip(&r.args).zip(&e.attrs).any(|((w, g), f)| !attr_same(f, w, g));
                if bad {
                    return viol("misread", format!("{what}: #{id}={} is written as {}", cut(raw), cut(&r.raw)));
                }
            }
        }
        // no dangling or ill-typed references
        for (a, f) in args.iter().zip(&e.attrs) {
            let mut rs = vec![];
            refs(a, &mut rs);
            for r in rs {
                let Some((u, _)) = s.ents.get(&r) else {
                    return viol("dangling", format!("{what}: #{id}={} refers to the missing #{r}", cut(raw)));
                };
                if let Some((c, _, _)) = target_classes(f) {
                    if !kind_fits(u, c) {
                        return viol("illtyped", format!("{what}: #{id}={} refers to #{r}, a {u}", cut(raw)));
                    }
                }
            }
        }
        judged += 1;
    }
    if let Some(id) = s.ents.keys().find(|i| !m.contains_key(i)) {
        return viol("extra", format!("{what}: the model has an object #{id} which is not stored"));
    }
    Ok((judged, unjudged))
}

/// may an object of this kind be referred to where the classes are allowed?
pub fn kind_fits(ty: &str, cl: &str) -> bool {
    ty == "Dummy" || ty == "?" || cl.is_empty() || classes(cl).iter().any(|c| crate::docgen::ent(c).is_some_and(|e| e.ty == ty))
}

/// every reference of a text written by the library exists and has a kind the schema allows
pub fn links_ok(text: &str, what: &str) -> Result<u64, Viol> {
    let d = match parse_doc(text) {
        Ok(d) => d,
        Err(e) => return viol("malformed", format!("{what}: {e}")),
    };
    let m = d.map();
    if m.len() != d.data.len() {
        return viol("duplicate", format!("{what}: an id is written twice"));
    }
    let mut n = 0;
    for (id, r) in &m {
        let e = entity_of(sch(), &r.kw, &r.args);
        for (i, a) in r.args.iter().enumerate() {
            let mut rs = vec![];
            refs(a, &mut rs);
            for t in rs {
                n += 1;
                let Some(tr) = m.get(&t) else {
                    return viol("dangling", format!("{what}: #{id}={} refers to the missing #{t}", cut(&r.raw)));
                };
                let Some((c, _, _)) = e.and_then(|e| e.attrs.get(i)).and_then(target_classes) else { continue };
                if let Some(te) = entity_of(sch(), &tr.kw, &tr.args) {
                    if !c.is_empty() && !classes(c).contains(&te.kw) {
                        return viol("illtyped", format!("{what}: #{id}={} refers to #{t}={}", cut(&r.raw), cut(&tr.raw)));
                    }
                }
            }
        }
    }
    Ok(n)
}

/// all values in GUID places
pub fn guids(text: &str) -> Result<Vec<(u64, String)>, String> {
    let d = parse_doc(text)?;
    let mut v = vec![];
    for (id, r) in &d.data {
        if let Some(e) = entity_of(sch(), &r.kw, &r.args) {
            if e.attrs.first() == Some(&F::Guid) {
                match r.args.first() {
                    Some(Node::Str(s)) => v.push((*id, s.clone())),
                    _ => return Err(format!("#{id}={} has no identifier", r.raw)),
                }
            }
        }
    }
    Ok(v)
}

pub fn guids_valid(text: &str, what: &str) -> Result<Vec<(u64, String)>, Viol> {
    let g = match guids(text) {
        Ok(g) => g,
        Err(e) => return viol("guid", format!("{what}: {e}")),
    };
    if let Some((i, s)) = g.iter().find(|(_, s)| !valid_guid(s)) {
        return viol("guid", format!("{what}: #{i} has the malformed identifier {s:?}"));
    }
    Ok(g)
}

// ------------------------------------------------------------------------------ canonical form

/// Order- and numbering-independent form of a document: one line per record (sorted), every
/// reference replaced by a digest of what it refers to; identifiers and time stamps blanked.
pub fn canonical(text: &str) -> Result<Vec<String>, String> {
    let d = parse_doc(text)?;
    let m = d.map();
    let mut memo: BTreeMap<u64, u64> = BTreeMap::new();
    fn digest(id: u64, m: &BTreeMap<u64, &Rec>, memo: &mut BTreeMap<u64, u64>, depth: usize) -> u64 {
        if let Some(h) = memo.get(&id) {
            return *h;
        }
        let h = match m.get(&id) {
            None => 1,
            Some(_) if depth > 80 => 2,
            Some(r) => crate::rng::fnv(line(r, m, memo, depth).as_bytes()),
        };
        memo.insert(id, h);
        h
    }
    fn node(n: &Node, m: &BTreeMap<u64, &Rec>, memo: &mut BTreeMap<u64, u64>, depth: usize, sort: bool) -> String {
        match n {
            Node::Ref(i) => match m.get(i) {
                Some(r) => format!("{}@{:016x}", r.kw, digest(*i, m, memo, depth + 1)),
                None => "DANGLING".into(),
            },
            Node::List(v) => {
                let mut x: Vec<String> = v.iter().map(|n| node(n, m, memo, depth, sort)).collect();
                if sort {
                    x.sort();
                }
                format!("({})", x.join(","))
            }
            Node::Typed(k, v) => {
                let x: Vec<String> = v.iter().map(|n| node(n, m, memo, depth, sort)).collect();
                format!("{k}({})", x.join(","))
            }
            o => show(o),
        }
    }
    fn line(r: &Rec, m: &BTreeMap<u64, &Rec>, memo: &mut BTreeMap<u64, u64>, depth: usize) -> String {
        let rel = r.kw.starts_with("IFCREL");
        let e = entity_of(sch(), &r.kw, &r.args);
        let mut s = format!("{}(", r.kw);
        for (i, a) in r.args.iter().enumerate() {
            let f = e.and_then(|e| e.attrs.get(i));
            match f {
                Some(F::Guid | F::Time) => s.push('!'),
                Some(F::OTime) if !matches!(a, Node::Null | Node::Star) => s.push('!'),
                // the running numbers in the names of relations
                Some(F::OStr) if rel => s.extend(show(a).chars().filter(|c| !c.is_ascii_digit())),
                _ => s.push_str(&node(a, m, memo, depth, rel)),
            }
            s.push(',');
        }
        s.push(')');
        s
    }
    let mut out: Vec<String> = vec![];
    for (_, r) in &d.data {
        out.push(line(r, &m, &mut memo, 0));
    }
    out.sort();
    for (k, a) in &d.header {
        let mut a = a.clone();
        if k == "FILE_NAME" && a.len() > 1 {
            a[1] = Node::Null;
        }
        out.push(format!("{k}{}", show(&Node::List(a))));
    }
    Ok(out)
}

pub fn canonical_diff(a: &str, b: &str) -> Result<Option<String>, String> {
    let (x, y) = (canonical(a)?, canonical(b)?);
    if x == y {
        return Ok(None);
    }
    let count = |v: &Vec<String>| {
        let mut m: BTreeMap<String, i64> = BTreeMap::new();
        for s in v {
            *m.entry(s.clone()).or_default() += 1;
        }
        m
    };
    let (cx, cy) = (count(&x), count(&y));
    for (s, n) in &cx {
        if cy.get(s) != Some(n) {
            return Ok(Some(format!("{n} x {} vs. {}", cut(s), cy.get(s).unwrap_or(&0))));
        }
    }
    for (s, n) in &cy {
        if !cx.contains_key(s) {
            return Ok(Some(format!("0 vs. {n} x {}", cut(s))));
        }
    }
    Ok(Some("order".into()))
}

pub fn is_prefix_lost(full: &str, bytes: &[u8]) -> bool {
    let f = full.as_bytes();
    bytes.len() < f.len() && f.starts_with(bytes) && !f[bytes.len()..].iter().all(|c| c.is_ascii_whitespace())
}

