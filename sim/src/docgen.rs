//! Generated documents: schema-driven, valid by construction (and by `sanitize`, so that a
//! minimised document is still a valid one).

use crate::rng::Rng;
use crate::schema::{PT, schema, target_classes, written, Ent, F};
use crate::step::{parse_node, refs, Node};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

pub fn sch() -> &'static Vec<Ent> {
    static S: OnceLock<Vec<Ent>> = OnceLock::new();
    S.get_or_init(schema)
}
pub fn ent(kw: &str) -> Option<&'static Ent> {
    sch().iter().find(|e| e.kw == kw)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RecPlan {
    pub id: u64,
    /// schema keyword, or empty for an entity the library does not model
    pub kw: String,
    pub alias: bool,
    pub args: Vec<Node>,
    /// text of an unmodelled record
    pub raw: String,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct HeadPlan {
    /// (name, items)
    pub views: Vec<(String, Vec<String>)>,
    pub name: Option<String>,
    /// seconds since 1970
    pub time: i64,
    pub zulu: bool,
    /// the time is given with an offset from UTC (minutes)
    #[serde(default)]
    pub offset: i16,
    /// digits after the point of the seconds (the library keeps whole seconds)
    #[serde(default)]
    pub frac: String,
    /// spelling of the lists of the view definitions: blanks, empty items
    #[serde(default)]
    pub lists: u8,
    pub authors: Vec<String>,
    pub orgs: Vec<String>,
    pub prep: String,
    pub sys: String,
    pub auth: String,
    pub schemas: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct DocPlan {
    pub head: HeadPlan,
    pub recs: Vec<RecPlan>,
    /// 0 = as the library writes; 1 = other white space; 2 = also comments
    pub style: u8,
    pub style_seed: i64,
}

pub const SCHEMAS: [(&str, &str); 27] = [
    ("IFC2X3", "IFC2X3"),
    ("Ifc2X3", "IFC2X3"),
    ("ifc2X3", "IFC2X3"),
    ("IFC2x3", "IFC2X3"),
    ("Ifc2x3", "IFC2X3"),
    ("ifc2x3", "IFC2X3"),
    ("IFC4X2", "IFC4"),
    ("Ifc4X2", "IFC4"),
    ("ifc4X2", "IFC4"),
    ("IFC4x2", "IFC4"),
    ("Ifc4x2", "IFC4"),
    ("ifc4x2", "IFC4"),
    ("IFC4", "IFC4"),
    ("Ifc4", "IFC4"),
    ("ifc4", "IFC4"),
    ("IFC4X3", "IFC4X3_ADD2"),
    ("Ifc4X3", "IFC4X3_ADD2"),
    ("ifc4X3", "IFC4X3_ADD2"),
    ("IFC4x3", "IFC4X3_ADD2"),
    ("Ifc4x3", "IFC4X3_ADD2"),
    ("ifc4x3", "IFC4X3_ADD2"),
    ("IFC4X3_ADD2", "IFC4X3_ADD2"),
    ("Ifc4X3_ADD2", "IFC4X3_ADD2"),
    ("ifc4X3_ADD2", "IFC4X3_ADD2"),
    ("IFC4x3_ADD2", "IFC4X3_ADD2"),
    ("Ifc4x3_ADD2", "IFC4X3_ADD2"),
    ("ifc4x3_ADD2", "IFC4X3_ADD2"),
];

/// rfc 3339 without zone
pub fn iso(secs: i64) -> String {
    let days = secs.div_euclid(86400);
    let t = secs.rem_euclid(86400);
    // civil from days (Howard Hinnant)
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!(
        "{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}",
        t / 3600,
        t / 60 % 60,
        t % 60
    )
}

// ------------------------------------------------------------------------------ random values

const WORDS: [&str; 37] = [
    "STRAẞE", "ñ", "Å", "\u{1F332}", "İ", "ﬀ", "\u{200b}",
    "Wand", "  ", " ", "e\u{301}", "\u{a0}", "wall", "A", "x", "Küche", "Größe", "Äpfel", "Öl", "Übung", "Straße", "€", "日本", "\u{1F3E0}", ";", "(", ")",
    ",", "#12", "=", "$", "*", "/* c */", "ENDSEC;", "IFCWALL(", "1.5", "-",
];

/// human text (as the API takes it); may contain apostrophes
pub fn text(r: &mut Rng, apostrophe: bool) -> String {
    let n = match r.below(10) {
        0 => 0,
        1..=6 => 1,
        7 | 8 => 2,
        _ => 4,
    };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(if r.chance(70) { " " } else { "" });
        }
        if apostrophe && r.chance(12) {
            s.push('\'');
        }
        if r.chance(45) {
            s.push_str(*r.pick(&WORDS));
        } else {
            for _ in 0..r.range(1, 8) {
                s.push((b'a' + r.below(26) as u8) as char);
            }
        }
        if apostrophe && r.chance(8) {
            s.push('\'');
        }
    }
    s
}

/// human text as a program may pass it to the API: also line breaks and other control characters
pub fn api_text(r: &mut Rng) -> String {
    let mut s = text(r, true);
    if r.chance(12) {
        for _ in 0..r.range(1, 3) {
            let at = r.below(s.chars().count() + 1);
            let at = s.char_indices().nth(at).map_or(s.len(), |(i, _)| i);
            s.insert_str(at, *r.pick(&["\n", "\t", "\r\n", "\u{1}", "\u{7f}", "\u{2028}", "   "]));
        }
    }
    if r.chance(3) {
        // long
        let n = r.range(40, 1200) as usize;
        while s.chars().count() < n {
            s.push_str(&text(r, true));
            s.push('.');
        }
    }
    s
}

/// content of a string attribute as it stands in a file
fn file_text(r: &mut Rng) -> String {
    let t = text(r, true);
    let mut t = t.replace('\'', "\\X2\\0027\\X0\\");
    if r.chance(8) {
        // escape sequences of other programs
        let e = *r.pick(&[
            "\\X\\E4", "\\S\\d", "\\\\", "\\X2\\00E400FC\\X0\\", "\\X2\\03B103b2\\X0\\", "\\X2\\00e4\\X0\\",
            "\\X4\\0001F3E0\\X0\\", "\\X2\\D83CDFE0\\X0\\", "C:\\\\X2\\\\a", "\\X\\27", "\\X2\\0020\\X0\\",
        ]);
        let at = r.below(t.len() + 1);
        if t.is_char_boundary(at) && !t.contains('\\') {
            t.insert_str(at, e);
        }
    }
    if r.chance(15) {
        t.replace('ü', "\\X2\\00FC\\X0\\").replace('ß', "\\X2\\00DF\\X0\\").replace('ä', "\\X2\\00E4\\X0\\")
    } else {
        t
    }
}

pub fn real(r: &mut Rng) -> f64 {
    let v = match r.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => r.range(-20, 20) as f64,
        3 => r.range(-2000, 2000) as f64 / 10.0,
        4 => r.range(-200000, 200000) as f64 / 1000.0,
        5 => r.f01() * 10.0 - 5.0,
        6 => (r.f01() - 0.5) * 1e-6,
        7 => (r.f01() - 0.5) * 1e9,
        8 => f64::from_bits((r.u64() & 0x000f_ffff_ffff_ffff) | ((1023 + r.range(-60, 60)) as u64) << 52),
        9 => r.range(1, 9) as f64 * 10f64.powi(r.range(-12, 12) as i32),
        10 => 1.0 / r.range(2, 99) as f64,
        _ => r.range(0, 5000) as f64,
    };
    if v == 0.0 {
        0.0
    } else {
        v
    }
}

/// spelling of a real in a file
/// also numbers far from 1
pub fn wide(r: &mut Rng) -> f64 {
    if !r.chance(5) {
        return real(r);
    }
    let v = match r.below(6) {
        0 => r.range(1, 9999) as f64 * 10f64.powi(r.range(15, 30) as i32),
        1 => (1u64 << 63) as f64 * r.range(1, 5) as f64,
        2 => (r.f01() + 0.1) * 10f64.powi(r.range(-40, -12) as i32),
        3 => (r.f01() + 0.1) * 10f64.powi(r.range(-300, -40) as i32),
        4 => (r.f01() + 0.1) * 10f64.powi(r.range(30, 300) as i32),
        _ => r.range((1 << 53) - 3, (1 << 53) + 3) as f64,
    };
    if r.chance(40) {
        -v
    } else {
        v
    }
}

pub fn real_text(r: &mut Rng, v: f64) -> String {
    match r.below(5) {
        0 => format!("{v:?}"),
        1 => {
            let s = format!("{v:.10E}");
            let (m, e) = s.split_once('E').unwrap();
            let e: i32 = e.parse().unwrap();
            format!("{m}E{}{:02}", if e < 0 { "-" } else { "+" }, e.abs())
        }
        2 if v.fract() == 0.0 && v.abs() < 1e15 => format!("{}", v as i64),
        _ => {
            let s = format!("{v}");
            if s.contains('.') {
                s
            } else {
                s + "."
            }
        }
    }
}

fn num(r: &mut Rng) -> Node {
    let v = wide(r);
    let s = real_text(r, v);
    Node::Num(zeros(r, s))
}
fn int(r: &mut Rng, small: bool) -> Node {
    let v = if small {
        r.range(-9, 9)
    } else {
        match r.below(4) {
            0 => r.range(-5, 5),
            1 => r.range(-100000, 100000),
            2 => r.u64() as i64,
            _ => 0,
        }
    };
    Node::Num(zeros(r, v.to_string()))
}

/// the same number, now and then with leading zeros or a sign
fn zeros(r: &mut Rng, s: String) -> String {
    if !r.chance(6) {
        return s;
    }
    let (sign, digits) = match s.strip_prefix('-') {
        Some(d) => ("-", d),
        None => (*r.pick(&["", "+"]), s.as_str()),
    };
    format!("{sign}{}{digits}", *r.pick(&["0", "00", "0000", ""]))
}

const B64: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$";
pub fn guid(r: &mut Rng) -> String {
    (0..22)
        .map(|i| B64[if i == 0 { r.below(4) } else { r.below(64) }] as char)
        .collect()
}
pub fn valid_guid(s: &str) -> bool {
    s.len() == 22 && s.bytes().all(|c| B64.contains(&c)) && (b'0'..=b'3').contains(&s.as_bytes()[0])
}

fn names(list: &str) -> Vec<&str> {
    if list.contains('|') {
        list.split('|').collect()
    } else {
        list.split(' ').collect()
    }
}
pub fn classes(c: &str) -> Vec<&str> {
    c.split(' ').filter(|s| !s.is_empty()).collect()
}

fn strs(r: &mut Rng) -> Node {
    let n = r.below(4);
    Node::List((0..n).map(|_| Node::Str(file_text(r))).collect())
}
fn vecn(r: &mut Rng, n: usize) -> Node {
    Node::List((0..n).map(|_| num(r)).collect())
}
fn opt(r: &mut Rng, f: impl FnOnce(&mut Rng) -> Node) -> Node {
    match r.below(20) {
        0..=11 => f(r),
        12..=18 => Node::Null,
        _ => Node::Star,
    }
}

// ------------------------------------------------------------------------------ generation

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub recs: Vec<RecPlan>,
    next: u64,
    gap: u64,
    foreign: bool,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, foreign: bool) -> Self {
        let next = match r.below(8) {
            0 => 0,
            1 => r.range(2, 3_000_000) as u64,
            2 => r.range(1 << 32, 1 << 45) as u64,
            _ => 1,
        };
        let gap = if r.chance(40) { r.range(1, 40) as u64 } else { 1 };
        Self {
            r,
            recs: vec![],
            next,
            gap,
            foreign,
        }
    }
    fn id(&mut self) -> u64 {
        let i = self.next;
        self.next += 1 + if self.gap > 1 { self.r.below(self.gap as usize) as u64 } else { 0 };
        i
    }
    fn pick_ref(&mut self, c: &str, depth: usize, required: bool) -> Node {
        let cl = classes(c);
        let have: Vec<u64> = self
            .recs
            .iter()
            .filter(|x| {
                if x.kw.is_empty() {
                    true
                } else {
                    cl.is_empty() || cl.contains(&x.kw.as_str())
                }
            })
            .map(|x| x.id)
            .collect();
        let reuse = if depth > 4 { 95 } else { 45 };
        if !have.is_empty() && self.r.chance(reuse) {
            return Node::Ref(*self.r.pick(&have));
        }
        if depth > 4 && !required {
            return Node::Null;
        }
        let kw = if cl.is_empty() {
            if self.r.chance(50) {
                "IFCCARTESIANPOINT@3"
            } else {
                let s = sch();
                s[self.r.below(s.len())].kw
            }
        } else {
            let s = *self.r.pick(&cl);
            s
        };
        let kw = if depth > 6 && cl.is_empty() { "IFCCARTESIANPOINT@3" } else { kw };
        Node::Ref(self.make(kw, depth + 1))
    }
    fn attr(&mut self, f: &F, depth: usize) -> Node {
        if let Some((c, required, list)) = target_classes(f) {
            if !required && !self.r.chance(55) {
                return if self.r.chance(90) { Node::Null } else { Node::Star };
            }
            if list {
                let n = match self.r.below(8) {
                    0 => 0,
                    1..=4 => 1,
                    5 | 6 => 2,
                    _ => 3,
                };
                let points = c == PT;
                let n = if n > 0 && self.r.chance(if points { 50 } else { 4 }) { n + self.r.below(6) } else { n };
                let mut v: Vec<Node> = (0..n).map(|_| self.pick_ref(c, depth, true)).collect();
                if points && n > 0 {
                    // outlines: of one dimension, some closed
                    let dim = |g: &Self, x: &Node| match x {
                        Node::Ref(i) => g.recs.iter().find(|r| r.id == *i).map(|r| r.kw.clone()),
                        _ => None,
                    };
                    if self.r.chance(80) {
                        let k = dim(self, &v[0]);
                        v.retain(|x| dim(self, x) == k);
                    }
                    if self.r.chance(40) {
                        v.push(v[0].clone());
                    }
                }
                return Node::List(v);
            }
            return self.pick_ref(c, depth, required);
        }
        let r = &mut *self.r;
        match f {
            F::Guid => Node::Str(guid(r)),
            F::Str => Node::Str(file_text(r)),
            F::OStr => opt(r, |r| Node::Str(file_text(r))),
            F::Real => num(r),
            F::OReal => opt(r, num),
            F::Int => int(r, false),
            F::OInt => opt(r, |r| int(r, false)),
            F::Exp => int(r, true),
            F::Bool => Node::Enum((*r.pick(&["T", "F", "U", "TRUE", "FALSE", "UNKNOWN"])).into()),
            F::OBool => opt(r, |r| Node::Enum((*r.pick(&["T", "F", "TRUE", "FALSE", "UNKNOWN"])).into())),
            F::Time => time(r),
            F::OTime => opt(r, time),
            F::Enum(l) => Node::Enum((*r.pick(&names(l))).into()),
            F::OEnum(l) => opt(r, |r| Node::Enum((*r.pick(&names(l))).into())),
            F::SEnum(l) => Node::Str((*r.pick(&names(l))).into()),
            F::OSEnum(l) => opt(r, |r| Node::Str((*r.pick(&names(l))).into())),
            F::LOStr => opt(r, strs),
            F::LOInt => opt(r, |r| Node::List((0..r.below(4)).map(|_| int(r, false)).collect())),
            F::V2 => vecn(r, 2),
            F::V3 => vecn(r, 3),
            F::LV2 => Node::List((0..r.below(6)).map(|_| vecn(r, 2)).collect()),
            F::LV3 => Node::List((0..r.below(6)).map(|_| vecn(r, 3)).collect()),
            F::Dim => Node::Num(r.range(1, 3).to_string()),
            F::ODim => opt(r, |r| Node::Num(r.range(1, 3).to_string())),
            F::Value => value(r),
            F::Measure => Node::Typed("IFCPLANEANGLEMEASURE".into(), vec![num(r)]),
            _ => unreachable!(),
        }
    }
    pub fn make(&mut self, kw: &str, depth: usize) -> u64 {
        let e = ent(kw).unwrap();
        let args: Vec<Node> = e.attrs.iter().map(|f| self.attr(f, depth)).collect();
        let alias = e.alias.is_some() && self.foreign && self.r.chance(25);
        let id = self.id();
        self.recs.push(RecPlan {
            id,
            kw: kw.into(),
            alias,
            args,
            raw: String::new(),
        });
        id
    }
    /// sizes beyond the usual: a long list, a long text, many records
    fn stretch(&mut self) {
        let far = match self.r.below(4) {
            0 => self.r.range(9, 40),
            1 | 2 => self.r.range(60, 150),
            _ => self.r.range(250, 300),
        } as usize;
        match self.r.below(6) {
            0 => {
                let far = if self.r.chance(25) { self.r.range(900, 2200) as usize } else { far };
                for _ in 0..far {
                    let kw = *self.r.pick(&["IFCCARTESIANPOINT@3", "IFCDIRECTION@3", "IFCSIUNIT", "IFCMATERIAL", "IFCORGANIZATION"]);
                    if ent(kw).is_some() {
                        self.make(kw, 6);
                    }
                }
                // and something that refers to others behind them
                for _ in 0..self.r.range(1, 4) {
                    let e = &sch()[self.r.below(sch().len())];
                    self.make(e.kw, 2);
                }
            }
            1 => {
                let mut at = vec![];
                for (i, x) in self.recs.iter().enumerate().filter(|(_, x)| !x.kw.is_empty()) {
                    for (k, f) in ent(&x.kw).unwrap().attrs.iter().enumerate() {
                        if matches!(f, F::Str | F::OStr) {
                            at.push((i, k));
                        }
                    }
                }
                if !at.is_empty() {
                    let (i, k) = *self.r.pick(&at);
                    let n = far * if self.r.chance(30) { 30 } else { 3 };
                    let mut t = String::new();
                    while t.len() < n {
                        t += &file_text(self.r);
                        t.push('x');
                    }
                    self.recs[i].args[k] = Node::Str(t);
                }
            }
            _ => {
                let mut at = vec![];
                for (i, x) in self.recs.iter().enumerate().filter(|(_, x)| !x.kw.is_empty()) {
                    for k in 0..x.args.len() {
                        if matches!(&x.args[k], Node::List(v) if !v.is_empty()) {
                            at.push((i, k));
                        }
                    }
                }
                if at.is_empty() {
                    return;
                }
                let (i, k) = *self.r.pick(&at);
                let f = &ent(&self.recs[i].kw).unwrap().attrs[k];
                let pool: Vec<Node> = match (target_classes(f), f) {
                    (Some((c, _, true)), _) if c != PT => {
                        let cl = classes(c);
                        let own = self.recs[i].id;
                        let ok = |x: &&RecPlan| x.id < own && if x.kw.is_empty() { cl.is_empty() } else { cl.is_empty() || cl.contains(&x.kw.as_str()) };
                        self.recs.iter().filter(ok).map(|x| Node::Ref(x.id)).collect()
                    }
                    (Some((_, _, true)), _) | (None, F::LOStr | F::LOInt | F::LV2 | F::LV3) => vec![],
                    _ => return,
                };
                let Node::List(v) = self.recs[i].args[k].clone() else { return };
                let pool = if pool.is_empty() { v.clone() } else { pool };
                let mut v = v;
                while v.len() < far {
                    v.push(self.r.pick(&pool).clone());
                }
                self.recs[i].args[k] = Node::List(v);
            }
        }
    }
    /// an object of one of the kinds, mostly one that is there
    fn some(&mut self, kws: &[&str]) -> Node {
        let have: Vec<u64> = self.recs.iter().filter(|x| kws.contains(&x.kw.as_str())).map(|x| x.id).collect();
        if have.is_empty() || self.r.chance(10) {
            let kw = *self.r.pick(kws);
            return Node::Ref(self.make(kw, 4));
        }
        Node::Ref(*self.r.pick(&have))
    }
    fn several(&mut self, kws: &[&str]) -> Node {
        let n = 1 + self.r.below(4);
        Node::List((0..n).map(|_| self.some(kws)).collect())
    }
    /// a relation between objects, mostly ones that are there
    fn link(&mut self) {
        const ELEMENTS: [&str; 6] = ["IFCWALL", "IFCSLAB", "IFCROOF", "IFCWINDOW", "IFCDOOR", "IFCSHADINGDEVICE"];
        const TYPED: [(&str, &str); 5] = [
            ("IFCWALL", "IFCWALLTYPE"),
            ("IFCSLAB", "IFCSLABTYPE"),
            ("IFCROOF", "IFCROOFTYPE"),
            ("IFCWINDOW", "IFCWINDOWTYPE"),
            ("IFCDOOR", "IFCDOORTYPE"),
        ];
        let (kw, a, b) = match self.r.below(8) {
            0 | 1 => {
                let (o, t) = *self.r.pick(&TYPED);
                ("IFCRELDEFINESBYTYPE", self.several(&[o]), self.some(&[t]))
            }
            2 | 3 => {
                let m = *self.r.pick(&["IFCMATERIALLAYERSETUSAGE", "IFCMATERIALCONSTITUENTSET", "IFCMATERIAL"]);
                ("IFCRELASSOCIATESMATERIAL", self.several(&ELEMENTS), self.some(&[m]))
            }
            4 => {
                let s = ["IFCBUILDINGSTOREY", "IFCSPACE", "IFCSITE"];
                ("IFCRELCONTAINEDINSPATIALSTRUCTURE", self.several(&ELEMENTS), self.some(&s))
            }
            5 | 6 => {
                const TREE: [&str; 5] = ["IFCPROJECT", "IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY", "IFCSPACE"];
                let i = self.r.below(4);
                ("IFCRELAGGREGATES", self.some(&[TREE[i]]), self.several(&TREE[i + 1..=i + 1]))
            }
            _ => ("IFCRELVOIDSELEMENT", self.some(&ELEMENTS), self.some(&["IFCOPENINGELEMENT"])),
        };
        // sets with something in them
        if self.r.chance(60) {
            for x in [&a, &b] {
                let Node::Ref(i) = x else { continue };
                let find = |v: &Vec<RecPlan>, i: u64| v.iter().position(|x| x.id == i).unwrap();
                let at = find(&self.recs, *i);
                match self.recs[at].kw.as_str() {
                    "IFCMATERIALLAYERSETUSAGE" => {
                        let s = self.some(&["IFCMATERIALLAYERSET"]);
                        let l = self.several(&["IFCMATERIALLAYER"]);
                        let Node::Ref(set) = s else { continue };
                        let set = find(&self.recs, set);
                        self.recs[set].args[0] = l;
                        self.recs[at].args[0] = s;
                    }
                    "IFCMATERIALCONSTITUENTSET" => {
                        self.recs[at].args[2] = self.several(&["IFCMATERIALCONSTITUENT"]);
                    }
                    _ => {}
                }
            }
        }
        let id = self.make(kw, 5);
        let rec = self.recs.iter_mut().find(|x| x.id == id).unwrap();
        rec.args[4] = a;
        rec.args[5] = b;
    }
    pub fn make_foreign(&mut self) -> u64 {
        let r = &mut *self.r;
        let mut kw = r
            .pick(&["IFCCOLOURRGB", "IFCBEAM", "IFCSTYLEDITEM", "IFCFACETEDBREP", "IFCWALLELEMENTEDCASE", "IFCSPACEHEATERTYPE", "IFCPROPERTYENUMERATEDVALUE"])
            .to_string();
        if r.chance(25) {
            // named like a modelled one
            let like = sch()[r.below(sch().len())].kw;
            let like = format!("{}{}", written(like), *r.pick(&["TYPE", "X", "_2", "STANDARDCASE", "STYLE", "2D", "WITHVOIDS"]));
            if !sch().iter().any(|e| written(e.kw) == like || e.alias == Some(&like)) {
                kw = like;
            }
        }
        let mut s = format!("{kw}(");
        for i in 0..r.range(1, 6) {
            if i > 0 {
                s.push_str(*r.pick(&[",", ", ", " ,"]));
            }
            match r.below(10) {
                8 => s.push_str(*r.pick(&[
                    "((1.,2.),(3.,4.E-5),())", "\"0FF\"", "IFCTEXT('a')", ".T.", "(IFCREAL(1.),IFCLABEL('\\X\\E4'))", "'\\S\\d'",
                    "-0", "1.E+10", "''", "''''", "';'", "(('a;','b'),(#1,$,*))", "'#7=IFCWALL();'", "\n  7", "'(' ", "')'",
                ])),
                0 => s.push('$'),
                1 => s.push('*'),
                2 => s.push_str(&format!("'{}'", text(r, true).replace('\'', "''"))),
                3 => s.push_str(&format!("#{}", r.range(1, 200))),
                4 => s.push_str(".NOTDEFINED."),
                5 => s.push_str(&format!("({},(#{}))", real_text(r, 0.5), r.range(1, 50))),
                6 => s.push_str(*r.pick(&["/* a; comment with 'quote */1.", "'a;b'", "'it''s;'", "IFCLABEL('x;y')", "()", "'/*'", "'*/'"])),
                7 => {
                    let v = real(r);
                    s.push_str(&real_text(r, v));
                }
                _ => s.push_str(&format!("'{}'", guid(r))),
            }
        }
        s.push(')');
        let id = self.id();
        self.recs.push(RecPlan {
            id,
            kw: String::new(),
            alias: false,
            args: vec![],
            raw: s,
        });
        id
    }
}

fn time(r: &mut Rng) -> Node {
    let t = Node::Num(
        match r.below(4) {
            0 => 0,
            1 => r.range(-2_000_000_000, 0),
            2 => r.range(0, 253402300799),
            _ => r.range(1_000_000_000, 2_000_000_000),
        }
        .to_string(),
    );
    match t {
        Node::Num(s) => Node::Num(zeros(r, s)),
        t => t,
    }
}

pub fn value(r: &mut Rng) -> Node {
    match r.below(5) {
        0 => Node::Typed("IFCREAL".into(), vec![num(r)]),
        1 => Node::Typed("IFCLABEL".into(), vec![Node::Str(file_text(r))]),
        2 => Node::Typed("IFCBOOLEAN".into(), vec![Node::Enum((*r.pick(&["T", "F", "U"])).into())]),
        3 => Node::Typed("IFCIDENTIFIER".into(), vec![Node::Str(file_text(r))]),
        _ => Node::Typed("IFCTHERMALTRANSMITTANCEMEASURE".into(), vec![num(r)]),
    }
}

fn ident(r: &mut Rng) -> String {
    let c = b"abcXYZ019_-.:";
    (0..r.range(1, 10)).map(|_| c[r.below(c.len())] as char).collect()
}

pub fn head(r: &mut Rng) -> HeadPlan {
    let item = |r: &mut Rng| {
        let s = text(r, false).replace([',', ']'], "");
        s.trim().to_string()
    };
    HeadPlan {
        views: (0..r.below(3))
            .map(|_| {
                (
                    ident(r),
                    (0..r.below(4)).map(|_| item(r)).filter(|s| !s.is_empty()).collect(),
                )
            })
            .collect(),
        name: if r.chance(85) { Some(text(r, true)) } else { None },
        time: match r.below(4) {
            0 => 0,
            1 => r.range(0, 253402300799),
            _ => r.range(0, 2_000_000_000),
        },
        zulu: r.chance(40),
        offset: if r.chance(15) { r.range(-56, 56) as i16 * 15 } else { 0 },
        frac: if r.chance(8) {
            (0..r.range(1, 9)).map(|_| (b'0' + r.below(10) as u8) as char).collect()
        } else {
            String::new()
        },
        lists: if r.chance(15) { r.below(6) as u8 } else { 0 },
        authors: (0..r.below(3)).map(|_| text(r, true)).collect(),
        orgs: (0..r.below(3)).map(|_| text(r, true)).collect(),
        prep: text(r, true),
        sys: text(r, true),
        auth: text(r, true),
        schemas: (0..1 + r.below(2)).map(|_| r.below(SCHEMAS.len()) as u8).collect(),
    }
}

/// a document with at least the given kinds of records
pub fn doc(r: &mut Rng, kinds: &[&str], foreign: bool) -> DocPlan {
    linked(r, kinds, foreign, 0)
}

/// ... and relations between the objects that are there
pub fn linked(r: &mut Rng, kinds: &[&str], foreign: bool, links: usize) -> DocPlan {
    let h = head(r);
    let mut g = Gen::new(r, foreign);
    for k in kinds {
        if k.is_empty() {
            g.make_foreign();
        } else {
            g.make(k, 0);
        }
        if foreign && g.r.chance(20) {
            g.make_foreign();
        }
    }
    for _ in 0..links {
        g.link();
    }
    if g.r.chance(4) {
        g.stretch();
    }
    let mut recs = std::mem::take(&mut g.recs);
    if r.chance(50) {
        r.shuffle(&mut recs);
    }
    let mut d = DocPlan {
        head: h,
        recs,
        style: if foreign { r.below(3) as u8 } else { 0 },
        style_seed: r.range(0, 1 << 40),
    };
    d.sanitize();
    d
}

/// kinds in rotation (every kind comes up) plus random ones
pub fn kinds(r: &mut Rng, idx: u64, n: usize) -> Vec<&'static str> {
    let s = sch();
    let mut v = vec![s[(idx as usize * 7 + (idx as usize / s.len())) % s.len()].kw];
    for _ in 1..n {
        v.push(s[r.below(s.len())].kw);
    }
    v
}

// ------------------------------------------------------------------------------ validity

fn default(f: &F) -> Option<Node> {
    Some(match f {
        F::Guid => Node::Str("0000000000000000000000".into()),
        F::Str => Node::Str(String::new()),
        F::Real | F::Int | F::Exp | F::Time => Node::Num("0".into()),
        F::Bool => Node::Enum("F".into()),
        F::Enum(l) => Node::Enum(names(l)[0].into()),
        F::SEnum(l) => Node::Str(names(l)[0].into()),
        F::Ref(_) => return None,
        F::LRef(_) | F::LV2 | F::LV3 => Node::List(vec![]),
        F::V2 => Node::List(vec![Node::Num("0.".into()); 2]),
        F::V3 => Node::List(vec![Node::Num("0.".into()); 3]),
        F::Dim => Node::Num("3".into()),
        F::Value => Node::Typed("IFCREAL".into(), vec![Node::Num("0.".into())]),
        F::Measure => Node::Typed("IFCPLANEANGLEMEASURE".into(), vec![Node::Num("0.".into())]),
        _ => Node::Null,
    })
}

fn ok_text(s: &str) -> bool {
    if s.contains('\'') || s.contains('\r') {
        return false;
    }
    // only well-formed escapes
    crate::step::escaped(s)
}
fn ok_real(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && s.parse::<f64>().is_ok_and(|v| v.is_finite())
        && b.iter().all(|c| matches!(c, b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E'))
        && b.iter().any(|c| c.is_ascii_digit())
        && b[0] != b'.'
        && b[0] != b'+'
        && !s.starts_with("-.")
}
fn ok_int(s: &str, lo: i64, hi: i64) -> bool {
    s.parse::<i64>().is_ok_and(|v| v >= lo && v <= hi)
}
fn is_real(n: &Node) -> bool {
    matches!(n, Node::Num(s) if ok_real(s))
}
fn is_vec(n: &Node, k: usize) -> bool {
    matches!(n, Node::List(v) if v.len() == k && v.iter().all(is_real))
}

/// non-reference attributes: is this a legal value?
fn legal(f: &F, n: &Node) -> bool {
    use Node::{Enum, List, Null, Num, Star, Str, Typed};
    let optional = matches!(
        f,
        F::OStr | F::OReal | F::OInt | F::OBool | F::OTime | F::OEnum(_) | F::OSEnum(_) | F::LOStr | F::LOInt | F::ODim
    );
    match (f, n) {
        (_, Null | Star) => optional,
        (F::Guid, Str(s)) => valid_guid(s),
        (F::Str | F::OStr, Str(s)) => ok_text(s),
        (F::Real | F::OReal, x) => is_real(x),
        (F::Int | F::OInt, Num(s)) => ok_int(s, i64::MIN, i64::MAX),
        (F::Exp, Num(s)) => ok_int(s, -1000, 1000),
        (F::Time | F::OTime, Num(s)) => ok_int(s, -8_000_000_000_000, 8_000_000_000_000),
        (F::Bool | F::OBool, Enum(e)) => ["T", "F", "U", "TRUE", "FALSE", "UNKNOWN"].contains(&e.as_str()),
        (F::Enum(l) | F::OEnum(l), Enum(e)) => names(l).contains(&e.as_str()),
        (F::SEnum(l) | F::OSEnum(l), Str(e)) => names(l).contains(&e.as_str()),
        (F::LOStr, List(v)) => v.iter().all(|x| matches!(x, Str(s) if ok_text(s))),
        (F::LOInt, List(v)) => v.iter().all(|x| matches!(x, Num(s) if ok_int(s, i64::MIN, i64::MAX))),
        (F::V2, x) => is_vec(x, 2),
        (F::V3, x) => is_vec(x, 3),
        (F::LV2, List(v)) => v.iter().all(|x| is_vec(x, 2)),
        (F::LV3, List(v)) => v.iter().all(|x| is_vec(x, 3)),
        (F::Dim | F::ODim, Num(s)) => ["1", "2", "3"].contains(&s.as_str()),
        (F::Value, Typed(k, v)) if v.len() == 1 => match k.as_str() {
            "IFCREAL" | "IFCTHERMALTRANSMITTANCEMEASURE" => is_real(&v[0]),
            "IFCLABEL" | "IFCIDENTIFIER" => legal(&F::Str, &v[0]),
            "IFCBOOLEAN" => legal(&F::Bool, &v[0]),
            _ => false,
        },
        (F::Measure, Typed(k, v)) => k == "IFCPLANEANGLEMEASURE" && v.len() == 1 && is_real(&v[0]),
        _ => false,
    }
}

/// raw text of an unmodelled record which does not look like a modelled one
pub fn ok_raw(raw: &str) -> bool {
    match parse_node(raw) {
        Ok(Node::Typed(k, _)) => {
            raw.starts_with(k.as_str())
                && raw[k.len()..].starts_with('(')
                && raw.ends_with(')')
                && k.starts_with("IFC")
                && !sch().iter().any(|e| written(e.kw) == k || e.alias == Some(&k))
        }
        _ => false,
    }
}

pub const MAX_ID: u64 = 1 << 50;

impl HeadPlan {
    pub fn sanitize(&mut self) {
        for (n, items) in &mut self.views {
            n.retain(|c| c.is_alphanumeric() || "_-.:".contains(c));
            for i in items.iter_mut() {
                i.retain(|c| !",]'\\".contains(c));
                *i = i.trim().to_string();
            }
            items.retain(|i| !i.is_empty());
        }
        self.time = self.time.clamp(0, 253402300799);
        self.frac.retain(|c| c.is_ascii_digit());
        self.frac.truncate(9);
        for s in self.schemas.iter_mut() {
            *s %= SCHEMAS.len() as u8;
        }
        if self.schemas.is_empty() {
            self.schemas.push(0);
        }
    }
    pub fn render(&self) -> String {
        let e = |s: &String| format!("'{}'", s.replace('\'', "''"));
        let l = |v: &Vec<String>| format!("({})", v.iter().map(e).collect::<Vec<_>>().join(","));
        let views = if self.views.is_empty() {
            "''".to_string()
        } else {
            self.views
                .iter()
                .map(|(n, i)| {
                    let (open, sep, close) = match self.lists % 6 {
                        0 => ("[", ", ", "]"),
                        1 => ("[", ",", "]"),
                        2 => ("[, ", ",", "]"),
                        3 => ("[", ",, ", ",]"),
                        4 => ("[  ", "  ,\t", " ]"),
                        _ => ("[,,", " , , ", " , ]"),
                    };
                    format!("'{n} {open}{}{close}'", i.join(sep))
                })
                .collect::<Vec<_>>()
                .join(",")
        };
        // (years of four digits)
        let offset = self.offset.clamp(-23 * 60, 23 * 60);
        let offset = if (86400..253402300799 - 86400).contains(&self.time) { offset } else { 0 };
        format!(
            "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(({views}),'2;1');\nFILE_NAME({},'{}{}{}',{},{},{},{},{});\nFILE_SCHEMA(({}));\nENDSEC;\n",
            self.name.as_ref().map(e).unwrap_or("$".into()),
            iso(self.time + offset as i64 * 60),
            if self.frac.is_empty() { String::new() } else { format!(".{}", self.frac) },
            match (self.zulu, offset) {
                (_, 1..) => format!("+{:02}:{:02}", offset / 60, offset % 60),
                (_, ..=-1) => format!("-{:02}:{:02}", -offset / 60, -offset % 60),
                (true, _) => "Z".to_string(),
                _ => String::new(),
            },
            l(&self.authors),
            l(&self.orgs),
            e(&self.prep),
            e(&self.sys),
            e(&self.auth),
            self.schemas
                .iter()
                .map(|s| format!("'{}'", SCHEMAS[*s as usize].0))
                .collect::<Vec<_>>()
                .join(",")
        )
    }
    /// the header as the library should report it
    pub fn expected(&self) -> Vec<(String, Vec<Node>)> {
        let s = |t: &String| Node::Str(t.replace('\'', "''"));
        let l = |v: &Vec<String>| Node::List(v.iter().map(s).collect());
        vec![
            (
                "FILE_DESCRIPTION".into(),
                vec![
                    Node::List(if self.views.is_empty() {
                        vec![Node::Str(String::new())]
                    } else {
                        self.views
                            .iter()
                            .map(|(n, i)| Node::Str(format!("{n} [{}]", i.join(", "))))
                            .collect()
                    }),
                    Node::Str("2;1".into()),
                ],
            ),
            (
                "FILE_NAME".into(),
                vec![
                    s(self.name.as_ref().unwrap_or(&String::new())),
                    Node::Str(iso(self.time)),
                    l(&self.authors),
                    l(&self.orgs),
                    s(&self.prep),
                    s(&self.sys),
                    s(&self.auth),
                ],
            ),
            (
                "FILE_SCHEMA".into(),
                vec![Node::List(
                    self.schemas
                        .iter()
                        .map(|s| Node::Str(SCHEMAS[*s as usize].1.into()))
                        .collect(),
                )],
            ),
        ]
    }
}

impl DocPlan {
    pub fn sanitize(&mut self) {
        self.head.sanitize();
        let mut seen = BTreeSet::new();
        self.recs.retain_mut(|x| {
            if x.id >= MAX_ID || !seen.insert(x.id) {
                return false;
            }
            if x.kw.is_empty() {
                x.args.clear();
                x.alias = false;
                return ok_raw(&x.raw);
            }
            x.raw.clear();
            let Some(e) = ent(&x.kw) else { return false };
            x.alias &= e.alias.is_some();
            x.args.resize(e.attrs.len(), Node::Null);
            for (a, f) in x.args.iter_mut().zip(&e.attrs) {
                match target_classes(f) {
                    None => {
                        if !legal(f, a) {
                            *a = default(f).unwrap();
                        }
                    }
                    Some((_, required, list)) => match a {
                        Node::Null | Node::Star if !required => {}
                        Node::Ref(_) if !list => {}
                        Node::List(v) if list => v.retain(|n| matches!(n, Node::Ref(_))),
                        _ => *a = default(f).unwrap_or(Node::Null),
                    },
                }
            }
            true
        });
        // references, to a fix point
        loop {
            let kinds: BTreeMap<u64, String> = self.recs.iter().map(|x| (x.id, x.kw.clone())).collect();
            let fits = |i: u64, c: &str| match kinds.get(&i) {
                None => false,
                Some(k) => k.is_empty() || c.is_empty() || classes(c).contains(&k.as_str()),
            };
            let n = self.recs.len();
            self.recs.retain_mut(|x| {
                let Some(e) = ent(&x.kw) else { return true };
                for (a, f) in x.args.iter_mut().zip(&e.attrs) {
                    if let Some((c, required, list)) = target_classes(f) {
                        if list {
                            if let Node::List(v) = a {
                                v.retain(|n| matches!(n, Node::Ref(i) if fits(*i, c)));
                            }
                        } else {
                            let good = match a {
                                Node::Ref(i) => fits(*i, c),
                                Node::Null | Node::Star => !required,
                                _ => false,
                            };
                            if !good {
                                if required {
                                    return false;
                                }
                                *a = Node::Null;
                            }
                        }
                    }
                }
                true
            });
            if self.recs.len() == n {
                return;
            }
        }
    }

    pub fn render(&self) -> String {
        let mut r = Rng::new(self.style_seed as u64);
        let st = self.style;
        let mut gap = |r: &mut Rng| -> &'static str {
            match st {
                0 => "",
                1 => *r.pick(&["", "", " ", "\n", "\t", "  ", "\r\n"]),
                _ => *r.pick(&["", "", " ", "\n", "/* c */", " /* it's; #1= */ ", "/**/", "/* a * b / c **/", "/* see /src/*.ifc */", "/*/ */", "/****/", "/***/",
                    "/*\n#1=IFCWALL($);\r\n*/", "/* ENDSEC; END-ISO-10303-21; */", "/* ä // */", "/* a */ /* b */"]),
            }
        };
        let mut s = self.head.render();
        s.push_str("DATA;\n");
        for x in &self.recs {
            s.push_str(gap(&mut r));
            let pad = |r: &mut Rng| if st > 0 && r.chance(3) { 1 + r.below(3) } else { 0 };
            s.push_str(&format!("#{}{}", "0".repeat(pad(&mut r)), x.id));
            s.push_str(gap(&mut r));
            s.push('=');
            s.push_str(if st == 0 { " " } else { gap(&mut r) });
            if x.kw.is_empty() {
                s.push_str(&x.raw);
            } else {
                let e = ent(&x.kw).unwrap();
                s.push_str(if x.alias { e.alias.unwrap() } else { written(e.kw) });
                s.push('(');
                for (i, a) in x.args.iter().enumerate() {
                    if i > 0 {
                        if e.ws {
                            s.push_str(gap(&mut r));
                        }
                        s.push(',');
                        if e.ws {
                            s.push_str(gap(&mut r));
                        }
                    }
                    s.push_str(&match a {
                        Node::Ref(i) => format!("#{}{i}", "0".repeat(pad(&mut r))),
                        a => crate::step::show(a),
                    });
                }
                s.push(')');
            }
            s.push(';');
            s.push_str(gap(&mut r));
            s.push('\n');
        }
        s.push_str("ENDSEC;\nEND-ISO-10303-21;\n");
        if st > 0 {
            s.push_str(gap(&mut r));
        }
        s
    }

    /// all reference positions: (record index, attribute index, index in list or None, target)
    pub fn ref_positions(&self) -> Vec<(usize, usize, Option<usize>, u64)> {
        let mut v = vec![];
        for (i, x) in self.recs.iter().enumerate() {
            for (j, a) in x.args.iter().enumerate() {
                match a {
                    Node::Ref(t) => v.push((i, j, None, *t)),
                    Node::List(l) => {
                        for (k, n) in l.iter().enumerate() {
                            if let Node::Ref(t) = n {
                                v.push((i, j, Some(k), *t));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        v
    }

    pub fn referenced(&self) -> BTreeSet<u64> {
        let mut v = vec![];
        for x in &self.recs {
            for a in &x.args {
                refs(a, &mut v);
            }
        }
        v.into_iter().collect()
    }
}

/// what the library makes of an attribute on purpose (see DESIGN.md): the spelling of booleans is
/// equal by value already
pub fn expected_kw(x: &RecPlan) -> &str {
    written(&x.kw)
}
