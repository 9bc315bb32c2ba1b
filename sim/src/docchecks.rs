//! The checks over documents: C03, C04, C05, C12, C16.

use crate::docgen::{self, DocPlan};
use crate::edits::{self, Edit};
use crate::fw::*;
use crate::rng::Rng;
use crate::schema::target_classes;
use crate::seam::{self, Call, FaultKind, IoFault};
use crate::snap::*;
use crate::step::Node;
use ifc_rs::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::str::FromStr;

pub const PATH: &str = "/simdisk/model.ifc";

pub fn load() -> Result<IFC, String> {
    IFC::from_file(PATH).map_err(|e| format!("{e:#}"))
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Save {
    /// fs::write of the rendered text
    Whole,
    /// the model formatted straight into the file
    Stream,
    /// through a BufWriter
    Buffered,
    /// temporary file, sync, rename
    Atomic,
}

pub fn gen_save(r: &mut Rng) -> Save {
    *r.pick(&[Save::Whole, Save::Stream, Save::Buffered, Save::Atomic])
}

/// inside of a simulated process
pub fn save(ifc: &IFC, how: Save) -> std::io::Result<()> {
    use std::io::Write;
    match how {
        Save::Whole => std::fs::write(PATH, ifc.to_string()),
        Save::Stream => {
            let mut f = std::fs::File::create(PATH)?;
            write!(f, "{ifc}")?;
            f.flush()
        }
        Save::Buffered => {
            let f = std::fs::File::create(PATH)?;
            let mut b = std::io::BufWriter::with_capacity(256, f);
            write!(b, "{ifc}")?;
            b.flush()
        }
        Save::Atomic => {
            let t = "/simdisk/model.tmp";
            let mut f = std::fs::File::create(t)?;
            write!(f, "{ifc}")?;
            f.sync_all()?;
            drop(f);
            std::fs::rename(t, PATH)
        }
    }
}

/// faults the platform hides from the library: retried interrupts, short transfers, wrong sizes
pub fn gen_benign(r: &mut Rng, write: bool) -> Vec<IoFault> {
    let mut v = vec![];
    for _ in 0..r.below(4) {
        v.push(IoFault {
            call: if write { Call::Write } else { *r.pick(&[Call::Read, Call::Read, Call::Stat]) },
            nth: r.below(6) as u64,
            kind: if r.chance(50) {
                FaultKind::Errno(seam::EINTR)
            } else {
                FaultKind::Short(r.range(1, 400) as usize)
            },
        });
    }
    for f in &mut v {
        if f.call == Call::Stat {
            f.kind = FaultKind::FakeSize(*r.pick(&[0, 1, 17, 4096, 1 << 20]));
        }
    }
    v
}

pub fn benign(f: &[IoFault]) -> Vec<IoFault> {
    f.iter()
        .filter(|f| match (f.call, f.kind) {
            (Call::Read | Call::Write, FaultKind::Errno(e)) => e == seam::EINTR,
            (Call::Read | Call::Write, FaultKind::Short(_)) => true,
            (Call::Stat, FaultKind::FakeSize(s)) => s < 1 << 26,
            _ => false,
        })
        .cloned()
        .collect()
}

// ------------------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cycle {
    pub edits: Vec<Edit>,
    pub save: Save,
    pub wfaults: Vec<IoFault>,
    pub rfaults: Vec<IoFault>,
}

pub fn gen_cycle(r: &mut Rng) -> Cycle {
    Cycle {
        edits: (0..r.below(4)).map(|_| edits::gen(r)).collect(),
        save: gen_save(r),
        wfaults: gen_benign(r, true),
        rfaults: gen_benign(r, false),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C12Plan {
    pub seed: i64,
    pub doc: DocPlan,
    pub cycles: Vec<Cycle>,
}

fn c12_gen(r: &mut Rng, idx: u64) -> Value {
    let n = 1 + r.below(10);
    let k = docgen::kinds(r, idx, n);
    plan(&C12Plan {
        seed: r.range(0, 1 << 50),
        doc: docgen::doc(r, &k, true),
        cycles: (0..r.below(4)).map(|_| gen_cycle(r)).collect(),
    })
}

/// process deaths and refused loads both count against a document that is in order
pub fn loaded<T>(r: Result<T, String>, what: &str) -> Result<T, Viol> {
    match r {
        Ok(t) => Ok(t),
        Err(e) => viol("rejected", format!("{what}: {e}")),
    }
}

fn c12_exec(v: &Value) -> Result<Outcome, String> {
    let p: C12Plan = unplan(v)?;
    let mut d = p.doc;
    d.sanitize();
    let mut s = Sim::new(p.seed as u64);
    s.put("model.ifc", d.render());
    let mut want = expect_of(&d);
    let mut head = d.head.expected();
    s.out.trivial = d.recs.is_empty();
    let n = d.recs.len() as u64;
    s.note("records", n);
    s.note("unmodelled records", d.recs.iter().filter(|r| r.kw.is_empty()).count() as u64);
    let r = (|| {
        for (i, c) in p.cycles.iter().enumerate() {
            let rf = benign(&c.rfaults);
            let what = format!("load {i}");
            let before = want.clone();
            let bh = head.clone();
            let dos = edits::plan(&c.edits, &mut want, &mut head);
            let new = edits::new_ids(&dos);
            let mut f = rf;
            f.extend(benign(&c.wfaults));
            let (a, ids, b, saved) = s.must(&format!("load {i}, edit, save"), &f, || -> (Result<Snap, String>, Vec<u64>, Option<Snap>, Option<String>) {
                let mut ifc = match load() {
                    Ok(i) => i,
                    Err(e) => return (Err(e), vec![], None, None),
                };
                let a = snap(&ifc);
                let ids = edits::apply(&mut ifc, &dos);
                let b = snap(&ifc);
                let e = save(&ifc, c.save).err().map(|e| e.to_string());
                (Ok(a), ids, Some(b), e)
            })?;
            let a = loaded(a, &what)?;
            agrees(&before, &a, &what)?;
            head_agrees(&bh, &a.text, &what)?;
            if ids != new {
                return viol("id", format!("inserted objects got the ids {ids:?} instead of {new:?}"));
            }
            agrees(&want, &b.unwrap(), &format!("after edits {dos:?} in process {i}"))?;
            if let Some(e) = saved {
                return viol("save", format!("save {i} failed: {e}"));
            }
            s.ctx.disk.sync_all();
            s.note("edits", dos.iter().filter(|d| **d != edits::Do::Skip).count() as u64);
            s.note("load-edit-save cycles", 1);
        }
        let a = s.must("last load", &[], || load().map(|i| snap(&i)))?;
        let a = loaded(a, "last load")?;
        agrees(&want, &a, "last load")?;
        head_agrees(&head, &a.text, "last load")
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Loss {
    /// a reference (index modulo all of them) points to an id which is not there
    Missing { at: u32, id: u64 },
    /// a reference points to an object of a kind that is not allowed there
    Wrong { at: u32, target: u32 },
    /// a record that is referred to is lost
    Lost { at: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C16Plan {
    pub seed: i64,
    pub doc: DocPlan,
    pub losses: Vec<Loss>,
}

fn c16_gen(r: &mut Rng, idx: u64) -> Value {
    let n = 1 + r.below(6);
    let k = docgen::kinds(r, idx, n);
    let foreign = r.chance(40);
    let mut doc = docgen::doc(r, &k, foreign);
    doc.style = 0;
    plan(&C16Plan {
        seed: r.range(0, 1 << 50),
        doc,
        losses: (0..4)
            .map(|_| match r.below(4) {
                0 => Loss::Missing {
                    at: r.below(10000) as u32,
                    id: if r.chance(50) { r.range(0, 1000) as u64 } else { r.u64() >> 14 },
                },
                1 => Loss::Lost { at: r.below(10000) as u32 },
                _ => Loss::Wrong {
                    at: r.below(10000) as u32,
                    target: r.below(10000) as u32,
                },
            })
            .collect(),
    })
}

/// the document with a broken reference, and what is broken
fn break_ref(d: &DocPlan, l: &Loss) -> Option<(DocPlan, String)> {
    let mut pos = d.ref_positions();
    if pos.is_empty() {
        return None;
    }
    // in long lists, mostly the far end
    if let Some(&(i, k, Some(last), _)) = pos.iter().filter(|p| p.2 > Some(8)).max_by_key(|p| p.2) {
        let at = match l {
            Loss::Missing { at, .. } | Loss::Wrong { at, .. } | Loss::Lost { at } => *at,
        };
        if at / 100 % 2 == 0 {
            pos.retain(|p| p.0 == i && p.1 == k && p.2 >= Some(last - last / 3));
        }
    }
    let mut x = d.clone();
    let set = |x: &mut DocPlan, p: &(usize, usize, Option<usize>, u64), to: u64| {
        let a = &mut x.recs[p.0].args[p.1];
        match p.2 {
            None => *a = Node::Ref(to),
            Some(k) => {
                if let Node::List(v) = a {
                    v[k] = Node::Ref(to);
                }
            }
        }
    };
    match l {
        Loss::Missing { at, id } => {
            let p = &pos[*at as usize % pos.len()];
            if d.recs.iter().any(|r| r.id == *id) {
                return None;
            }
            set(&mut x, p, *id);
            let r = &d.recs[p.0];
            Some((x, format!("attribute {} of #{} {} refers to the missing #{id}", p.1, r.id, r.kw)))
        }
        Loss::Wrong { at, target } => {
            // only references which are restricted
            let pos: Vec<_> = pos
                .into_iter()
                .filter(|p| {
                    let e = docgen::ent(&d.recs[p.0].kw).unwrap();
                    !target_classes(&e.attrs[p.1]).unwrap().0.is_empty()
                })
                .collect();
            if pos.is_empty() {
                return None;
            }
            let p = &pos[*at as usize % pos.len()];
            let r = &d.recs[p.0];
            let c = target_classes(&docgen::ent(&r.kw).unwrap().attrs[p.1]).unwrap().0;
            let bad: Vec<_> = d
                .recs
                .iter()
                .filter(|t| !t.kw.is_empty() && !docgen::classes(c).contains(&t.kw.as_str()))
                .collect();
            if bad.is_empty() {
                return None;
            }
            let t = bad[*target as usize % bad.len()];
            set(&mut x, p, t.id);
            Some((x, format!("attribute {} of #{} {} refers to #{}, a {}", p.1, r.id, r.kw, t.id, t.kw)))
        }
        Loss::Lost { at } => {
            let p = pos[*at as usize % pos.len()];
            // not the only referring record itself
            x.recs.retain(|r| r.id != p.3);
            if x.recs.iter().any(|r| {
                let mut v = vec![];
                r.args.iter().for_each(|a| crate::step::refs(a, &mut v));
                v.contains(&p.3)
            }) {
                Some((x, format!("record #{} which is referred to is lost", p.3)))
            } else {
                None
            }
        }
    }
}

fn c16_exec(v: &Value) -> Result<Outcome, String> {
    let p: C16Plan = unplan(v)?;
    let mut d = p.doc;
    d.sanitize();
    let mut s = Sim::new(p.seed as u64);
    s.put("model.ifc", d.render());
    let r = (|| {
        let a = s.must("load of the intact document", &[], || load().map(|i| snap(&i)))?;
        let a = loaded(a, "a document whose references are in order")?;
        agrees(&expect_of(&d), &a, "intact document")?;
        s.out.trivial = true;
        for l in &p.losses {
            let Some((x, what)) = break_ref(&d, l) else { continue };
            s.out.trivial = false;
            s.fired(
                match l {
                    Loss::Missing { .. } => "misdirected reference: missing record",
                    Loss::Wrong { .. } => "misdirected reference: wrong kind",
                    Loss::Lost { .. } => "lost record",
                },
                1,
            );
            s.put("model.ifc", x.render());
            let a = s.must(&format!("load with {what}"), &[], || load().map(|i| i.to_string()).map_err(|_| ()))?;
            if a.is_ok() {
                return viol("accepted", format!("accepted although {what}"));
            }
        }
        Ok(())
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Flip { at: u32, bit: u8 },
    Set { at: u32, byte: u8 },
    Zero { at: u32, len: u32 },
    Remove { at: u32, len: u32 },
    Copy { from: u32, to: u32, len: u32 },
    Swap { a: u32, b: u32, len: u32 },
    Insert { at: u32, text: String },
    /// this 64-byte sector is of another version
    Stale { sector: u32 },
    Truncate { at: u32 },
    Repeat { at: u32, len: u32 },
    /// a field between separators is replaced
    Field { at: u32, text: String },
    /// a whole number has a bit too many (2^bit is added to it)
    Wrap { at: u32, bit: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C03Plan {
    pub seed: i64,
    pub doc: DocPlan,
    /// the earlier version stale sectors come from
    pub edits: Vec<Edit>,
    pub variants: Vec<Vec<Damage>>,
}

const SPLICES: [&str; 40] = [
    "'", "''", ";", "(", ")", ",", "#", "#0", "#99999999999999999999", "=", "$", "*", "/*", "*/", "\\X2\\", "\\X0\\",
    "\\X2\\0027\\X0\\", ".T.", "nan", "inf", "-", "1E999", "1e-400", "9223372036854775808", "-9223372036854775809",
    "99999999999999", "ENDSEC;", "DATA;", "ISO-10303-21;", "IFCWALL(", "\u{0}", "\u{feff}", "ä", "(((((((((((((((", "#1=#1;",
    "0000-00-00T00:00:00", "IFCREAL(", "253402300800", "\r\n", "&SCOPE",
];

fn gen_damage(r: &mut Rng) -> Damage {
    let at = r.below(1 << 20) as u32;
    let len = r.range(1, 60) as u32;
    match r.below(13) {
        12 => Damage::Wrap {
            at,
            bit: *r.pick(&[8, 16, 31, 32, 53, 63, 64, 64, 64, 65, 96, 127]),
        },
        0 | 1 => Damage::Flip { at, bit: r.below(8) as u8 },
        2 => Damage::Set {
            at,
            byte: *r.pick(b"';(),#=$*/\\. 0919E-\xff\x00ATZ"),
        },
        3 => Damage::Zero { at, len },
        4 => Damage::Remove { at, len: r.range(1, 12) as u32 },
        5 => Damage::Copy {
            from: r.below(1 << 20) as u32,
            to: at,
            len,
        },
        6 => Damage::Swap {
            a: r.below(1 << 20) as u32,
            b: at,
            len,
        },
        7 => Damage::Insert {
            at,
            text: (*r.pick(&SPLICES)).into(),
        },
        8 => Damage::Stale { sector: r.below(1 << 16) as u32 },
        9 => Damage::Truncate { at },
        10 => Damage::Repeat { at, len },
        _ => Damage::Field {
            at,
            text: (*r.pick(&SPLICES)).into(),
        },
    }
}

pub fn damage(new: &[u8], old: &[u8], ds: &[Damage]) -> Vec<u8> {
    let mut b = new.to_vec();
    for d in ds {
        let n = b.len();
        if n == 0 {
            return b;
        }
        let i = |x: u32| x as usize % n;
        match d {
            Damage::Flip { at, bit } => b[i(*at)] ^= 1 << (bit % 8),
            Damage::Set { at, byte } => b[i(*at)] = *byte,
            Damage::Zero { at, len } => {
                let a = i(*at);
                let e = (a + *len as usize).min(n);
                b[a..e].fill(0);
            }
            Damage::Remove { at, len } => {
                let a = i(*at);
                let e = (a + *len as usize).min(n);
                b.drain(a..e);
            }
            Damage::Copy { from, to, len } => {
                let (f, t) = (i(*from), i(*to));
                let l = (*len as usize).min(n - f).min(n - t);
                b.copy_within(f..f + l, t);
            }
            Damage::Swap { a, b: c, len } => {
                let (x, y) = (i(*a), i(*c));
                for k in 0..*len as usize {
                    if x + k < n && y + k < n {
                        b.swap(x + k, y + k);
                    }
                }
            }
            Damage::Insert { at, text } => {
                let a = i(*at);
                b.splice(a..a, text.bytes());
            }
            Damage::Stale { sector } => {
                let s = *sector as usize % n.div_ceil(64);
                for k in s * 64..((s + 1) * 64).min(n).min(old.len()) {
                    b[k] = old[k];
                }
            }
            Damage::Truncate { at } => b.truncate(i(*at)),
            Damage::Repeat { at, len } => {
                let a = i(*at);
                let e = (a + *len as usize).min(n);
                let c = b[a..e].to_vec();
                b.splice(a..a, c);
            }
            Damage::Field { at, text } => {
                let a = i(*at);
                let sep = |c: &u8| b",();=".contains(c);
                let s = b[..a].iter().rposition(sep).map(|k| k + 1).unwrap_or(0);
                let e = b[a..].iter().position(sep).map(|k| a + k).unwrap_or(n).max(s);
                b.splice(s..e, text.bytes());
            }
            Damage::Wrap { at, bit } => {
                let a = i(*at);
                let dig = |c: &u8| c.is_ascii_digit();
                let Some(k) = b[a..].iter().position(dig) else { continue };
                let mut s = a + k;
                while s > 0 && dig(&b[s - 1]) {
                    s -= 1;
                }
                let e = s + b[s..].iter().position(|c| !dig(c)).unwrap_or(n - s);
                let t = std::str::from_utf8(&b[s..e]).unwrap();
                let Ok(v) = t.parse::<u64>() else { continue };
                let v = v as u128 + (1u128 << bit % 128);
                b.splice(s..e, v.to_string().into_bytes());
            }
        }
    }
    b
}

fn c03_gen(r: &mut Rng, idx: u64) -> Value {
    let n = 1 + r.below(5);
    let k = docgen::kinds(r, idx, n);
    let doc = docgen::doc(r, &k, true);
    plan(&C03Plan {
        seed: r.range(0, 1 << 50),
        doc,
        edits: (0..1 + r.below(2)).map(|_| edits::gen(r)).collect(),
        variants: (0..8)
            .map(|_| {
                let n = if r.chance(70) { 1 } else { 1 + r.below(4) };
                (0..n).map(|_| gen_damage(r)).collect()
            })
            .collect(),
    })
}

#[derive(Serialize, Deserialize)]
struct Damaged {
    snap: Option<Snap>,
    /// rendering and loading again ended
    again: Option<bool>,
}

fn c03_exec(v: &Value) -> Result<Outcome, String> {
    let p: C03Plan = unplan(v)?;
    let mut d = p.doc;
    d.sanitize();
    let mut s = Sim::new(p.seed as u64);
    let new = d.render().into_bytes();
    let mut x = expect_of(&d);
    let mut h = d.head.expected();
    let mut old = d.clone();
    // an older version: edited and with the records in other places
    edits::plan(&p.edits, &mut x, &mut h);
    old.recs = old.recs.iter().rev().cloned().collect();
    let old = old.render().into_bytes();
    let r = (|| {
        for ds in &p.variants {
            let b = damage(&new, &old, ds);
            if b == new {
                continue;
            }
            for k in ds {
                let name = format!("{k:?}");
                s.fired(&format!("damage: {}", name.split([' ', '{']).next().unwrap()), 1);
            }
            s.put("model.ifc", &b);
            let what = format!("load after {ds:?}");
            let out = s.must(&what, &[], || match load() {
                Err(_) => Damaged { snap: None, again: None },
                Ok(ifc) => {
                    let sn = snap(&ifc);
                    let again = IFC::from_str(&sn.text).map(|i| i.to_string());
                    Damaged {
                        snap: Some(sn),
                        again: Some(again.is_ok()),
                    }
                }
            })?;
            match out.snap {
                None => s.note("rejected", 1),
                Some(sn) => {
                    s.note("accepted", 1);
                    let Ok(t) = std::str::from_utf8(&b) else {
                        return viol("misread", format!("{what}: text which is not UTF-8 was accepted"));
                    };
                    let (j, u) = says(t, &sn, &what)?;
                    s.note("records judged", j);
                    s.note("records not judged (not readable by the oracle)", u);
                }
            }
        }
        s.out.trivial = s.out.fired.is_empty();
        Ok(())
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C04Plan {
    pub seed: i64,
    pub doc: DocPlan,
    pub variants: Vec<Vec<IoFault>>,
    /// per variant: the process loads the file before (1: as it is, 2: another version of it)
    #[serde(default)]
    pub before: Vec<u8>,
    /// other versions of the model lie beside it, under the names editors and programs give them
    #[serde(default)]
    pub beside: bool,
}

fn gen_load_fault(r: &mut Rng) -> IoFault {
    use Call::*;
    let call = *r.pick(&[Open, Read, Read, Read, Read, Read, Stat, Seek]);
    let nth = match call {
        Open => 0,
        Read => r.below(5) as u64,
        _ => r.below(2) as u64,
    };
    let kind = match call {
        Open => FaultKind::Errno(*r.pick(&[seam::EIO, seam::ENOENT, seam::EACCES, seam::EMFILE, seam::ENOMEM, seam::EINTR])),
        Read => match r.below(6) {
            0 => FaultKind::Errno(seam::EINTR),
            1 => FaultKind::Short(r.range(1, 700) as usize),
            2 => FaultKind::TruncateTo(r.range(0, 3000) as usize),
            3 => FaultKind::Stuck(seam::EIO),
            _ => FaultKind::Errno(*r.pick(&[seam::EIO, seam::EISDIR, seam::EINVAL, seam::ENOMEM, seam::EBADF])),
        },
        Stat => {
            if r.chance(50) {
                FaultKind::FakeSize(*r.pick(&[0, 1, 100, 5000, 1 << 22]))
            } else {
                FaultKind::Errno(seam::EIO)
            }
        }
        _ => FaultKind::Errno(seam::EIO),
    };
    IoFault { call, nth, kind }
}

fn c04_gen(r: &mut Rng, idx: u64) -> Value {
    let n = 1 + r.below(8);
    let k = docgen::kinds(r, idx, n);
    plan(&C04Plan {
        seed: r.range(0, 1 << 50),
        doc: docgen::doc(r, &k, true),
        variants: (0..6)
            .map(|_| {
                let mut v: Vec<IoFault> = (0..1 + r.below(3)).map(|_| gen_load_fault(r)).collect();
                if r.chance(50) {
                    // break the load into many reads so that later faults are reached
                    for i in 0..r.range(1, 6) {
                        v.push(IoFault {
                            call: Call::Read,
                            nth: i as u64,
                            kind: FaultKind::Short(r.range(1, 500) as usize),
                        });
                    }
                }
                v
            })
            .collect(),
        before: (0..6).map(|_| *r.pick(&[0, 0, 1, 2])).collect(),
        beside: r.chance(20),
    })
}

fn c04_exec(v: &Value) -> Result<Outcome, String> {
    let p: C04Plan = unplan(v)?;
    let mut d = p.doc;
    d.sanitize();
    let mut s = Sim::new(p.seed as u64);
    let text = d.render();
    let want = expect_of(&d);
    let head = d.head.expected();
    if p.beside {
        let mut other = d.clone();
        other.recs.truncate(d.recs.len() / 2);
        other.sanitize();
        let other = other.render();
        for name in [
            "model.ifc~", "model.ifc.bak", "model.bak", "MODEL.IFC", "model.IFC", "Model.ifc", "model.ifc.tmp", "model.tmp",
            "model.ifc.old", "model.old", ".model.ifc", "model.ifc.1", "model", "model.ifc.backup", "model_backup.ifc", "model.ifc.orig",
        ] {
            s.put(name, &other);
        }
    }
    let r = (|| {
        for (k, fs) in p.variants.iter().enumerate() {
            let mut fs = fs.clone();
            for f in &mut fs {
                if let FaultKind::FakeSize(z) = &mut f.kind {
                    *z = (*z).min(1 << 26);
                }
            }
            s.put("model.ifc", &text);
            let before = s.out.fired.clone();
            let bytes = text.clone().into_bytes();
            let before_load = p.before.get(k).copied().unwrap_or(0);
            s.fired("the process has loaded the file before", (before_load > 0) as u64);
            let (a, b) = s.must(&format!("load with {fs:?}"), &[], || {
                match before_load {
                    0 => {}
                    1 => drop(load()),
                    _ => {
                        let mut other = d.clone();
                        other.recs.truncate(d.recs.len() / 2);
                        other.sanitize();
                        seam::repair("/simdisk/model.ifc", other.render().as_bytes());
                        drop(load());
                        seam::repair("/simdisk/model.ifc", &bytes);
                    }
                }
                seam::arm(&fs);
                let a = load().map(|i| snap(&i)).map_err(|_| ());
                // the fault is gone
                seam::repair("/simdisk/model.ifc", &bytes);
                let b = load().map(|i| snap(&i));
                (a, b)
            })?;
            let fired: Vec<String> = s
                .out
                .fired
                .iter()
                .filter(|(k, n)| before.get(*k) != Some(n))
                .map(|(k, _)| k.clone())
                .collect();
            let fatal = fired.iter().any(|k| {
                (k.starts_with("Open:") || k.starts_with("Read:"))
                    && !k.ends_with("EINTR")
                    && !k.ends_with(":short")
                    && !k.ends_with("truncated-underneath")
            });
            let soft = fired
                .iter()
                .any(|k| k.starts_with("Stat:E") || k.starts_with("Seek:") || k.contains("truncated"));
            if fatal && a.is_ok() {
                return viol("swallowed", format!("the load succeeded although it met {fired:?}"));
            }
            if !fatal && !soft && a.is_err() {
                return viol("refused", format!("the load failed although it only met {fired:?}"));
            }
            let what = format!("load under {fired:?}");
            if let Ok(a) = a {
                agrees(&want, &a, &what)?;
                head_agrees(&head, &a.text, &what)?;
                s.note("full models under faults", 1);
            } else {
                s.note("loads that failed", 1);
            }
            let b = loaded(b, "load after the fault was gone")?;
            agrees(&want, &b, "load after the fault was gone")?;
        }
        s.out.trivial = s.out.fired.is_empty();
        Ok(())
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sink {
    /// rejects the piece that would exceed the limit
    Whole { at: u32 },
    /// takes what fits of it
    Partial { at: u32 },
    /// rejects the n-th piece
    Nth { n: u32 },
    /// a file, with these faults
    File { save: Save, faults: Vec<IoFault> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Part {
    Model,
    Header,
    Data,
    Footer,
    Object { idx: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C05Plan {
    pub seed: i64,
    pub doc: DocPlan,
    pub variants: Vec<(Part, Sink)>,
}

fn c05_gen(r: &mut Rng, idx: u64) -> Value {
    let n = 1 + r.below(6);
    let k = docgen::kinds(r, idx, n);
    let foreign = r.chance(50);
    let mut variants = vec![];
    for _ in 0..10 {
        let part = match r.below(8) {
            0..=2 => Part::Model,
            3 => Part::Header,
            4 => Part::Data,
            5 => Part::Footer,
            _ => Part::Object { idx: r.below(1000) as u32 },
        };
        let at = match r.below(3) {
            0 => r.below(40),
            1 => r.below(400),
            _ => r.below(6000),
        } as u32;
        variants.push((
            part,
            match r.below(4) {
                0 => Sink::Whole { at },
                1 => Sink::Partial { at },
                _ => Sink::Nth {
                    n: if r.chance(50) { r.below(20) } else { r.below(400) } as u32,
                },
            },
        ));
    }
    for _ in 0..3 {
        let save = gen_save(r);
        let mut faults = gen_benign(r, true);
        if r.chance(70) {
            faults.push(IoFault {
                call: *r.pick(&[Call::Write, Call::Write, Call::Write, Call::Open, Call::Sync, Call::Rename]),
                nth: if r.chance(60) { 0 } else { r.below(30) as u64 },
                kind: match r.below(3) {
                    0 => FaultKind::Errno(*r.pick(&[seam::EIO, seam::ENOSPC])),
                    1 => FaultKind::Full(r.below(2000) as usize),
                    _ => FaultKind::Stuck(seam::EIO),
                },
            });
        }
        for f in &mut faults {
            if f.call != Call::Write && !matches!(f.kind, FaultKind::Errno(_)) {
                f.kind = FaultKind::Errno(seam::EIO);
            }
        }
        variants.push((Part::Model, Sink::File { save, faults }));
    }
    plan(&C05Plan {
        seed: r.range(0, 1 << 50),
        doc: docgen::doc(r, &k, foreign),
        variants,
    })
}

struct Fail {
    got: String,
    limit: usize,
    partial: bool,
    nth: usize,
    calls: usize,
    failed: bool,
    after: usize,
}

impl std::fmt::Write for Fail {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        if self.failed {
            self.after += 1;
            return Err(std::fmt::Error);
        }
        if self.calls > self.nth || self.got.len() + s.len() > self.limit {
            if self.partial {
                let mut k = (self.limit.saturating_sub(self.got.len())).min(s.len());
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                self.got.push_str(&s[..k]);
            }
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

#[derive(Serialize, Deserialize)]
struct Sunk {
    what: String,
    full: String,
    ok: bool,
    got: String,
    failed: bool,
    after: usize,
    full_again: String,
    file: bool,
    err: Option<String>,
}

fn c05_exec(v: &Value) -> Result<Outcome, String> {
    let p: C05Plan = unplan(v)?;
    let mut d = p.doc;
    d.sanitize();
    let mut s = Sim::new(p.seed as u64);
    s.put("model.ifc", d.render());
    let ids: Vec<u64> = d.recs.iter().map(|r| r.id).collect();
    let r = (|| {
        // all writer failures against one model in one process, except that files need their own
        let sinks: Vec<(Part, Sink)> = p
            .variants
            .iter()
            .filter(|(_, k)| !matches!(k, Sink::File { .. }))
            .cloned()
            .collect();
        let out = s.must("render into failing writers", &[], || {
            use std::fmt::Write;
            let ifc = match load() {
                Ok(i) => i,
                Err(e) => return Err(e),
            };
            let first = ifc.to_string();
            let mut v = vec![];
            for (part, sink) in &sinks {
                let mut w = Fail {
                    got: String::new(),
                    limit: usize::MAX,
                    partial: false,
                    nth: usize::MAX,
                    calls: 0,
                    failed: false,
                    after: 0,
                };
                match sink {
                    Sink::Whole { at } => w.limit = *at as usize,
                    Sink::Partial { at } => {
                        w.limit = *at as usize;
                        w.partial = true;
                    }
                    Sink::Nth { n } => w.nth = *n as usize,
                    _ => {}
                }
                let (r, full) = match part {
                    Part::Model => (write!(w, "{ifc}"), ifc.to_string()),
                    Part::Header => (write!(w, "{}", ifc.header), ifc.header.to_string()),
                    Part::Data => (write!(w, "{}", ifc.data), ifc.data.to_string()),
                    Part::Footer => (write!(w, "{}", ifc.footer), ifc.footer.to_string()),
                    Part::Object { idx } => {
                        if ids.is_empty() {
                            continue;
                        }
                        let o = ifc.data.get_untyped(Id(ids[*idx as usize % ids.len()] as usize));
                        (write!(w, "{o}"), o.to_string())
                    }
                };
                v.push(Sunk {
                    what: format!("{part:?} into {sink:?}"),
                    full,
                    ok: r.is_ok(),
                    got: w.got,
                    failed: w.failed,
                    after: w.after,
                    full_again: String::new(),
                    file: false,
                    err: None,
                });
            }
            let last = ifc.to_string();
            Ok((first, last, v))
        })?;
        let (first, last, out) = loaded(out, "load")?;
        if first != last {
            return viol("changed", "the model renders differently after failed renderings".to_string());
        }
        for o in &out {
            s.fired("writer rejects data", o.failed as u64);
            if o.failed && o.ok {
                return viol("swallowed", format!("{}: rendering reported success", o.what));
            }
            if !o.failed && !o.ok {
                return viol("refused", format!("{}: rendering failed without a writer failure", o.what));
            }
            if !o.full.starts_with(&o.got) || (!o.failed && o.got != o.full) {
                return viol(
                    "bytes",
                    format!("{}: the writer got {:?} instead of the beginning of {:?}", o.what, tail(&o.got), tail(&o.full)),
                );
            }
            if o.after > 0 {
                return viol("continued", format!("{}: {} more pieces were written after the failure", o.what, o.after));
            }
        }
        s.note("renderings into failing writers", out.len() as u64);
        for (_, k) in &p.variants {
            let Sink::File { save: how, faults } = k else { continue };
            s.put("model.ifc", d.render());
            let before = s.out.fired.clone();
            let r = s.must(&format!("save {how:?} with {faults:?}"), &[], || {
                let ifc = load()?;
                seam::arm(faults);
                let e = save(&ifc, *how).err().map(|e| e.to_string());
                seam::arm(&[]);
                Ok::<_, String>((e, ifc.to_string()))
            })?;
            let (e, full) = loaded(r, "load")?;
            let fired: Vec<String> = s
                .out
                .fired
                .iter()
                .filter(|(k, n)| before.get(*k) != Some(n))
                .map(|(k, _)| k.clone())
                .collect();
            let fatal = fired
                .iter()
                .any(|k| !k.ends_with("EINTR") && !k.ends_with(":short") && !k.ends_with("disk-full"));
            let target = s.ctx.disk.get("/simdisk/model.ifc").unwrap_or(&[]).to_vec();
            match e {
                None => {
                    if fatal {
                        return viol("swallowed", format!("save {how:?} reported success although it met {fired:?}"));
                    }
                    if target != full.as_bytes() {
                        return viol("bytes", format!("save {how:?} reported success but the file differs from the text ({fired:?})"));
                    }
                }
                Some(e) => {
                    if !fatal {
                        return viol("refused", format!("save {how:?} failed with {e} although it only met {fired:?}"));
                    }
                    let part = s.ctx.disk.get("/simdisk/model.tmp").map(|b| b.to_vec());
                    let f = match (how, part) {
                        (Save::Atomic, Some(p)) => p,
                        (Save::Atomic, None) => vec![],
                        _ => target,
                    };
                    // an open that failed leaves the old file
                    if !full.as_bytes().starts_with(&f) && !fired.iter().any(|k| k.starts_with("Open:")) {
                        return viol("bytes", format!("failed save {how:?} left bytes which are not the beginning of the text"));
                    }
                }
            }
            s.note("saves into files", 1);
        }
        s.out.trivial = s.out.fired.is_empty();
        Ok(())
    })();
    Ok(s.done(r))
}

fn tail(s: &str) -> String {
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(120)).collect()
}

// ------------------------------------------------------------------------------ table

pub const REAL: &[&str] = &[
    "ifc_rs (parser, model, renderer, verification), unmodified",
    "Rust std (fs, io, fmt)",
    "winnow, chrono, uuid, getrandom, anyhow",
];
pub const STUB: &[&str] = &[
    "kernel file system calls (simulated disk)",
    "clock_gettime (simulated clock)",
    "getrandom (seeded stream)",
];
pub const ASSUME: &[&str] = &[
    "ids below 2^50, finite reals, dates 1970-9999, no stray backslashes in strings",
    "the library reaches file system, clock and entropy only through libc (checked: the simulated calls are the only ones in the event log)",
];

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "C03",
            quick: 7000,
            thorough: 126000,
            level: "exploration",
            gen: c03_gen,
            exec: c03_exec,
            rule: "A run stores a generated document, damages its bytes in up to 8 ways (bit flips, zeroed/duplicated/moved/stale blocks, truncation, splices) and loads each in a fresh process. Non-trivial: at least one damage changed the bytes.",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        },
        Def {
            id: "C04",
            quick: 7000,
            thorough: 126000,
            level: "fault_enumeration",
            gen: c04_gen,
            exec: c04_exec,
            rule: "A run loads a generated document six times, each under another sequence of faults of open/stat/seek/read, and again after the fault is gone. Non-trivial: a fault fired.",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        },
        Def {
            id: "C05",
            quick: 11000,
            thorough: 198000,
            level: "fault_enumeration",
            gen: c05_gen,
            exec: c05_exec,
            rule: "A run renders a model and parts of it into 10 writers that fail at some byte or piece, and saves it into 3 files with write/sync/rename/open faults and full disks. Non-trivial: a writer or call failed.",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        },
        Def {
            id: "C12",
            quick: 14000,
            thorough: 252000,
            level: "exploration",
            gen: c12_gen,
            exec: c12_exec,
            rule: "A run stores a generated foreign document and puts it through up to 3 load-edit-save-restart cycles with benign I/O faults, comparing text and objects with the expectation after every step. Non-trivial: the document has records.",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        },
        Def {
            id: "C16",
            quick: 13000,
            thorough: 234000,
            level: "exploration",
            gen: c16_gen,
            exec: c16_exec,
            rule: "A run loads a generated document and then up to 4 versions of it with one reference misdirected (missing or wrong kind) or a referenced record lost. Non-trivial: at least one reference was broken.",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        },
    ]
}
