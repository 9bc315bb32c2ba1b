//! Edits of a loaded model through the public API, and what they are expected to do.

use crate::docgen::{self, ent, sch};
use crate::rng::Rng;
use crate::schema::{target_classes, F};
use crate::snap::{Exp, Expect};
use crate::step::{refs, Node};
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// What a generated edit asks for; indices are taken modulo what is there.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    New { kind: u8, text: String, num: f64 },
    At { id: u64, kind: u8, text: String, num: f64 },
    Remove { idx: u32 },
    Replace { idx: u32, kind: u8, text: String, num: f64 },
    Rename { idx: u32, text: String },
    Header { field: u8, text: String },
}

/// An edit with its targets resolved.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Do {
    /// `id` is the one it is expected to get
    New { id: u64, kind: u8, text: String, num: f64 },
    At { id: u64, kind: u8, text: String, num: f64 },
    Remove { id: u64 },
    Rename { id: u64, kw: String, text: String },
    Header { field: u8, text: String },
    Skip,
}

pub const KINDS: u8 = 6;

fn clean(t: &str) -> String {
    t.replace('\\', "")
}

pub fn gen(r: &mut Rng) -> Edit {
    let text = docgen::api_text(r);
    let kind = r.below(KINDS as usize) as u8;
    let num = docgen::real(r);
    match r.below(7) {
        0 | 1 => Edit::New { kind, text, num },
        2 => Edit::At {
            id: r.range(0, 300) as u64,
            kind,
            text,
            num,
        },
        3 => Edit::Remove { idx: r.below(1000) as u32 },
        4 => Edit::Rename { idx: r.below(1000) as u32, text },
        5 => Edit::Header { field: r.below(6) as u8, text },
        _ => Edit::Replace {
            idx: r.below(1000) as u32,
            kind,
            text,
            num,
        },
    }
}

/// the record of an inserted object
pub fn record(kind: u8, text: &str, num: f64) -> Exp {
    let t = clean(text);
    let s = Node::Str(enc(&t));
    match kind % KINDS {
        0 => Exp::Typed("IFCCARTESIANPOINT@3", vec![Node::List(vec![Node::F(num), Node::F(-num), Node::F(1.0)])]),
        1 => Exp::Typed("IFCMATERIAL", vec![s, Node::Null, Node::Null]),
        2 => Exp::Typed("IFCORGANIZATION", vec![Node::Null, s, Node::Null, Node::Null, Node::Null]),
        3 => Exp::Typed("IFCCARTESIANPOINT@2", vec![Node::List(vec![Node::F(num), Node::F(0.5)])]),
        4 => Exp::Typed("IFCAPPLICATION", vec![Node::Any, s.clone(), Node::Str(enc(&format!("{t} full"))), s]),
        _ => Exp::Raw(format!("IFCCOLOURRGB('{}',{:?},0.5,1.)", t.replace('\'', "''"), num)),
    }
}

/// as it stands in a file
pub fn enc(t: &str) -> String {
    t.replace('\'', "''")
}

const HEAD: [&str; 6] = ["name", "author", "organization", "preprocessor", "system", "authorization"];

fn text_class(kw: &str) -> bool {
    RENAMEABLE.contains(&kw)
}
const RENAMEABLE: [&str; 15] = [
    "IFCWALL", "IFCSLAB", "IFCROOF", "IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY", "IFCPROJECT", "IFCSPACE",
    "IFCSHADINGDEVICE", "IFCWINDOW", "IFCDOOR", "IFCOPENINGELEMENT",
    "IFCMATERIAL", "IFCORGANIZATION", "IFCPERSON",
];
/// index of the renamed attribute
fn name_attr(kw: &str) -> usize {
    match kw {
        "IFCMATERIAL" => 0,
        "IFCORGANIZATION" | "IFCPERSON" => 1,
        _ => 2,
    }
}

fn referenced(x: &Expect) -> BTreeSet<u64> {
    let mut v = vec![];
    for e in x.values() {
        if let Exp::Typed(_, a) = e {
            a.iter().for_each(|n| refs(n, &mut v));
        }
    }
    v.into_iter().collect()
}

/// may an object of that kind be put where this id is referred to?
fn replaceable(x: &Expect, id: u64, new: &Exp) -> bool {
    for e in x.values() {
        if let Exp::Typed(kw, a) = e {
            for (n, f) in a.iter().zip(&ent(kw).unwrap().attrs) {
                let mut v = vec![];
                refs(n, &mut v);
                if !v.contains(&id) {
                    continue;
                }
                let c = target_classes(f).map(|c| c.0).unwrap_or("");
                match new {
                    Exp::Raw(_) => {}
                    Exp::Typed(k, _) => {
                        if !c.is_empty() && !docgen::classes(c).contains(k) {
                            return false;
                        }
                    }
                }
            }
        }
    }
    true
}

/// Resolves the edits against the expected model and applies them to it. New objects get the next
/// id after the largest.
pub fn plan(edits: &[Edit], x: &mut Expect, head: &mut [(String, Vec<Node>)]) -> Vec<Do> {
    let mut out = vec![];
    for e in edits {
        let d = match e {
            Edit::New { kind, text, num } => {
                if !num.is_finite() || needs_org(*kind) && any_org(x).is_none() || max_id(x) >= 1 << 52 {
                    Do::Skip
                } else {
                    let id = max_id(x) + 1;
                    let rec = fill(record(*kind, text, *num), x);
                    x.insert(id, rec);
                    Do::New {
                        id,
                        kind: *kind,
                        text: clean(text),
                        num: *num,
                    }
                }
            }
            Edit::At { id, kind, text, num } => at(x, *id, *kind, text, *num),
            Edit::Replace { idx, kind, text, num } => match nth(x.keys(), *idx) {
                Some(id) => at(x, id, *kind, text, *num),
                None => Do::Skip,
            },
            Edit::Remove { idx } => {
                let used = referenced(x);
                match nth(x.keys().filter(|i| !used.contains(i)), *idx) {
                    Some(id) => {
                        x.remove(&id);
                        Do::Remove { id }
                    }
                    None => Do::Skip,
                }
            }
            Edit::Rename { idx, text } => {
                let ids: Vec<u64> = x
                    .iter()
                    .filter(|(_, e)| matches!(e, Exp::Typed(k, _) if text_class(k)))
                    .map(|(i, _)| *i)
                    .collect();
                match nth(ids.iter(), *idx) {
                    Some(id) => {
                        let Some(Exp::Typed(kw, a)) = x.get_mut(&id) else { unreachable!() };
                        a[name_attr(kw)] = Node::Str(enc(&clean(text)));
                        Do::Rename {
                            id,
                            kw: kw.to_string(),
                            text: clean(text),
                        }
                    }
                    None => Do::Skip,
                }
            }
            Edit::Header { field, text } => {
                let f = *field as usize % HEAD.len();
                let n = Node::Str(enc(text));
                let a = &mut head[1].1;
                match f {
                    0 => a[0] = n,
                    1 => a[2] = Node::List(vec![n]),
                    2 => a[3] = Node::List(vec![n.clone(), n]),
                    3 => a[4] = n,
                    4 => a[5] = n,
                    _ => a[6] = n,
                }
                Do::Header {
                    field: f as u8,
                    text: text.clone(),
                }
            }
        };
        out.push(d);
    }
    out
}

fn needs_org(kind: u8) -> bool {
    kind % KINDS == 4
}
fn any_org(x: &Expect) -> Option<u64> {
    x.iter()
        .find(|(_, e)| matches!(e, Exp::Typed("IFCORGANIZATION", _)))
        .map(|(i, _)| *i)
}
fn fill(e: Exp, x: &Expect) -> Exp {
    match e {
        Exp::Typed("IFCAPPLICATION", mut a) => {
            a[0] = Node::Ref(any_org(x).unwrap());
            Exp::Typed("IFCAPPLICATION", a)
        }
        e => e,
    }
}
fn max_id(x: &Expect) -> u64 {
    x.keys().max().copied().unwrap_or(0)
}
fn nth<'a>(mut it: impl Iterator<Item = &'a u64> + Clone, idx: u32) -> Option<u64> {
    let n = it.clone().count();
    if n == 0 {
        return None;
    }
    it.nth(idx as usize % n).copied()
}
fn at(x: &mut Expect, id: u64, kind: u8, text: &str, num: f64) -> Do {
    if !num.is_finite() || id >= docgen::MAX_ID || needs_org(kind) && any_org(x).is_none() {
        return Do::Skip;
    }
    let rec = fill(record(kind, text, num), x);
    if !replaceable(x, id, &rec) || needs_org(kind) && any_org(x) == Some(id) {
        return Do::Skip;
    }
    x.insert(id, rec);
    Do::At {
        id,
        kind,
        text: clean(text),
        num,
    }
}

/// the ids new objects are expected to get
pub fn new_ids(d: &[Do]) -> Vec<u64> {
    d.iter()
        .filter_map(|d| match d {
            Do::New { id, .. } => Some(*id),
            _ => None,
        })
        .collect()
}

// ------------------------------------------------------------------------------ in the process

fn tid<T: IfcType>(ifc: &IFC, id: u64) -> TypedId<T> {
    let mut it = ifc.data.id_of::<T>();
    it.find(|t| t.id() == Id(id as usize)).expect("object of that kind")
}

fn insert(ifc: &mut IFC, at: Option<u64>, kind: u8, text: &str, num: f64) -> u64 {
    macro_rules! put {
        ($v:expr) => {{
            let v = $v;
            match at {
                Some(id) => {
                    ifc.data.insert(Id(id as usize), v);
                    id
                }
                None => ifc.data.insert_new(v).id().0 as u64,
            }
        }};
    }
    match kind % KINDS {
        0 => put!(Point3D::from(DVec3::new(num, -num, 1.0))),
        1 => put!(Material::new(text)),
        2 => put!(Organization::new(None, text, None)),
        3 => put!(Point2D::from(DVec2::new(num, 0.5))),
        4 => {
            let org = ifc.data.id_of::<Organization>().next().expect("organization");
            let full = format!("{text} full");
            put!(Application::new(org, text, full.as_str(), text))
        }
        _ => put!(Dummy {
            s: format!("IFCCOLOURRGB('{}',{:?},0.5,1.)", text.replace('\'', "''"), num)
        }),
    }
}

/// applies resolved edits; returns the ids of inserted objects
pub fn apply(ifc: &mut IFC, edits: &[Do]) -> Vec<u64> {
    let mut ids = vec![];
    for e in edits {
        match e {
            Do::New { kind, text, num, .. } => ids.push(insert(ifc, None, *kind, text, *num)),
            Do::At { id, kind, text, num } => {
                insert(ifc, Some(*id), *kind, text, *num);
            }
            Do::Remove { id } => {
                ifc.data.remove(Id(*id as usize));
            }
            Do::Rename { id, kw, text } => rename(ifc, *id, kw, text),
            Do::Header { field, text } => {
                let d = &mut ifc.header.name;
                match field {
                    0 => d.name.0 = text.clone(),
                    1 => {
                        d.author.0.truncate(1);
                        if d.author.0.is_empty() {
                            d.author = Default::default();
                        }
                        d.author.0[0].0 = text.clone();
                    }
                    2 => {
                        d.organization = Default::default();
                        d.organization.0[0].0 = text.clone();
                        let o = d.organization.0[0].clone();
                        d.organization.0.push(o);
                    }
                    3 => d.preprocessor_version.0 = text.clone(),
                    4 => d.originating_system.0 = text.clone(),
                    _ => d.authorization.0 = text.clone(),
                }
            }
            Do::Skip => {}
        }
    }
    ids
}

fn rename(ifc: &mut IFC, id: u64, kw: &str, text: &str) {
    macro_rules! go {
        ($($k:literal $t:ident $f:ident),*) => {
            match kw {
                $($k => {
                    let t = tid::<$t>(ifc, id);
                    ifc.data.get_mut(t).$f = Some(text.into()).into();
                })*
                "IFCORGANIZATION" => {
                    let t = tid::<Organization>(ifc, id);
                    ifc.data.get_mut(t).name = text.into();
                }
                _ => unreachable!("{kw}"),
            }
        };
    }
    go!(
        "IFCWALL" Wall name, "IFCSLAB" Slab name, "IFCROOF" Roof name, "IFCSITE" Site name,
        "IFCBUILDING" Building name, "IFCBUILDINGSTOREY" Storey name, "IFCPROJECT" Project name,
        "IFCSPACE" Space name, "IFCSHADINGDEVICE" ShadingDevice name, "IFCWINDOW" Window name,
        "IFCDOOR" Door name, "IFCOPENINGELEMENT" OpeningElement name,
        "IFCMATERIAL" Material material, "IFCPERSON" Person family_name
    )
}

pub fn sanity() {
    for k in RENAMEABLE {
        let e = ent(k).unwrap();
        assert!(matches!(e.attrs[name_attr(k)], F::OStr | F::Str), "{k}");
    }
    assert!(!sch().is_empty());
}
