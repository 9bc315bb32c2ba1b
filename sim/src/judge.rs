//! What the text of a built model has to say, judged against the model of the building history.

use crate::docgen::sch;
use crate::fw::{viol, Viol};
use crate::schema::entity_of;
use crate::step::{decode, diff, expand, num, parse_doc, same, show, Doc, Node, Rec};
use crate::world::{unit, Affine, Built, Class, Model, ReprE, V3};
use std::collections::BTreeMap;

/// numbers computed with rounding (sums of thicknesses, halves of lengths, ...)
const TOL: f64 = 1e-10;

/// records of these kinds belong to what refers to them
const PARTS: [&str; 21] = [
    "IFCCARTESIANPOINT",
    "IFCDIRECTION",
    "IFCAXIS2PLACEMENT2D",
    "IFCAXIS2PLACEMENT3D",
    "IFCLOCALPLACEMENT",
    "IFCCARTESIANPOINTLIST2D",
    "IFCCARTESIANPOINTLIST3D",
    "IFCINDEXEDPOLYCURVE",
    "IFCPOLYLINE",
    "IFCRECTANGLEPROFILEDEF",
    "IFCARBITRARYCLOSEDPROFILEDEF",
    "IFCEXTRUDEDAREASOLID",
    "IFCSHAPEREPRESENTATION",
    "IFCREPRESENTATIONMAP",
    "IFCCARTESIANTRANSFORMATIONOPERATOR3D",
    "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM",
    "IFCMAPPEDITEM",
    "IFCPRODUCTDEFINITIONSHAPE",
    "IFCUNITASSIGNMENT",
    "IFCDIMENSIONALEXPONENTS",
    "IFCMATERIALPROPERTIES",
];

pub struct Facts<'a> {
    pub m: &'a Model,
    pub d: BTreeMap<u64, &'a Rec>,
    /// the record of each object
    pub at: Vec<u64>,
    /// the object of a record
    pub of: BTreeMap<u64, usize>,
}

fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}

fn name_of(r: &Rec) -> Option<String> {
    let e = entity_of(sch(), &r.kw, &r.args)?;
    if e.attrs.first() != Some(&crate::schema::F::Guid) {
        return None;
    }
    match r.args.get(2) {
        Some(Node::Str(s)) => Some(decode(s)),
        _ => None,
    }
}

fn name_of_root(r: &Rec) -> Option<()> {
    let e = entity_of(sch(), &r.kw, &r.args)?;
    (e.attrs.first() == Some(&crate::schema::F::Guid)).then_some(())
}

pub fn parse(text: &str, what: &str) -> Result<Doc, Viol> {
    match parse_doc(text) {
        Ok(d) => Ok(d),
        Err(e) => viol("malformed", format!("{what}: the text is malformed: {e}")),
    }
}

/// finds the record of every object of the history
pub fn locate<'a>(m: &'a Model, b: &Built, doc: &'a Doc) -> Result<Facts<'a>, Viol> {
    let d = doc.map();
    if d.len() != doc.data.len() {
        return viol("duplicate", "an id is written twice");
    }
    let mut at = vec![0u64; m.objs.len()];
    let mut of = BTreeMap::new();
    for (c, idx) in &m.pools {
        let ids = b.ids.get(&format!("{c:?}")).map(|v| &v[..]).unwrap_or(&[]);
        assert_eq!(idx.len(), ids.len(), "{c:?}: model and run disagree on what was called");
        for (i, id) in idx.iter().zip(ids) {
            // one slab can be found by the id its builder returned in the end
            let Some(r) = d.get(id) else {
                return viol("missing", format!("the {c:?} with the returned id #{id} ({}) is not in the file", m.objs[*i].name));
            };
            if r.kw != m.objs[*i].kw {
                return viol("kind", format!("the id #{id} returned for a {c:?} is {}", cut(&r.raw)));
            }
            if of.insert(*id, *i).is_some() {
                return viol("aliased", format!("the id #{id} was returned for two objects"));
            }
            at[*i] = *id;
        }
    }
    let mut by_name: BTreeMap<(&str, String), Vec<u64>> = BTreeMap::new();
    for (id, r) in &d {
        if !of.contains_key(id) {
            if let Some(n) = name_of(r) {
                by_name.entry((&r.kw, n)).or_default().push(*id);
            }
        }
    }
    for (i, o) in m.objs.iter().enumerate() {
        if at[i] != 0 {
            continue;
        }
        let v = by_name.get(&(o.kw, o.name.clone())).map(|v| &v[..]).unwrap_or(&[]);
        let pick = match v {
            [id] => *id,
            [] => return viol("missing", format!("there is no {} named {:?}", o.kw, o.name)),
            _ => return viol("twice", format!("{} objects {} are named {:?}", v.len(), o.kw, o.name)),
        };
        at[i] = pick;
        of.insert(pick, i);
    }
    Ok(Facts { m, d, at, of })
}

fn nostop(_: &str) -> Option<String> {
    None
}

impl Facts<'_> {
    fn tree(&self, id: u64) -> Node {
        expand(id, &self.d, &nostop, 0)
    }

    fn title(&self, i: usize) -> String {
        let o = &self.m.objs[i];
        format!("#{} {} {:?}", self.at[i], o.kw, o.name)
    }

    /// objects, attributes, resources: as requested, and nothing else
    pub fn contents(&self) -> Result<u64, Viol> {
        let mut n = 0;
        for (i, o) in self.m.objs.iter().enumerate() {
            let have = self.tree(self.at[i]);
            if let Some(x) = diff(&o.tree, &have, TOL) {
                return viol("content", format!("{}: (requested vs. stored) {x}", self.title(i)));
            }
            n += 1;
        }
        let mut left: Vec<Option<&(&'static str, Node)>> = self.m.anon.iter().map(Some).collect();
        for (id, r) in &self.d {
            if self.of.contains_key(id) || PARTS.contains(&&r.kw[..]) || r.kw.starts_with("IFCREL") {
                continue;
            }
            let have = self.tree(*id);
            let k = left
                .iter()
                .position(|x| x.is_some_and(|x| x.0 == r.kw && same(&x.1, &have, TOL)));
            match k {
                Some(k) => left[k] = None,
                None => {
                    let near = left.iter().flatten().find(|x| x.0 == r.kw).and_then(|x| diff(&x.1, &have, TOL));
                    return viol(
                        "unrequested",
                        format!("nobody asked for #{id}={} {}", cut(&r.raw), near.unwrap_or_default()),
                    );
                }
            }
            n += 1;
        }
        if let Some(x) = left.iter().flatten().next() {
            return viol("missing", format!("there is no {}", cut(&show(&x.1))));
        }
        Ok(n)
    }

    /// everything but the records which are written without one names the owner history of the project
    pub fn attribution(&self, owner: &Node) -> Result<u64, Viol> {
        let mut one = None;
        let mut n = 0;
        for (id, r) in &self.d {
            if name_of_root(r).is_none() || ["IFCPROPERTYSET", "IFCRELAGGREGATES", "IFCRELDEFINESBYPROPERTIES"].contains(&&r.kw[..]) {
                continue;
            }
            let Some(Node::Ref(o)) = r.args.get(1) else {
                return viol("unattributed", format!("#{id}={} names no owner history", cut(&r.raw)));
            };
            if *one.get_or_insert(*o) != *o {
                return viol("attribution", format!("#{id}={} names another owner history than other records", cut(&r.raw)));
            }
            if let Some(x) = diff(owner, &self.tree(*o), TOL) {
                return viol("attribution", format!("the owner history of #{id}={}: (given vs. stored) {x}", cut(&r.raw)));
            }
            n += 1;
        }
        Ok(n)
    }

    /// the relations: exactly those that were established
    pub fn relations(&self) -> Result<u64, Viol> {
        let mut want: BTreeMap<(&str, usize, usize), i64> = BTreeMap::new();
        for p in &self.m.pairs {
            *want.entry(*p).or_default() += 1;
        }
        let mut anon: Vec<Option<&(&'static str, Node, usize)>> = self.m.anon_pairs.iter().map(Some).collect();
        let mut n = 0;
        for (id, r) in &self.d {
            if !r.kw.starts_with("IFCREL") {
                continue;
            }
            for (a, b) in ends(r) {
                n += 1;
                let Some(&y) = self.of.get(&b) else {
                    return viol("stranger", format!("#{id}={} names #{b} which is none of the objects built", cut(&r.raw)));
                };
                let Some(&x) = self.of.get(&a) else {
                    let have = self.tree(a);
                    let k = anon
                        .iter()
                        .position(|p| p.is_some_and(|p| p.0 == r.kw && p.2 == y && same(&p.1, &have, TOL)));
                    match k {
                        Some(k) => anon[k] = None,
                        None => {
                            return viol("stranger", format!("#{id}={} names #{a} which is none of the objects built", cut(&r.raw)))
                        }
                    }
                    continue;
                };
                let kw = KINDS.iter().find(|k| **k == r.kw).copied().unwrap_or("");
                let e = want.entry((kw, x, y)).or_default();
                *e -= 1;
                if *e < 0 {
                    let all = self.m.pairs.iter().filter(|p| **p == (kw, x, y)).count();
                    return viol(
                        if all == 0 { "unrequested" } else { "repeated" },
                        format!("{} relates {} and {}: established {all} times", cut(&r.raw), self.title(x), self.title(y)),
                    );
                }
            }
        }
        if let Some((k, _)) = want.iter().find(|(_, n)| **n > 0) {
            return viol("lost", format!("{} of {} and {} is not in the file", k.0, self.title(k.1), self.title(k.2)));
        }
        Ok(n)
    }

    fn reprs(&self, i: usize) -> Result<Vec<Have>, Viol> {
        let t = self.title(i);
        let mut out = vec![];
        let r = self.d[&self.at[i]];
        let Some(Node::Ref(s)) = r.args.get(6) else {
            return viol("shapeless", format!("{t} has no shape"));
        };
        let Some(Node::List(v)) = self.d.get(s).and_then(|s| s.args.get(2)) else {
            return viol("shapeless", format!("{t} has no shape"));
        };
        for x in v {
            let Node::Ref(x) = x else { continue };
            match self.unwrap(*x, 0) {
                Ok(h) => out.push(h),
                Err(e) => return viol("mapping", format!("{t}: {e}")),
            }
        }
        Ok(out)
    }

    /// follows mapped representations to the original one
    fn unwrap(&self, id: u64, depth: usize) -> Result<Have, String> {
        let r = self.d.get(&id).ok_or("dangling")?;
        let outer = match r.args.get(1) {
            Some(Node::Str(s)) => s.clone(),
            x => format!("{x:?}"),
        };
        if depth > 60 {
            return Err("cyclic mapping".into());
        }
        if !matches!(r.args.get(2), Some(Node::Str(t)) if t == "MappedRepresentation") {
            return Ok(Have {
                base: self.tree(id),
                at: Affine::id(),
                outer,
                id,
            });
        }
        let Some(Node::List(items)) = r.args.get(3) else { return Err("no items".into()) };
        let [Node::Ref(item)] = &items[..] else {
            return Err(format!("{} mapped items", items.len()));
        };
        let Node::Typed(k, a) = self.tree(*item) else { return Err("no item".into()) };
        if k != "IFCMAPPEDITEM" {
            return Err(format!("the item of a mapped representation is a {k}"));
        }
        let Node::Typed(_, map) = &a[0] else { return Err("no map".into()) };
        let o = axis(&map[0])?;
        let t = operator(&a[1])?;
        let raw = self.d.get(item).and_then(|i| i.args.first().cloned());
        let Some(Node::Ref(map)) = raw else { return Err("no map".into()) };
        let Some(Node::Ref(inner)) = self.d.get(&map).and_then(|m| m.args.get(1)) else {
            return Err("no representation".into());
        };
        let mut h = self.unwrap(*inner, depth + 1)?;
        h.at = t.after(&o).after(&h.at);
        h.outer = outer;
        Ok(h)
    }

    /// the shapes themselves
    pub fn shapes(&self) -> Result<u64, Viol> {
        let mut n = 0;
        for (i, o) in self.m.objs.iter().enumerate() {
            let Some(want) = &o.shape else { continue };
            let have = self.reprs(i)?;
            pairing(want, &have, |w, h| {
                diff(&w.base, &h.base, TOL).or_else(|| neutral_position(&h.base))
            })
            .or_else(|x| viol("shape", format!("{}: {x}", self.title(i))))?;
            n += have.len() as u64;
        }
        Ok(n)
    }

    /// where the shapes are moved to, and where the placements are
    pub fn motions(&self) -> Result<u64, Viol> {
        let mut n = 0;
        for (i, o) in self.m.objs.iter().enumerate() {
            if let (Some(Node::Ref(p)), true) = (self.d[&self.at[i]].args.get(5), o.place != Node::Null) {
                if let Some(x) = diff(&o.place, &self.tree(*p), TOL) {
                    return viol("placement", format!("{}: (requested vs. stored) {x}", self.title(i)));
                }
            }
            let Some(want) = &o.shape else { continue };
            let have = self.reprs(i)?;
            pairing(want, &have, |w, h| {
                let (a, b) = (kind(&w.base), kind(&h.base));
                if a != b {
                    return Some(format!("{b} instead of {a}"));
                }
                if !w.at.close(&h.at) {
                    return Some(format!("is moved by {:?} instead of {:?}", h.at, w.at));
                }
                if !w.loose && decode(&h.outer) != a {
                    return Some(format!("became a {:?}", h.outer));
                }
                None
            })
            .or_else(|x| viol("motion", format!("{}: {x}", self.title(i))))?;
            n += have.iter().filter(|h| h.at != Affine::id()).count() as u64;
        }
        Ok(n)
    }

    pub fn pairs_of<'b>(&'b self, kw: &'b str, x: usize) -> impl Iterator<Item = u64> + 'b {
        self.m.pairs.iter().filter(move |p| p.0 == kw && p.1 == x).map(|p| self.at[p.2])
    }
}

pub struct Have {
    base: Node,
    at: Affine,
    outer: String,
    #[allow(dead_code)]
    id: u64,
}

pub const KINDS: [&str; 7] = [
    "IFCRELAGGREGATES",
    "IFCRELASSOCIATESMATERIAL",
    "IFCRELCONTAINEDINSPATIALSTRUCTURE",
    "IFCRELDEFINESBYTYPE",
    "IFCRELDEFINESBYPROPERTIES",
    "IFCRELVOIDSELEMENT",
    "IFCRELFILLSELEMENT",
];

/// (relating, related) objects of a relation
fn ends(r: &Rec) -> Vec<(u64, u64)> {
    let side = |n: Option<&Node>| -> Vec<u64> {
        let mut v = vec![];
        if let Some(n) = n {
            crate::step::refs(n, &mut v);
        }
        v
    };
    let (x, y) = (side(r.args.get(4)), side(r.args.get(5)));
    let (a, b) = match &r.kw[..] {
        "IFCRELAGGREGATES" | "IFCRELVOIDSELEMENT" | "IFCRELFILLSELEMENT" | "IFCRELDECLARES" => (x, y),
        _ => (y, x),
    };
    a.iter().flat_map(|a| b.iter().map(|b| (*a, *b))).collect()
}

/// one to one
fn pairing(want: &[ReprE], have: &[Have], f: impl Fn(&ReprE, &Have) -> Option<String>) -> Result<(), String> {
    if want.len() != have.len() {
        return Err(format!("{} representations instead of {}", have.len(), want.len()));
    }
    let mut used = vec![false; have.len()];
    for w in want {
        let mut why = None;
        let k = (0..have.len()).find(|k| {
            !used[*k] && {
                let x = f(w, &have[*k]);
                if x.is_some() && (why.is_none() || kind(&w.base) == kind(&have[*k].base)) {
                    why = x.clone();
                }
                x.is_none()
            }
        });
        match k {
            Some(k) => used[k] = true,
            None => return Err(why.unwrap_or_default()),
        }
    }
    Ok(())
}

/// identifier of a representation
fn kind(n: &Node) -> String {
    match n {
        Node::Typed(_, a) => match a.get(1) {
            Some(Node::Str(s)) => decode(s),
            _ => String::new(),
        },
        _ => String::new(),
    }
}

/// extrusions are not moved by a position of their own
fn neutral_position(n: &Node) -> Option<String> {
    match n {
        Node::Typed(k, a) if k == "IFCEXTRUDEDAREASOLID" => match &a[1] {
            Node::Null => None,
            p => match axis(p) {
                Ok(x) if x.close(&Affine::id()) => None,
                Ok(x) => Some(format!("the extrusion is moved by {x:?}")),
                Err(e) => Some(e),
            },
        },
        Node::Typed(_, a) | Node::List(a) => a.iter().find_map(neutral_position),
        _ => None,
    }
}

fn vec3(n: &Node, kw: &str) -> Result<Option<V3>, String> {
    match n {
        Node::Null => Ok(None),
        Node::Typed(k, a) if k == kw => match a.first() {
            Some(Node::List(v)) if v.len() == 3 => {
                let mut o = [0.0; 3];
                for (x, y) in v.iter().zip(&mut o) {
                    *y = match x {
                        Node::Num(s) => num(s),
                        Node::F(f) => *f,
                        x => return Err(format!("{} is not a number", show(x))),
                    };
                }
                Ok(Some(o))
            }
            _ => Err(format!("{} is not three-dimensional", show(n))),
        },
        _ => Err(format!("{} is not a {kw}", show(n))),
    }
}
fn dot(a: V3, b: V3) -> f64 {
    (0..3).map(|i| a[i] * b[i]).sum()
}
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

/// IfcAxis2Placement3D
fn axis(n: &Node) -> Result<Affine, String> {
    let Node::Typed(k, a) = n else { return Err(format!("{} is not a placement", show(n))) };
    if k != "IFCAXIS2PLACEMENT3D" {
        return Err(format!("{k} is not a placement"));
    }
    let t = vec3(&a[0], "IFCCARTESIANPOINT")?.ok_or("no location")?;
    let z = unit(vec3(&a[1], "IFCDIRECTION")?.unwrap_or([0.0, 0.0, 1.0]));
    let x = vec3(&a[2], "IFCDIRECTION")?.unwrap_or([1.0, 0.0, 0.0]);
    let p = dot(x, z);
    let x = unit([x[0] - p * z[0], x[1] - p * z[1], x[2] - p * z[2]]);
    Ok(Affine::new(x, cross(z, x), z, t))
}

/// IfcCartesianTransformationOperator3D(nonUniform)
fn operator(n: &Node) -> Result<Affine, String> {
    let Node::Typed(_, a) = n else { return Err(format!("{} is not an operator", show(n))) };
    let x = unit(vec3(&a[0], "IFCDIRECTION")?.unwrap_or([1.0, 0.0, 0.0]));
    let y = unit(vec3(&a[1], "IFCDIRECTION")?.unwrap_or([0.0, 1.0, 0.0]));
    let z = unit(vec3(&a[4], "IFCDIRECTION")?.unwrap_or([0.0, 0.0, 1.0]));
    let t = vec3(&a[2], "IFCCARTESIANPOINT")?.ok_or("no origin")?;
    let s = |i: usize| match a.get(i) {
        Some(Node::Num(s)) => Some(num(s)),
        _ => None,
    };
    let s1 = s(3).unwrap_or(1.0);
    let m = |v: V3, f: f64| v.map(|x| x * f);
    Ok(Affine::new(m(x, s1), m(y, s(5).unwrap_or(s1)), m(z, s(6).unwrap_or(s1)), t))
}

#[allow(dead_code)]
pub fn class_at(f: &Facts, c: Class) -> Vec<u64> {
    f.m.pools.get(&c).map(|v| v.iter().map(|i| f.at[*i]).collect()).unwrap_or_default()
}
