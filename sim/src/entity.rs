//! C22: models assembled directly through the entities' constructors and setters. Every entity is built
//! next to a list of the attributes it was given, in the order of the schema; the saved file and the
//! reloaded model have to say exactly that.

use crate::docchecks::{benign, gen_save, load, loaded, save, Save, ASSUME, PATH, REAL, STUB};
use crate::docgen::{wide, api_text, real};
use crate::edits::enc;
use crate::enums::*;
use crate::fw::*;
use crate::rng::Rng;
use crate::schema::written;
use crate::seam::IoFault;
use crate::snap::{self, snap};
use crate::step::{self, Node};
use crate::worldchecks::{gen_env, machine, Env};
use bevy_math::{DVec2, DVec3};
use ifc_rs::id::{Id, IdOr, TypedId};
use ifc_rs::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

/// from here on: records whose number the library chooses when it inserts a nested value
pub const SYM: u64 = 1 << 50;

pub type Args = Vec<Node>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct EModel {
    pub recs: BTreeMap<u64, (String, Args)>,
    pub next: u64,
}

pub struct B<'a> {
    pub r: Rng,
    pub ifc: &'a mut IFC,
    pub m: EModel,
    depth: u32,
    /// the entity being changed: nothing may refer to it meanwhile
    me: Option<u64>,
}

type Base<T> = Option<(T, Args)>;
type Make<T> = fn(&mut B, Base<T>) -> (T, Args);

impl B<'_> {
    fn have(&self, classes: &str) -> Vec<u64> {
        self.m
            .recs
            .iter()
            .filter(|(i, (k, _))| **i < SYM && Some(**i) != self.me && classes.split(' ').any(|c| c == k))
            .map(|(i, _)| *i)
            .collect()
    }
    fn any(&mut self, classes: &str) -> Option<u64> {
        let v = if classes.is_empty() {
            self.m.recs.keys().copied().filter(|i| *i < SYM && Some(*i) != self.me).collect()
        } else {
            self.have(classes)
        };
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }
    fn some(&mut self) -> bool {
        self.r.chance(45)
    }
    pub fn text(&mut self) -> (String, Node) {
        let t = api_text(&mut self.r);
        let n = Node::Str(enc(&t));
        (t, n)
    }
    fn real(&mut self) -> (f64, Node) {
        let v = wide(&mut self.r);
        (v, Node::F(v))
    }
    fn int(&mut self) -> (i64, Node) {
        let v = match self.r.below(4) {
            0 => self.r.range(-9, 9),
            1 => self.r.range(-(1 << 60), 1 << 60),
            2 => *self.r.pick(&[i64::MAX, i64::MIN, 0, -1]),
            _ => self.r.range(-99999, 99999),
        };
        (v, Node::Num(v.to_string()))
    }
    fn flag(&mut self) -> (bool, Node) {
        let v = self.r.chance(50);
        (v, Node::Enum(if v { "T" } else { "F" }.into()))
    }
    fn v2(&mut self) -> (DVec2, Node) {
        let v = [wide(&mut self.r), wide(&mut self.r)];
        (DVec2::from_array(v), Node::List(v.iter().map(|x| Node::F(*x)).collect()))
    }
    fn v3(&mut self) -> (DVec3, Node) {
        let v = [wide(&mut self.r), wide(&mut self.r), wide(&mut self.r)];
        (DVec3::from_array(v), Node::List(v.iter().map(|x| Node::F(*x)).collect()))
    }
    /// a number of the library's own choice
    fn sym(&mut self, kw: &str, args: Args) -> Node {
        let id = SYM + self.m.next;
        self.m.next += 1;
        self.m.recs.insert(id, (kw.into(), args));
        Node::Ref(id)
    }
    /// an existing entity, or a value for the library to insert
    fn or<T: IfcType>(&mut self, kw: &str, f: Make<T>) -> (IdOr<T>, Node) {
        let v = self.have(kw);
        if !v.is_empty() && (self.depth > 2 || self.r.chance(60)) {
            let id = *self.r.pick(&v);
            let t = match self.r.below(3) {
                0 => Id(id as usize).into(),
                1 => TypedId::new(Id(id as usize)).into(),
                _ => TypedId::<T>::from(Id(id as usize)).id_or(),
            };
            (t, Node::Ref(id))
        } else {
            self.depth += 1;
            let (x, a) = f(self, None);
            self.depth -= 1;
            let n = self.sym(kw, a);
            (x.into(), n)
        }
    }
    /// an existing entity, or one inserted right now
    fn id<T: IfcType>(&mut self, kw: &str, f: Make<T>) -> (TypedId<T>, Node) {
        let v = self.have(kw);
        if !v.is_empty() && (self.depth > 2 || self.r.chance(70)) {
            let id = *self.r.pick(&v);
            (TypedId::new(Id(id as usize)), Node::Ref(id))
        } else {
            self.depth += 1;
            let (x, a) = f(self, None);
            self.depth -= 1;
            let t = self.ifc.data.insert_new(x);
            self.m.recs.insert(t.id().0 as u64, (kw.into(), a));
            (t, Node::Ref(t.id().0 as u64))
        }
    }
}

/// one setter: the value goes in, the attribute is noted
macro_rules! set {
    ($b:ident, $x:ident, $a:ident, $i:expr, text $m:ident) => {
        if $b.some() {
            let (v, n) = $b.text();
            $x = $x.$m(v);
            $a[$i] = n;
        }
    };
    ($b:ident, $x:ident, $a:ident, $i:expr, real $m:ident) => {
        if $b.some() {
            let (v, n) = $b.real();
            $x = $x.$m(v);
            $a[$i] = n;
        }
    };
    ($b:ident, $x:ident, $a:ident, $i:expr, ftext $m:ident) => {
        if $b.some() {
            let (v, n) = $b.text();
            $x.$m = Some(v.into()).into();
            $a[$i] = n;
        }
    };
    ($b:ident, $x:ident, $a:ident, $i:expr, freal $m:ident) => {
        if $b.some() {
            let (v, n) = $b.real();
            $x.$m = Some(v.into()).into();
            $a[$i] = n;
        }
    };
    ($b:ident, $x:ident, $a:ident, $i:expr, fbool $m:ident) => {
        if $b.some() {
            let (v, n) = $b.flag();
            $x.$m = Some(v.into()).into();
            $a[$i] = n;
        }
    };
    ($b:ident, $x:ident, $a:ident, $i:expr, en $m:ident $e:ident) => {
        if $b.some() {
            let (v, n) = $e($b);
            $x = $x.$m(v);
            $a[$i] = n;
        }
    };
    ($b:ident, $x:ident, $a:ident, $i:expr, or $m:ident $kw:literal $f:path) => {
        if $b.some() {
            let (v, n) = $b.or($kw, $f);
            $x = $x.$m(v, $b.ifc);
            $a[$i] = n;
        }
    };
}

fn push(a: &mut Node, n: Node) {
    match a {
        Node::List(l) => l.push(n),
        x => *x = Node::List(vec![n]),
    }
}

/// appends between none and three values
macro_rules! more {
    ($b:ident, $x:ident, $a:ident, $i:expr, or $m:ident $kw:literal $f:path) => {
        for _ in 0..$b.r.below(4) {
            let (v, n) = $b.or($kw, $f);
            $x = $x.$m(v, $b.ifc);
            push(&mut $a[$i], n);
        }
    };
    ($b:ident, $x:ident, $a:ident, $i:expr, text $m:ident) => {
        for _ in 0..$b.r.below(4) {
            let (v, n) = $b.text();
            $x = $x.$m(v);
            push(&mut $a[$i], n);
        }
    };
}

macro_rules! root {
    ($b:ident, $x:ident, $a:ident) => {
        set!($b, $x, $a, 1, or owner_history "IFCOWNERHISTORY" owner_history);
        if $b.r.chance(20) {
            let (v, n) = $b.text();
            $x = $x.name(v);
            $a[2] = n;
        }
        set!($b, $x, $a, 3, text description);
    };
}

/// root attributes, with everything after them unset
fn root_args(n: usize, name: Node) -> Args {
    let mut a = vec![Node::Null; n];
    a[0] = Node::Any;
    a[2] = name;
    a
}

// ------------------------------------------------------------------------------ geometry

pub fn point2(b: &mut B, _: Base<Point2D>) -> (Point2D, Args) {
    let (v, n) = b.v2();
    (v.into(), vec![n])
}
pub fn point3(b: &mut B, _: Base<Point3D>) -> (Point3D, Args) {
    let (v, n) = b.v3();
    (v.into(), vec![n])
}
pub fn dir2(b: &mut B, _: Base<Direction2D>) -> (Direction2D, Args) {
    let v = loop {
        let v = [b.r.range(-9, 9) as f64, b.r.f01() * 4.0 - 2.0];
        if v[0].abs() + v[1].abs() > 1e-3 {
            break v;
        }
    };
    (DVec2::from_array(v).into(), vec![Node::List(v.iter().map(|x| Node::F(*x)).collect())])
}
pub fn dir3(b: &mut B, _: Base<Direction3D>) -> (Direction3D, Args) {
    let v = loop {
        let v = [b.r.range(-9, 9) as f64, b.r.f01() * 4.0 - 2.0, if b.r.chance(40) { 0.0 } else { b.r.f01() - 0.5 }];
        if v.iter().map(|x| x.abs()).sum::<f64>() > 1e-3 {
            break v;
        }
    };
    (DVec3::from_array(v).into(), vec![Node::List(v.iter().map(|x| Node::F(*x)).collect())])
}
pub fn axis2(b: &mut B, base: Base<Axis2D>) -> (Axis2D, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (p, v) = point2(b, None);
        let n = b.sym("IFCCARTESIANPOINT@2", v);
        (Axis2D::new(p, b.ifc), vec![n, Node::Null])
    });
    if b.some() {
        let (d, n) = b.id("IFCDIRECTION@2", dir2);
        x.local_x = Some(d).into();
        a[1] = n;
    }
    (x, a)
}
pub fn axis3(b: &mut B, base: Base<Axis3D>) -> (Axis3D, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (p, v) = point3(b, None);
        let n = b.sym("IFCCARTESIANPOINT@3", v);
        (Axis3D::new(p, b.ifc), vec![n, Node::Null, Node::Null])
    });
    if b.some() {
        let (d, n) = b.id("IFCDIRECTION@3", dir3);
        x.local_z = Some(d).into();
        a[1] = n;
    }
    if b.some() {
        let (d, n) = b.id("IFCDIRECTION@3", dir3);
        x.local_x = Some(d).into();
        a[2] = n;
    }
    (x, a)
}
pub fn local_placement(b: &mut B, base: Base<LocalPlacement>) -> (LocalPlacement, Args) {
    let (mut x, mut a) = match base {
        Some(x) => x,
        None if b.r.chance(30) => {
            let (p, n) = b.or("IFCAXIS2PLACEMENT2D", axis2);
            (LocalPlacement::new(p, b.ifc), vec![Node::Null, n])
        }
        None => {
            let (p, n) = b.or("IFCAXIS2PLACEMENT3D", axis3);
            // placed against a product that has a placement
            let at: Vec<u64> = b
                .have("IFCSITE IFCBUILDING IFCBUILDINGSTOREY")
                .into_iter()
                .filter(|i| matches!(&b.m.recs[i].1[5], Node::Ref(p) if *p < SYM))
                .collect();
            if !at.is_empty() && b.r.chance(50) {
                let i = *b.r.pick(&at);
                let (kw, args) = b.m.recs[&i].clone();
                let id = Id(i as usize);
                let x = match kw.as_str() {
                    "IFCSITE" => LocalPlacement::new_relative(p, TypedId::<Site>::new(id), b.ifc),
                    "IFCBUILDING" => LocalPlacement::new_relative(p, TypedId::<Building>::new(id), b.ifc),
                    _ => LocalPlacement::new_relative(p, TypedId::<Storey>::new(id), b.ifc),
                };
                (x, vec![args[5].clone(), n])
            } else {
                (LocalPlacement::new(p, b.ifc), vec![Node::Null, n])
            }
        }
    };
    if b.depth < 2 {
        set!(b, x, a, 0, or relative_to "IFCLOCALPLACEMENT" local_placement);
    }
    (x, a)
}
pub fn context(b: &mut B, base: Base<GeometricRepresentationContext>) -> (GeometricRepresentationContext, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (d, n) = match b.r.below(3) {
            0 => (DimensionCount::One, "1"),
            1 => (DimensionCount::Two, "2"),
            _ => (DimensionCount::Three, "3"),
        };
        let mut a = vec![
            Node::Str("Body".into()),
            Node::Str("Model".into()),
            Node::Num(n.into()),
            Node::Null,
            Node::Null,
            Node::Null,
        ];
        if b.r.chance(30) {
            let (p, n) = b.or("IFCAXIS2PLACEMENT2D", axis2);
            a[4] = n;
            (GeometricRepresentationContext::new(d, p, b.ifc), a)
        } else {
            let (p, n) = b.or("IFCAXIS2PLACEMENT3D", axis3);
            a[4] = n;
            (GeometricRepresentationContext::new(d, p, b.ifc), a)
        }
    });
    if b.r.chance(30) {
        let (v, n) = representation_identifier(b);
        x.context_identifier = Some(v).into();
        a[0] = n;
    }
    set!(b, x, a, 1, ftext context_type);
    set!(b, x, a, 3, real precision);
    if b.r.chance(50) {
        set!(b, x, a, 5, or true_north "IFCDIRECTION@2" dir2);
    } else {
        set!(b, x, a, 5, or true_north "IFCDIRECTION@3" dir3);
    }
    (x, a)
}
pub fn subcontext(b: &mut B, base: Base<GeometricRepresentationSubContext>) -> (GeometricRepresentationSubContext, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (p, n) = b.or("IFCGEOMETRICREPRESENTATIONCONTEXT", context);
        let (g, t) = geometric_projection(b);
        let mut a = vec![Node::Star; 10];
        a[0] = Node::Str("Body".into());
        a[1] = Node::Str("Model".into());
        a[6] = n;
        a[7] = Node::Null;
        a[8] = t;
        a[9] = Node::Null;
        (GeometricRepresentationSubContext::derive(p, g, b.ifc), a)
    });
    set!(b, x, a, 7, real target_scale);
    set!(b, x, a, 9, text user_defined_target_view);
    (x, a)
}
fn tags(b: &mut B, n: usize) -> (Vec<String>, Node) {
    let (v, l) = (0..n).map(|_| b.text()).unzip();
    (v, Node::List(l))
}
pub fn list2(b: &mut B, _: Base<PointList2D>) -> (PointList2D, Args) {
    let (v, l): (Vec<DVec2>, Vec<Node>) = (0..1 + b.r.below(5)).map(|_| b.v2()).unzip();
    let n = v.len();
    let mut x = PointList2D::new(v.into_iter());
    let mut a = vec![Node::List(l), Node::Null];
    if b.r.chance(25) {
        let (t, l) = tags(b, n);
        x.tag_list = t.into_iter().fold(Person::empty(), Person::add_middle_name).middle_names;
        a[1] = l;
    }
    (x, a)
}
pub fn list3(b: &mut B, _: Base<PointList3D>) -> (PointList3D, Args) {
    let (v, l): (Vec<DVec3>, Vec<Node>) = (0..1 + b.r.below(5)).map(|_| b.v3()).unzip();
    let n = v.len();
    let mut x = PointList3D::new(v.into_iter());
    let mut a = vec![Node::List(l), Node::Null];
    if b.r.chance(25) {
        let (t, l) = tags(b, n);
        x.tag_list = t.into_iter().fold(Person::empty(), Person::add_suffix_title).suffix_titles;
        a[1] = l;
    }
    (x, a)
}
pub fn curve(b: &mut B, base: Base<IndexedPolyCurve>) -> (IndexedPolyCurve, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        if b.r.chance(50) {
            let (l, v) = list2(b, None);
            let n = b.sym("IFCCARTESIANPOINTLIST2D", v);
            (IndexedPolyCurve::new(l, b.ifc), vec![n, Node::Null, Node::Null])
        } else {
            let (l, v) = list3(b, None);
            let n = b.sym("IFCCARTESIANPOINTLIST3D", v);
            (IndexedPolyCurve::new(l, b.ifc), vec![n, Node::Null, Node::Null])
        }
    });
    set!(b, x, a, 2, fbool self_intersect);
    (x, a)
}
pub fn polyline(b: &mut B, _: Base<PolyLine>) -> (PolyLine, Args) {
    let n = 1 + b.r.below(5);
    if b.r.chance(50) {
        let (v, a): (Vec<_>, Vec<_>) = (0..n).map(|_| point2(b, None)).unzip();
        let l = a.into_iter().map(|a| b.sym("IFCCARTESIANPOINT@2", a)).collect();
        (PolyLine::from(v.into_iter(), b.ifc), vec![Node::List(l)])
    } else {
        let (v, a): (Vec<_>, Vec<_>) = (0..n).map(|_| point3(b, None)).unzip();
        let l = a.into_iter().map(|a| b.sym("IFCCARTESIANPOINT@3", a)).collect();
        (PolyLine::from(v.into_iter(), b.ifc), vec![Node::List(l)])
    }
}
pub fn rectangle(b: &mut B, base: Base<RectangleProfileDef>) -> (RectangleProfileDef, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = profile_type(b);
        let ((u, p), (v, q)) = (b.real(), b.real());
        (RectangleProfileDef::new(t, u, v), vec![n, Node::Null, Node::Null, p, q])
    });
    set!(b, x, a, 1, text profile_name);
    if b.r.chance(50) {
        set!(b, x, a, 2, or position "IFCAXIS2PLACEMENT2D" axis2);
    } else {
        set!(b, x, a, 2, or position "IFCAXIS2PLACEMENT3D" axis3);
    }
    (x, a)
}
pub fn closed_profile(b: &mut B, base: Base<ArbitraryClosedProfileDef>) -> (ArbitraryClosedProfileDef, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, k) = profile_type(b);
        if b.r.chance(50) {
            let (c, n) = b.or("IFCINDEXEDPOLYCURVE", curve);
            (ArbitraryClosedProfileDef::new(t, c, b.ifc), vec![k, Node::Null, n])
        } else {
            let (c, n) = b.or("IFCPOLYLINE", polyline);
            (ArbitraryClosedProfileDef::new(t, c, b.ifc), vec![k, Node::Null, n])
        }
    });
    set!(b, x, a, 1, text profile_name);
    (x, a)
}
pub fn solid(b: &mut B, base: Base<ExtrudedAreaSolid>) -> (ExtrudedAreaSolid, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (h, d) = b.real();
        if b.r.chance(50) {
            let (p, n) = b.or("IFCRECTANGLEPROFILEDEF", rectangle);
            let (v, k) = b.or("IFCDIRECTION@3", dir3);
            (ExtrudedAreaSolid::new(p, v, h, b.ifc), vec![n, Node::Null, k, d])
        } else {
            let (p, n) = b.or("IFCARBITRARYCLOSEDPROFILEDEF", closed_profile);
            let (v, k) = b.or("IFCDIRECTION@3", dir3);
            (ExtrudedAreaSolid::new(p, v, h, b.ifc), vec![n, Node::Null, k, d])
        }
    });
    set!(b, x, a, 1, or position "IFCAXIS2PLACEMENT3D" axis3);
    (x, a)
}
pub fn shape(b: &mut B, base: Base<ShapeRepresentation>) -> (ShapeRepresentation, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (c, n) = b.or("IFCGEOMETRICREPRESENTATIONSUBCONTEXT", subcontext);
        let ((i, p), (t, q)) = (representation_identifier(b), representation_type(b));
        (ShapeRepresentation::new(c, i, t, b.ifc), vec![n, p, q, Node::List(vec![])])
    });
    b.depth += 1;
    for _ in 0..b.r.below(3) {
        match b.r.below(if b.depth > 2 { 2 } else { 3 }) {
            0 => {
                let (v, k) = solid(b, None);
                let n = b.sym("IFCEXTRUDEDAREASOLID", k);
                x = x.add_item(v, b.ifc);
                push(&mut a[3], n);
            }
            1 => {
                let (v, k) = polyline(b, None);
                let n = b.sym("IFCPOLYLINE", k);
                x = x.add_item(v, b.ifc);
                push(&mut a[3], n);
            }
            _ => {
                let (v, k) = mapped(b, None);
                let n = b.sym("IFCMAPPEDITEM", k);
                x = x.add_item(v, b.ifc);
                push(&mut a[3], n);
            }
        }
    }
    b.depth -= 1;
    (x, a)
}
pub fn rep_map(b: &mut B, _: Base<RepresentationMap>) -> (RepresentationMap, Args) {
    let (o, n) = b.or("IFCAXIS2PLACEMENT3D", axis3);
    let (s, k) = b.or("IFCSHAPEREPRESENTATION", shape);
    (RepresentationMap::new(o, s, b.ifc), vec![n, k])
}
pub fn transform(b: &mut B, _: Base<CartesianTransformationOperator3D>) -> (CartesianTransformationOperator3D, Args) {
    let (p, n) = b.or("IFCCARTESIANPOINT@3", point3);
    let ((u, i), (v, j), (w, k)) =
        (b.or("IFCDIRECTION@3", dir3), b.or("IFCDIRECTION@3", dir3), b.or("IFCDIRECTION@3", dir3));
    let (s, q) = b.real();
    (CartesianTransformationOperator3D::new(p, (u, v, w), s, b.ifc), vec![i, j, n, q, k])
}
pub fn transform_non(
    b: &mut B,
    _: Base<CartesianTransformationOperator3DnonUniform>,
) -> (CartesianTransformationOperator3DnonUniform, Args) {
    let (p, n) = b.or("IFCCARTESIANPOINT@3", point3);
    let ((u, i), (v, j), (w, k)) =
        (b.or("IFCDIRECTION@3", dir3), b.or("IFCDIRECTION@3", dir3), b.or("IFCDIRECTION@3", dir3));
    let ((s, q), (y, qy), (z, qz)) = (b.real(), b.real(), b.real());
    (
        CartesianTransformationOperator3DnonUniform::new(p, (u, v, w), (s, y, z), b.ifc),
        vec![i, j, n, q, k, qy, qz],
    )
}
pub fn mapped(b: &mut B, _: Base<MappedItem>) -> (MappedItem, Args) {
    let (m, n) = b.or("IFCREPRESENTATIONMAP", rep_map);
    if b.r.chance(50) {
        let (t, k) = b.or("IFCCARTESIANTRANSFORMATIONOPERATOR3D", transform);
        (MappedItem::new(m, t, b.ifc), vec![n, k])
    } else {
        let (t, k) = b.or("IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", transform_non);
        (MappedItem::new(m, t, b.ifc), vec![n, k])
    }
}
/// what the ready-made shapes consist of
fn ready(b: &mut B, sub: Node, profile: Node, dir: [f64; 3], depth: Node) -> Args {
    let d = b.sym("IFCDIRECTION@3", vec![Node::List(dir.iter().map(|x| Node::F(*x)).collect())]);
    let solid = b.sym("IFCEXTRUDEDAREASOLID", vec![profile, Node::Null, d, depth]);
    let rep = b.sym(
        "IFCSHAPEREPRESENTATION",
        vec![sub, Node::Str("Body".into()), Node::Str("SweptSolid".into()), Node::List(vec![solid])],
    );
    vec![Node::Null, Node::Null, Node::List(vec![rep])]
}
fn outline(b: &mut B, kw: &str, points: Vec<Vec<f64>>) -> Node {
    let l = points.into_iter().map(|p| Node::List(p.into_iter().map(Node::F).collect())).collect();
    let l = b.sym(kw, vec![Node::List(l), Node::Null]);
    let c = b.sym("IFCINDEXEDPOLYCURVE", vec![l, Node::Null, Node::Null]);
    b.sym("IFCARBITRARYCLOSEDPROFILEDEF", vec![Node::Enum("AREA".into()), Node::Null, c])
}
pub fn product_shape(b: &mut B, base: Base<ProductDefinitionShape>) -> (ProductDefinitionShape, Args) {
    let (mut x, mut a) = match base {
        Some(x) => x,
        None if b.r.chance(60) => (
            ProductDefinitionShape::new(),
            vec![Node::Null, Node::Null, Node::List(vec![])],
        ),
        None => {
            let (sub, s) = b.id("IFCGEOMETRICREPRESENTATIONSUBCONTEXT", subcontext);
            let (t, tn) = b.real();
            match b.r.below(4) {
                0 => {
                    let ((l, ln), (h, hn)) = (b.real(), b.real());
                    let d = [0.0, b.r.range(-5, 5) as f64, 2.0];
                    let p = b.sym("IFCCARTESIANPOINT@2", vec![Node::List(vec![Node::F(l / 2.0), Node::F(t / 2.0)])]);
                    let ax = b.sym("IFCAXIS2PLACEMENT2D", vec![p, Node::Null]);
                    let rect = b.sym("IFCRECTANGLEPROFILEDEF", vec![Node::Enum("AREA".into()), Node::Null, ax, ln, tn]);
                    let a = ready(b, s, rect, d, hn);
                    let dir = Direction3D::from(DVec3::from_array(d));
                    (ProductDefinitionShape::new_rectangular_shape(l, h, t, dir, sub, b.ifc), a)
                }
                1 => {
                    let v: Vec<DVec2> = (0..1 + b.r.below(5)).map(|_| b.v2().0).collect();
                    let p = outline(b, "IFCCARTESIANPOINTLIST2D", v.iter().map(|p| vec![p.x, p.y]).collect());
                    let a = ready(b, s, p, [0.0, 0.0, 1.0], tn);
                    (ProductDefinitionShape::new_horizontal_arbitrary_shape(v.into_iter(), t, sub, b.ifc), a)
                }
                2 => {
                    let v: Vec<DVec2> = (0..1 + b.r.below(5)).map(|_| b.v2().0).collect();
                    let p = outline(b, "IFCCARTESIANPOINTLIST3D", v.iter().map(|p| vec![p.x, 0.0, p.y]).collect());
                    let a = ready(b, s, p, [0.0, 1.0, 0.0], tn);
                    (ProductDefinitionShape::new_vertical_arbitrary_shape(v.into_iter(), t, sub, b.ifc), a)
                }
                _ => {
                    let v: Vec<DVec3> = (0..1 + b.r.below(5)).map(|_| b.v3().0).collect();
                    let d = [1.0, b.r.range(-5, 5) as f64, b.r.range(-5, 5) as f64];
                    let p = outline(b, "IFCCARTESIANPOINTLIST3D", v.iter().map(|p| vec![p.x, p.y, p.z]).collect());
                    let a = ready(b, s, p, d, tn);
                    let d = DVec3::from_array(d);
                    (ProductDefinitionShape::new_arbitrary_shape(v.into_iter(), t, d, sub, b.ifc), a)
                }
            }
        }
    };
    set!(b, x, a, 0, text name);
    set!(b, x, a, 1, text description);
    more!(b, x, a, 2, or add_representation "IFCSHAPEREPRESENTATION" shape);
    (x, a)
}

// ------------------------------------------------------------------------------ actors

pub fn actor_role(b: &mut B, _: Base<ActorRole>) -> (ActorRole, Args) {
    let (r, n) = role(b);
    let mut x = ActorRole {
        role: r,
        user_defined_role: None.into(),
        description: None.into(),
    };
    let mut a = vec![n, Node::Null, Node::Null];
    set!(b, x, a, 1, ftext user_defined_role);
    set!(b, x, a, 2, ftext description);
    (x, a)
}
/// lists of texts can only be made through a person
macro_rules! texts {
    ($b:ident, $x:ident, $a:ident, $i:expr, $m:ident) => {
        if $b.some() {
            let n = 1 + $b.r.below(3);
            let (t, l) = tags($b, n);
            $x.$m = t.into_iter().fold(Person::empty(), Person::add_prefix_title).prefix_titles;
            $a[$i] = l;
        }
    };
}
pub fn telecom(b: &mut B, base: Base<TelecomAddress>) -> (TelecomAddress, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        (
            TelecomAddress {
                purpose: None.into(),
                description: None.into(),
                user_defined_purpose: None.into(),
                telephone_numbers: None.into(),
                facsimile_numbers: None.into(),
                pager_number: None.into(),
                email_addresses: None.into(),
                homepage_url: None.into(),
            },
            vec![Node::Null; 8],
        )
    });
    set!(b, x, a, 0, ftext purpose);
    set!(b, x, a, 1, ftext description);
    set!(b, x, a, 2, ftext user_defined_purpose);
    texts!(b, x, a, 3, telephone_numbers);
    texts!(b, x, a, 4, facsimile_numbers);
    set!(b, x, a, 5, ftext pager_number);
    texts!(b, x, a, 6, email_addresses);
    set!(b, x, a, 7, ftext homepage_url);
    (x, a)
}
pub fn postal(b: &mut B, base: Base<PostalAddress>) -> (PostalAddress, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        (
            PostalAddress {
                purpose: None.into(),
                description: None.into(),
                user_defined_purpose: None.into(),
                internal_location: None.into(),
                address_lines: None.into(),
                postal_box: None.into(),
                town: None.into(),
                region: None.into(),
                postal_code: None.into(),
                country: None.into(),
            },
            vec![Node::Null; 10],
        )
    });
    set!(b, x, a, 0, ftext purpose);
    set!(b, x, a, 1, ftext description);
    set!(b, x, a, 2, ftext user_defined_purpose);
    set!(b, x, a, 3, ftext internal_location);
    texts!(b, x, a, 4, address_lines);
    set!(b, x, a, 5, ftext postal_box);
    texts!(b, x, a, 6, town);
    set!(b, x, a, 7, ftext region);
    set!(b, x, a, 8, ftext postal_code);
    set!(b, x, a, 9, ftext country);
    (x, a)
}
pub fn person(b: &mut B, base: Base<Person>) -> (Person, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| (Person::empty(), vec![Node::Null; 8]));
    set!(b, x, a, 0, text id);
    set!(b, x, a, 1, text family_name);
    set!(b, x, a, 2, text given_name);
    more!(b, x, a, 3, text add_middle_name);
    more!(b, x, a, 4, text add_prefix_title);
    more!(b, x, a, 5, text add_suffix_title);
    more!(b, x, a, 6, or add_role "IFCACTORROLE" actor_role);
    more!(b, x, a, 7, or add_address "IFCPOSTALADDRESS" postal);
    more!(b, x, a, 7, or add_address "IFCTELECOMADDRESS" telecom);
    (x, a)
}
pub fn organization(b: &mut B, base: Base<Organization>) -> (Organization, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let ((i, p), (n, q), (d, s)) = (b.text(), b.text(), b.text());
        let mut a = vec![Node::Null, q, Node::Null, Node::Null, Node::Null];
        let (mut io, mut d_) = (None, None);
        if b.some() {
            io = Some(i.as_str());
            a[0] = p;
        }
        if b.some() {
            d_ = Some(d.as_str());
            a[2] = s;
        }
        (Organization::new(io, n, d_), a)
    });
    more!(b, x, a, 3, or add_role "IFCACTORROLE" actor_role);
    more!(b, x, a, 4, or add_address "IFCTELECOMADDRESS" telecom);
    more!(b, x, a, 4, or add_address "IFCPOSTALADDRESS" postal);
    (x, a)
}
pub fn person_org(b: &mut B, base: Base<PersonAndOrganization>) -> (PersonAndOrganization, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (p, n) = b.id("IFCPERSON", person);
        let (o, m) = b.id("IFCORGANIZATION", organization);
        (PersonAndOrganization::new(p, o), vec![n, m, Node::Null])
    });
    more!(b, x, a, 2, or add_role "IFCACTORROLE" actor_role);
    (x, a)
}
pub fn application(b: &mut B, _: Base<Application>) -> (Application, Args) {
    let (o, n) = b.id("IFCORGANIZATION", organization);
    let ((u, i), (v, j), (w, k)) = (b.text(), b.text(), b.text());
    (Application::new(o, u, v, w), vec![n, i, j, k])
}
fn stamp(b: &mut B) -> (IfcTimestamp, Node) {
    let s = match b.r.below(3) {
        0 => b.r.range(0, 86400 * 400),
        1 => b.r.range(1_000_000_000, 2_000_000_000),
        _ => b.r.range(0, 253_402_300_799),
    };
    let s = if b.r.chance(15) { -s } else { s };
    // (a stamp is the whole seconds that have passed)
    let n = if b.r.chance(40) { b.r.below(1_000_000_000) as u32 } else { 0 };
    (
        IfcTimestamp(chrono::DateTime::from_timestamp(s, n).unwrap()),
        Node::Num(s.to_string()),
    )
}
pub fn owner_history(b: &mut B, base: Base<OwnerHistory>) -> (OwnerHistory, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (c, n) = change_action(b);
        let (t, m) = stamp(b);
        let mut a = vec![Node::Null; 8];
        a[3] = n;
        a[7] = m;
        (OwnerHistory::new(c, t), a)
    });
    if b.some() {
        let (v, n) = b.or("IFCPERSONANDORGANIZATION", person_org);
        x = x.owning_user(v, b.ifc);
        a[0] = n.clone();
        a[5] = n;
    }
    if b.some() {
        let (v, n) = b.or("IFCAPPLICATION", application);
        x = x.owning_application(v, b.ifc);
        a[1] = n.clone();
        a[6] = n;
    }
    set!(b, x, a, 2, en state access_state);
    if b.some() {
        let (v, n) = stamp(b);
        x = x.last_modified_date(v);
        a[4] = n;
    }
    set!(b, x, a, 5, or last_modifying_user "IFCPERSONANDORGANIZATION" person_org);
    set!(b, x, a, 6, or last_modifying_application "IFCAPPLICATION" application);
    (x, a)
}

// ------------------------------------------------------------------------------ units, materials, properties

pub fn si_unit(b: &mut B, _: Base<SiUnit>) -> (SiUnit, Args) {
    let ((t, p), (x, q), (n, s)) = (ifc_unit_enum(b), ifc_prefix(b), ifc_unit_name(b));
    let (i, j) = (b.r.chance(70), b.r.chance(50));
    (
        SiUnit::new(i.then_some(t), j.then_some(x), n),
        vec![
            Node::Star,
            if i { p } else { Node::Null },
            if j { q } else { Node::Null },
            s,
        ],
    )
}
pub fn measure(b: &mut B, _: Base<MeasureWithUnit>) -> (MeasureWithUnit, Args) {
    let (v, n) = b.real();
    let (u, k) = b.id("IFCSIUNIT", si_unit);
    (
        MeasureWithUnit {
            value: PlaneAngleMeasure { value: v.into() }.into(),
            unit: u,
        },
        vec![Node::Typed("IFCPLANEANGLEMEASURE".into(), vec![n]), k],
    )
}
pub fn unit_element(b: &mut B, _: Base<DerivedUnitElement>) -> (DerivedUnitElement, Args) {
    let (u, k) = b.id("IFCSIUNIT", si_unit);
    let (e, n) = b.int();
    (
        DerivedUnitElement {
            unit: u,
            exponent: e.into(),
        },
        vec![k, n],
    )
}
pub fn monetary(b: &mut B, _: Base<MonetaryUnit>) -> (MonetaryUnit, Args) {
    let (t, n) = b.text();
    (MonetaryUnit { currency: t.into() }, vec![n])
}
pub fn exponents(b: &mut B, _: Base<DimensionalExponents>) -> (DimensionalExponents, Args) {
    let v: Vec<i32> = (0..7)
        .map(|_| {
            if b.r.chance(10) {
                *b.r.pick(&[i32::MIN, i32::MAX])
            } else {
                b.r.range(-9, 9) as i32
            }
        })
        .collect();
    (
        DimensionalExponents {
            length: v[0],
            mass: v[1],
            time: v[2],
            electric_current: v[3],
            thermodynamic_temperature: v[4],
            amount_of_substance: v[5],
            luminouse_intensity: v[6],
        },
        v.iter().map(|x| Node::Num(x.to_string())).collect(),
    )
}
pub fn units(b: &mut B, _: Base<UnitAssigment>) -> (UnitAssigment, Args) {
    let (v, l): (Vec<_>, Vec<_>) = (0..b.r.below(5)).map(|_| b.or("IFCSIUNIT", si_unit)).unzip();
    (UnitAssigment::new(v, b.ifc), vec![Node::List(l)])
}
pub fn material(b: &mut B, base: Base<Material>) -> (Material, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        (Material::new(t), vec![n, Node::Null, Node::Null])
    });
    set!(b, x, a, 1, text description);
    set!(b, x, a, 2, text category);
    (x, a)
}
pub fn layer(b: &mut B, base: Base<MaterialLayer>) -> (MaterialLayer, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let ((t, n), (v, k)) = (b.real(), b.flag());
        let mut a = vec![Node::Null; 7];
        a[1] = n;
        a[2] = k;
        (MaterialLayer::new(t, v), a)
    });
    set!(b, x, a, 0, or material "IFCMATERIAL" material);
    set!(b, x, a, 3, text name);
    set!(b, x, a, 4, text description);
    set!(b, x, a, 5, text category);
    if b.some() {
        let (v, n) = b.int();
        x = x.priority(v);
        a[6] = n;
    }
    (x, a)
}
pub fn layer_set(b: &mut B, base: Base<MaterialLayerSet>) -> (MaterialLayerSet, Args) {
    let (mut x, mut a) =
        base.unwrap_or_else(|| (MaterialLayerSet::new(), vec![Node::List(vec![]), Node::Null, Node::Null]));
    more!(b, x, a, 0, or add_layer "IFCMATERIALLAYER" layer);
    set!(b, x, a, 1, text name);
    set!(b, x, a, 2, text description);
    (x, a)
}
pub fn usage(b: &mut B, base: Base<MaterialLayerSetUsage>) -> (MaterialLayerSetUsage, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (s, n) = b.or("IFCMATERIALLAYERSET", layer_set);
        let ((d, p), (e, q), (o, t)) = (layer_set_direction_enum(b), direction_sense_enum(b), b.real());
        (MaterialLayerSetUsage::new(s, d, e, o, b.ifc), vec![n, p, q, t, Node::Null])
    });
    set!(b, x, a, 4, real reference_extent);
    (x, a)
}
pub fn constituent(b: &mut B, base: Base<MaterialConstituent>) -> (MaterialConstituent, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (m, n) = b.id("IFCMATERIAL", material);
        (MaterialConstituent::new(m), vec![Node::Null, Node::Null, n, Node::Null, Node::Null])
    });
    if b.r.chance(25) {
        let (m, n) = b.or("IFCMATERIAL", material);
        x = x.material(m, b.ifc);
        a[2] = n;
    }
    set!(b, x, a, 0, text name);
    set!(b, x, a, 1, text description);
    set!(b, x, a, 3, real fraction);
    set!(b, x, a, 4, text category);
    (x, a)
}
pub fn constituents(b: &mut B, base: Base<MaterialConstituentSet>) -> (MaterialConstituentSet, Args) {
    let (mut x, mut a) =
        base.unwrap_or_else(|| (MaterialConstituentSet::new(), vec![Node::Null, Node::Null, Node::List(vec![])]));
    set!(b, x, a, 0, text name);
    set!(b, x, a, 1, text description);
    more!(b, x, a, 2, or add_constituent "IFCMATERIALCONSTITUENT" constituent);
    (x, a)
}
pub fn single_value(b: &mut B, base: Base<PropertySingleValue>) -> (PropertySingleValue, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let (v, k, n2) = match b.r.below(5) {
            0 => {
                let (v, n) = b.flag();
                (IfcValue::Bool(BoolValue(v.into())), "IFCBOOLEAN", n)
            }
            1 => {
                let (v, n) = b.text();
                (IfcValue::Label(LabelValue(v.into())), "IFCLABEL", n)
            }
            2 => {
                let (v, n) = b.real();
                (IfcValue::Real(v.into()), "IFCREAL", n)
            }
            3 => {
                let (v, n) = b.text();
                (IfcValue::Identifier(IdentifierValue(v.into())), "IFCIDENTIFIER", n)
            }
            _ => {
                let (v, n) = b.real();
                (IfcValue::ThermalTransmittance(v.into()), "IFCTHERMALTRANSMITTANCEMEASURE", n)
            }
        };
        let (mut u, mut un) = (None, Node::Null);
        if b.some() {
            let (i, n) = b.id("IFCSIUNIT", si_unit);
            u = Some(i.id());
            un = n;
        }
        (
            PropertySingleValue::new(t, v, u),
            vec![n, Node::Null, Node::Typed(k.into(), vec![n2]), un],
        )
    });
    if b.r.chance(20) {
        let (t, n) = b.text();
        x = x.name(t);
        a[0] = n;
    }
    set!(b, x, a, 1, text description);
    (x, a)
}
pub fn property_set(b: &mut B, base: Base<PropertySet>) -> (PropertySet, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let (v, l): (Vec<_>, Vec<_>) =
            (0..b.r.below(4)).map(|_| b.id("IFCPROPERTYSINGLEVALUE", single_value)).unzip();
        let mut a = root_args(5, n);
        a[4] = Node::List(l);
        (PropertySet::new(t, v), a)
    });
    root!(b, x, a);
    (x, a)
}

// ------------------------------------------------------------------------------ types, products

macro_rules! etype {
    ($b:ident, $x:ident, $a:ident) => {
        root!($b, $x, $a);
        set!($b, $x, $a, 7, text tag);
        set!($b, $x, $a, 8, text element_type);
    };
}
macro_rules! simple_type {
    ($f:ident, $t:ident, $e:ident) => {
        pub fn $f(b: &mut B, base: Base<$t>) -> ($t, Args) {
            let (mut x, mut a) = base.unwrap_or_else(|| {
                let (t, n) = b.text();
                let (v, k) = $e(b);
                let mut a = root_args(10, n);
                a[9] = k;
                ($t::new(t, v), a)
            });
            etype!(b, x, a);
            (x, a)
        }
    };
}
simple_type!(wall_type, WallType, wall_type_enum);
simple_type!(slab_type, SlabType, slab_type_enum);
simple_type!(roof_type, RoofType, roof_type_enum);
simple_type!(shading_type, ShadingDeviceType, shading_device_type_enum);
pub fn space_type(b: &mut B, base: Base<SpaceType>) -> (SpaceType, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let (v, k) = space_type_enum(b);
        let mut a = root_args(11, n);
        a[9] = k;
        (SpaceType::new(t, v), a)
    });
    etype!(b, x, a);
    set!(b, x, a, 10, ftext long_name);
    (x, a)
}
pub fn door_type(b: &mut B, base: Base<DoorType>) -> (DoorType, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let ((v, k), (o, p)) = (door_type_enum(b), door_operation_type_enum(b));
        let mut a = root_args(13, n);
        a[9] = k;
        a[10] = p;
        (DoorType::new(t, v, o), a)
    });
    etype!(b, x, a);
    set!(b, x, a, 11, fbool parameter_takes_precedence);
    set!(b, x, a, 12, ftext user_defined_partitioning_type);
    (x, a)
}
pub fn window_type(b: &mut B, base: Base<WindowType>) -> (WindowType, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let ((v, k), (o, p)) = (window_type_enum(b), window_partitioning_type_enum(b));
        let mut a = root_args(13, n);
        a[9] = k;
        a[10] = p;
        (WindowType::new(t, v, o), a)
    });
    etype!(b, x, a);
    set!(b, x, a, 11, fbool parameter_takes_precedence);
    set!(b, x, a, 12, ftext user_defined_partitioning_type);
    (x, a)
}
macro_rules! product {
    ($b:ident, $x:ident, $a:ident) => {
        root!($b, $x, $a);
        set!($b, $x, $a, 4, text object_type);
        set!($b, $x, $a, 5, or object_placement "IFCLOCALPLACEMENT" local_placement);
        set!($b, $x, $a, 6, or representation "IFCPRODUCTDEFINITIONSHAPE" product_shape);
    };
}
macro_rules! named {
    ($b:ident, $t:ident, $base:ident, $n:expr) => {
        $base.unwrap_or_else(|| {
            let (t, n) = $b.text();
            ($t::new(t), root_args($n, n))
        })
    };
}
macro_rules! spatial {
    ($b:ident, $x:ident, $a:ident) => {
        product!($b, $x, $a);
        set!($b, $x, $a, 7, text long_name);
        set!($b, $x, $a, 8, en composition_type composition_type_enum);
    };
}
macro_rules! element {
    ($b:ident, $x:ident, $a:ident) => {
        product!($b, $x, $a);
        set!($b, $x, $a, 7, text tag);
    };
}
fn degrees(b: &mut B) -> (Vec<i64>, Node) {
    let (v, l) = (0..b.r.below(5)).map(|_| b.int()).unzip();
    (v, Node::List(l))
}
pub fn site(b: &mut B, base: Base<Site>) -> (Site, Args) {
    let (mut x, mut a) = named!(b, Site, base, 14);
    spatial!(b, x, a);
    if b.some() {
        let (v, n) = degrees(b);
        x = x.ref_latitude(v);
        a[9] = n;
    }
    if b.some() {
        let (v, n) = degrees(b);
        x = x.ref_longitude(v);
        a[10] = n;
    }
    set!(b, x, a, 11, real ref_elevation);
    set!(b, x, a, 12, text land_title_number);
    set!(b, x, a, 13, or site_address "IFCPOSTALADDRESS" postal);
    (x, a)
}
pub fn building(b: &mut B, base: Base<Building>) -> (Building, Args) {
    let (mut x, mut a) = named!(b, Building, base, 12);
    spatial!(b, x, a);
    set!(b, x, a, 9, real elevation_of_ref_height);
    set!(b, x, a, 10, real elevation_of_terrain);
    set!(b, x, a, 11, or building_address "IFCPOSTALADDRESS" postal);
    (x, a)
}
pub fn storey(b: &mut B, base: Base<Storey>) -> (Storey, Args) {
    let (mut x, mut a) = named!(b, Storey, base, 10);
    spatial!(b, x, a);
    set!(b, x, a, 9, freal elevation);
    (x, a)
}
pub fn space(b: &mut B, base: Base<Space>) -> (Space, Args) {
    let (mut x, mut a) = named!(b, Space, base, 11);
    spatial!(b, x, a);
    set!(b, x, a, 9, en predefined_type space_type_enum);
    set!(b, x, a, 10, real elevation_with_flooring);
    (x, a)
}
pub fn project(b: &mut B, base: Base<Project>) -> (Project, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let mut a = root_args(9, n);
        a[7] = Node::List(vec![]);
        (Project::new(t), a)
    });
    root!(b, x, a);
    set!(b, x, a, 4, text object_type);
    set!(b, x, a, 5, text long_name);
    set!(b, x, a, 6, text phase);
    more!(b, x, a, 7, or add_context "IFCGEOMETRICREPRESENTATIONCONTEXT" context);
    set!(b, x, a, 8, or unit_assignment "IFCUNITASSIGNMENT" units);
    (x, a)
}
pub fn wall(b: &mut B, base: Base<Wall>) -> (Wall, Args) {
    let (mut x, mut a) = named!(b, Wall, base, 9);
    element!(b, x, a);
    set!(b, x, a, 8, or predefined_type "IFCWALLTYPE" wall_type);
    (x, a)
}
macro_rules! plain {
    ($f:ident, $t:ident, $e:ident) => {
        pub fn $f(b: &mut B, base: Base<$t>) -> ($t, Args) {
            let (mut x, mut a) = named!(b, $t, base, 9);
            element!(b, x, a);
            set!(b, x, a, 8, en predefined_type $e);
            (x, a)
        }
    };
}
plain!(slab, Slab, slab_type_enum);
plain!(roof, Roof, roof_type_enum);
plain!(shading, ShadingDevice, shading_device_type_enum);
plain!(opening, OpeningElement, opening_element_type_enum);
pub fn door(b: &mut B, base: Base<Door>) -> (Door, Args) {
    let (mut x, mut a) = named!(b, Door, base, 13);
    element!(b, x, a);
    set!(b, x, a, 8, real overall_height);
    set!(b, x, a, 9, real overall_width);
    set!(b, x, a, 10, en predefined_type door_type_enum);
    set!(b, x, a, 11, en operation_type door_operation_type_enum);
    set!(b, x, a, 12, ftext user_defining_operation_type);
    (x, a)
}
pub fn window(b: &mut B, base: Base<Window>) -> (Window, Args) {
    let (mut x, mut a) = named!(b, Window, base, 13);
    element!(b, x, a);
    set!(b, x, a, 8, real overall_height);
    set!(b, x, a, 9, real overall_width);
    set!(b, x, a, 10, en predefined_type window_type_enum);
    set!(b, x, a, 11, en partitioning_type window_partitioning_type_enum);
    set!(b, x, a, 12, ftext user_defining_partitioning_type);
    (x, a)
}

// ------------------------------------------------------------------------------ relations

/// one of several kinds of object at a place that takes any of them
macro_rules! one_of {
    ($b:ident, |$v:ident, $n:ident| $e:expr; $($kw:literal $f:path),+) => {{
        let all = [$($kw),+];
        let pick = *$b.r.pick(&all);
        $(if pick == $kw {
            let ($v, $n) = $b.or($kw, $f);
            $e
        } else)+ { unreachable!() }
    }};
}
macro_rules! structure {
    ($b:ident, |$v:ident, $n:ident| $e:expr) => {
        one_of!($b, |$v, $n| $e; "IFCSITE" site, "IFCBUILDING" building, "IFCBUILDINGSTOREY" storey, "IFCSPACE" space,
            "IFCOPENINGELEMENT" opening, "IFCSLAB" slab, "IFCROOF" roof, "IFCWALL" wall, "IFCWINDOW" window,
            "IFCDOOR" door, "IFCSHADINGDEVICE" shading)
    };
}
macro_rules! building_element {
    ($b:ident, |$v:ident, $n:ident| $e:expr) => {
        one_of!($b, |$v, $n| $e; "IFCBUILDING" building, "IFCOPENINGELEMENT" opening, "IFCSLAB" slab, "IFCROOF" roof,
            "IFCWALL" wall, "IFCWINDOW" window, "IFCDOOR" door, "IFCSHADINGDEVICE" shading)
    };
}
macro_rules! material_object {
    ($b:ident, |$v:ident, $n:ident| $e:expr) => {
        one_of!($b, |$v, $n| $e; "IFCWALL" wall, "IFCSLAB" slab, "IFCROOF" roof, "IFCWINDOW" window, "IFCDOOR" door,
            "IFCSHADINGDEVICE" shading, "IFCWALLTYPE" wall_type, "IFCSLABTYPE" slab_type, "IFCROOFTYPE" roof_type,
            "IFCWINDOWTYPE" window_type, "IFCDOORTYPE" door_type, "IFCSHADINGDEVICETYPE" shading_type)
    };
}
/// end points and the root's attributes: [root.., x, y]
fn ends(name: Node, x: Node, y: Node) -> Args {
    let mut a = root_args(6, name);
    a[4] = x;
    a[5] = y;
    a
}
pub fn rel_aggregates(b: &mut B, base: Base<RelAggregates>) -> (RelAggregates, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let parent = match b.any("IFCPROJECT IFCSITE IFCBUILDING IFCBUILDINGSTOREY") {
            Some(i) => i,
            None => b.id("IFCPROJECT", project).0.id().0 as u64,
        };
        let kids: Vec<u64> =
            (0..b.r.below(4)).filter_map(|_| b.any("IFCSITE IFCBUILDING IFCBUILDINGSTOREY IFCSPACE")).collect();
        let a = ends(n, Node::Ref(parent), Node::List(kids.iter().map(|k| Node::Ref(*k)).collect()));
        (
            RelAggregates::new(t, Id(parent as usize), kids.into_iter().map(|k| Id(k as usize))),
            a,
        )
    });
    root!(b, x, a);
    (x, a)
}
pub fn rel_material(b: &mut B, base: Base<RelAssociatesMaterial>) -> (RelAssociatesMaterial, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        one_of!(b, |v, k| (RelAssociatesMaterial::new(t, v, b.ifc), ends(n, Node::List(vec![]), k));
            "IFCMATERIAL" material, "IFCMATERIALLAYERSET" layer_set, "IFCMATERIALLAYERSETUSAGE" usage,
            "IFCMATERIALCONSTITUENTSET" constituents)
    });
    root!(b, x, a);
    for _ in 0..b.r.below(4) {
        material_object!(b, |v, n| {
            if b.r.chance(50) {
                x = x.relate_obj(v, b.ifc);
            } else {
                x.relate_push(v, b.ifc);
            }
            push(&mut a[4], n);
        });
    }
    (x, a)
}
pub fn rel_contained(
    b: &mut B,
    base: Base<RelContainedInSpatialStructure>,
) -> (RelContainedInSpatialStructure, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        structure!(b, |v, k| (
            RelContainedInSpatialStructure::new(t, v, b.ifc),
            ends(n, Node::List(vec![]), k)
        ))
    });
    root!(b, x, a);
    for _ in 0..b.r.below(4) {
        structure!(b, |v, n| {
            x = x.relate_structure(v, b.ifc);
            push(&mut a[4], n);
        });
    }
    (x, a)
}
pub fn rel_declares(b: &mut B, base: Base<RelDeclares>) -> (RelDeclares, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let (p, k) = b.or("IFCPROJECT", project);
        (RelDeclares::new(t, p, b.ifc), ends(n, k, Node::List(vec![])))
    });
    root!(b, x, a);
    for _ in 0..b.r.below(4) {
        material_object!(b, |v, n| {
            x = x.relate_definition(v, b.ifc);
            push(&mut a[5], n);
        });
    }
    (x, a)
}
pub fn rel_type(b: &mut B, base: Base<RelDefinesByType>) -> (RelDefinesByType, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        one_of!(b, |v, k| (RelDefinesByType::new(t, v, b.ifc), ends(n, Node::List(vec![]), k));
            "IFCWALLTYPE" wall_type, "IFCSLABTYPE" slab_type, "IFCROOFTYPE" roof_type, "IFCWINDOWTYPE" window_type,
            "IFCDOORTYPE" door_type, "IFCSPACETYPE" space_type, "IFCSHADINGDEVICETYPE" shading_type)
    });
    root!(b, x, a);
    for _ in 0..b.r.below(4) {
        structure!(b, |v, n| {
            x = x.relate_obj(v, b.ifc);
            push(&mut a[4], n);
        });
    }
    (x, a)
}
pub fn rel_properties(b: &mut B, base: Base<RelDefinesByProperties>) -> (RelDefinesByProperties, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let (v, k) = b.or("IFCPROPERTYSET", property_set);
        (RelDefinesByProperties::new(t, v, b.ifc), ends(n, Node::List(vec![]), k))
    });
    root!(b, x, a);
    for _ in 0..b.r.below(4) {
        structure!(b, |v, n| {
            x = x.relate_obj(v, b.ifc);
            push(&mut a[4], n);
        });
    }
    (x, a)
}
pub fn rel_voids(b: &mut B, base: Base<RelVoidsElement>) -> (RelVoidsElement, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let (o, k) = b.or("IFCOPENINGELEMENT", opening);
        building_element!(b, |v, e| (RelVoidsElement::new(t, v, o, b.ifc), ends(n, e, k)))
    });
    root!(b, x, a);
    (x, a)
}
pub fn rel_fills(b: &mut B, base: Base<RelFillsElement>) -> (RelFillsElement, Args) {
    let (mut x, mut a) = base.unwrap_or_else(|| {
        let (t, n) = b.text();
        let (o, k) = b.or("IFCOPENINGELEMENT", opening);
        building_element!(b, |v, e| (RelFillsElement::new(t, o, v, b.ifc), ends(n, k, e)))
    });
    root!(b, x, a);
    (x, a)
}

// ------------------------------------------------------------------------------ operations

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    /// insert_new
    New,
    /// under a number of one's own
    At { id: u64 },
    /// in place of an existing entity of the kind
    Replace,
    /// an existing entity taken out, changed through its setters, put back
    Change,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum EOp {
    Add { kind: u8, how: How, seed: u64 },
    Remove { seed: u64 },
    /// a text changed in place
    Describe { seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    pub ops: Vec<EOp>,
    pub save: Save,
    pub killed: bool,
    pub wfaults: Vec<IoFault>,
    pub rfaults: Vec<IoFault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C22Plan {
    pub env: Env,
    pub lives: Vec<Life>,
}

fn referenced(m: &EModel) -> BTreeSet<u64> {
    let mut v = vec![];
    for (_, a) in m.recs.values() {
        a.iter().for_each(|n| step::refs(n, &mut v));
    }
    v.into_iter().collect()
}

fn put<T: IfcType>(b: &mut B, kw: &str, how: &How, f: Make<T>) {
    let own = |b: &mut B| {
        let v = b.have(kw);
        if v.is_empty() {
            None
        } else {
            Some(*b.r.pick(&v))
        }
    };
    match how {
        How::Replace => {
            if let Some(id) = own(b) {
                b.me = Some(id);
                let (x, a) = f(b, None);
                b.me = None;
                assert!(b.ifc.data.insert(Id(id as usize), x).is_some(), "#{id} was there");
                b.m.recs.insert(id, (kw.into(), a));
                return;
            }
        }
        How::Change => {
            // the greatest number stays taken, or it would be given out again
            let top = b.m.recs.keys().copied().filter(|i| *i < SYM).max();
            if let Some(id) = own(b).filter(|i| Some(*i) != top) {
                let Some(x) = b.ifc.data.remove(Id(id as usize)) else {
                    panic!("#{id} cannot be taken out");
                };
                let Ok(x) = x.downcast::<T>() else {
                    panic!("#{id} is no {}", std::any::type_name::<T>());
                };
                b.me = Some(id);
                let a = b.m.recs[&id].1.clone();
                let (x, a) = f(b, Some((*x, a)));
                b.me = None;
                b.ifc.data.insert(Id(id as usize), x);
                b.m.recs.insert(id, (kw.into(), a));
                return;
            }
        }
        _ => {}
    }
    let (x, a) = f(b, None);
    let id = match how {
        How::At { id } => {
            let (i, k) = (Id(*id as usize), b.m.recs.get(id).map(|r| r.0.as_str()));
            let free = match k {
                None => !b.ifc.data.contains(&i),
                Some(k) => k == kw,
            };
            if *id > 0 && free {
                b.ifc.data.insert(i, x);
                *id
            } else {
                b.ifc.data.insert_new(x).id().0 as u64
            }
        }
        _ => {
            let id = b.ifc.data.insert_new(x).id().0 as u64;
            assert!(!b.m.recs.contains_key(&id), "#{id} was given out twice");
            id
        }
    };
    b.m.recs.insert(id, (kw.into(), a));
}

macro_rules! kinds {
    ($($kw:literal $f:ident,)+) => {
        pub const KINDS: &[&str] = &[$($kw),+];
        fn add(b: &mut B, kind: u8, how: &How) {
            let kw = KINDS[kind as usize % KINDS.len()];
            $(if kw == $kw {
                return put(b, kw, how, $f);
            })+
        }
    };
}
kinds! {
    "IFCCARTESIANPOINT@2" point2, "IFCCARTESIANPOINT@3" point3, "IFCDIRECTION@2" dir2, "IFCDIRECTION@3" dir3,
    "IFCAXIS2PLACEMENT2D" axis2, "IFCAXIS2PLACEMENT3D" axis3, "IFCLOCALPLACEMENT" local_placement,
    "IFCGEOMETRICREPRESENTATIONCONTEXT" context, "IFCGEOMETRICREPRESENTATIONSUBCONTEXT" subcontext,
    "IFCCARTESIANPOINTLIST2D" list2, "IFCCARTESIANPOINTLIST3D" list3, "IFCINDEXEDPOLYCURVE" curve,
    "IFCPOLYLINE" polyline, "IFCRECTANGLEPROFILEDEF" rectangle, "IFCARBITRARYCLOSEDPROFILEDEF" closed_profile,
    "IFCEXTRUDEDAREASOLID" solid, "IFCSHAPEREPRESENTATION" shape, "IFCREPRESENTATIONMAP" rep_map,
    "IFCCARTESIANTRANSFORMATIONOPERATOR3D" transform,
    "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM" transform_non, "IFCMAPPEDITEM" mapped,
    "IFCPRODUCTDEFINITIONSHAPE" product_shape, "IFCACTORROLE" actor_role, "IFCTELECOMADDRESS" telecom,
    "IFCPOSTALADDRESS" postal, "IFCPERSON" person, "IFCORGANIZATION" organization,
    "IFCPERSONANDORGANIZATION" person_org, "IFCAPPLICATION" application, "IFCOWNERHISTORY" owner_history,
    "IFCSIUNIT" si_unit, "IFCMEASUREWITHUNIT" measure, "IFCDERIVEDUNITELEMENT" unit_element,
    "IFCMONETARYUNIT" monetary, "IFCDIMENSIONALEXPONENTS" exponents, "IFCUNITASSIGNMENT" units,
    "IFCMATERIAL" material, "IFCMATERIALLAYER" layer, "IFCMATERIALLAYERSET" layer_set,
    "IFCMATERIALLAYERSETUSAGE" usage, "IFCMATERIALCONSTITUENT" constituent,
    "IFCMATERIALCONSTITUENTSET" constituents, "IFCPROPERTYSINGLEVALUE" single_value,
    "IFCPROPERTYSET" property_set, "IFCWALLTYPE" wall_type, "IFCSLABTYPE" slab_type, "IFCROOFTYPE" roof_type,
    "IFCSHADINGDEVICETYPE" shading_type, "IFCSPACETYPE" space_type, "IFCDOORTYPE" door_type,
    "IFCWINDOWTYPE" window_type, "IFCPROJECT" project, "IFCSITE" site, "IFCBUILDING" building,
    "IFCBUILDINGSTOREY" storey, "IFCSPACE" space, "IFCWALL" wall, "IFCSLAB" slab, "IFCROOF" roof,
    "IFCSHADINGDEVICE" shading, "IFCOPENINGELEMENT" opening, "IFCDOOR" door, "IFCWINDOW" window,
    "IFCRELAGGREGATES" rel_aggregates, "IFCRELASSOCIATESMATERIAL" rel_material,
    "IFCRELCONTAINEDINSPATIALSTRUCTURE" rel_contained, "IFCRELDECLARES" rel_declares,
    "IFCRELDEFINESBYTYPE" rel_type, "IFCRELDEFINESBYPROPERTIES" rel_properties,
    "IFCRELVOIDSELEMENT" rel_voids, "IFCRELFILLSELEMENT" rel_fills,
}

fn describe(b: &mut B) {
    let v = b.have("IFCMATERIAL IFCPERSON IFCWALL IFCPROJECT IFCPROPERTYSINGLEVALUE IFCPOSTALADDRESS");
    if v.is_empty() {
        return;
    }
    let id = *b.r.pick(&v);
    let (t, n) = b.text();
    let kw = b.m.recs[&id].0.clone();
    let i = Id(id as usize);
    let d = &mut b.ifc.data;
    let at = match kw.as_str() {
        "IFCMATERIAL" => {
            d.get_mut(TypedId::<Material>::new(i)).category = Some(t.into()).into();
            2
        }
        "IFCPERSON" => {
            d.get_mut(TypedId::<Person>::new(i)).given_name = Some(t.into()).into();
            2
        }
        "IFCWALL" => {
            d.get_mut(TypedId::<Wall>::new(i)).tag = Some(t.into()).into();
            7
        }
        "IFCPROJECT" => {
            d.get_mut(TypedId::<Project>::new(i)).context_mut().phase = Some(t.into()).into();
            6
        }
        "IFCPROPERTYSINGLEVALUE" => {
            d.get_mut(TypedId::<PropertySingleValue>::new(i)).property_mut().description = Some(t.into()).into();
            1
        }
        _ => {
            d.get_mut(TypedId::<PostalAddress>::new(i)).region = Some(t.into()).into();
            7
        }
    };
    b.m.recs.get_mut(&id).unwrap().1[at] = n;
}

fn run(b: &mut B, o: &EOp) {
    match o {
        EOp::Add { kind, how, seed } => {
            b.r = Rng::new(*seed);
            add(b, *kind, how);
        }
        EOp::Remove { seed } => {
            b.r = Rng::new(*seed);
            let used = referenced(&b.m);
            let v: Vec<u64> = b.m.recs.keys().copied().filter(|i| *i < SYM && !used.contains(i)).collect();
            if !v.is_empty() {
                let id = *b.r.pick(&v);
                assert!(b.ifc.data.remove(Id(id as usize)).is_some(), "#{id} cannot be taken out");
                b.m.recs.remove(&id);
            }
        }
        EOp::Describe { seed } => {
            b.r = Rng::new(*seed);
            describe(b);
        }
    }
}

// ------------------------------------------------------------------------------ judgement

/// finds out which numbers the library gave to nested values
fn bind(want: &Node, have: &Node, map: &mut BTreeMap<u64, u64>, todo: &mut Vec<u64>) -> Result<(), String> {
    match (want, have) {
        (Node::Ref(s), Node::Ref(r)) if *s >= SYM => match map.insert(*s, *r) {
            None => {
                todo.push(*s);
                Ok(())
            }
            Some(x) if x == *r => Ok(()),
            Some(x) => Err(format!("one value is both #{x} and #{r}")),
        },
        (Node::List(w), Node::List(h)) => {
            w.iter().zip(h).try_for_each(|(w, h)| bind(w, h, map, todo))
        }
        _ => Ok(()),
    }
}

fn rename(n: &mut Node, map: &BTreeMap<u64, u64>) {
    match n {
        Node::Ref(s) => {
            if let Some(x) = map.get(s) {
                *s = *x;
            }
        }
        Node::List(l) => l.iter_mut().for_each(|n| rename(n, map)),
        _ => {}
    }
}

/// the file holds the given values and nothing else; the model's numbers become the file's
pub fn judge(m: &mut EModel, text: &str, what: &str) -> Result<(), Viol> {
    let doc = match step::parse_doc(text) {
        Ok(d) => d,
        Err(e) => return viol("unreadable", format!("{what}: {e}")),
    };
    let recs = doc.map();
    if recs.len() != doc.data.len() {
        return viol("twice", format!("{what}: a number stands twice"));
    }
    let mut map = BTreeMap::new();
    let mut todo: Vec<u64> = m.recs.keys().copied().filter(|i| *i < SYM).collect();
    while let Some(i) = todo.pop() {
        let at = map.get(&i).copied().unwrap_or(i);
        let Some((kw, args)) = m.recs.get(&i) else {
            return viol("harness", format!("{what}: no expectation for {i}"));
        };
        let Some(r) = recs.get(&at) else {
            return viol("lost", format!("{what}: #{at} ({kw}) is not in the file"));
        };
        if r.kw != written(kw) || r.args.len() != args.len() {
            return viol("record", format!("{what}: #{at} should be {} {}: {}", written(kw), show(args), r.raw));
        }
        for (w, h) in args.iter().zip(&r.args) {
            if let Err(e) = bind(w, h, &mut map, &mut todo) {
                return viol("record", format!("{what}: #{at} {}: {e}", r.raw));
            }
        }
    }
    // values nothing refers to any more, by their content; the outer ones have the greater numbers
    let mut taken: BTreeSet<u64> = m.recs.keys().copied().filter(|i| *i < SYM).chain(map.values().copied()).collect();
    if taken.len() != m.recs.keys().filter(|i| **i < SYM).count() + map.len() {
        return viol("shared", format!("{what}: two values are one record"));
    }
    let orphans: Vec<u64> = m.recs.keys().copied().filter(|i| *i >= SYM && !map.contains_key(i)).collect();
    for o in orphans.iter().rev() {
        if map.contains_key(o) {
            continue;
        }
        let found = recs.keys().filter(|at| !taken.contains(at)).find_map(|at| {
            let mut t = map.clone();
            fits(m, &recs, *o, *at, &mut t).then_some(t)
        });
        match found {
            Some(t) => {
                map = t;
                taken.extend(map.values());
            }
            None => {
                let (kw, args) = &m.recs[o];
                return viol("lost", format!("{what}: no record is {} {}", written(kw), show(args)));
            }
        }
    }
    if taken.len() != recs.len() {
        let x = recs.iter().find(|(i, _)| !taken.contains(i)).map(|(i, r)| format!("#{i}={}", r.raw));
        return viol("count", format!("{what}: nothing asked for {}", x.unwrap_or_default()));
    }
    m.recs = std::mem::take(&mut m.recs)
        .into_iter()
        .map(|(i, (kw, mut args))| {
            args.iter_mut().for_each(|n| rename(n, &map));
            (map.get(&i).copied().unwrap_or(i), (kw, args))
        })
        .collect();
    for (at, (kw, args)) in m.recs.iter_mut() {
        let r = recs[at];
        for (i, (w, h)) in args.iter_mut().zip(&r.args).enumerate() {
            if !same_arg(kw, w, h) {
                return viol(
                    "value",
                    format!("{what}: #{at} attribute {i} should be {}: {}", step::show(w), r.raw),
                );
            }
            if *w == Node::Any {
                *w = h.clone();
            }
        }
    }
    Ok(())
}

/// the record says what the value is, all the way down
fn fits(m: &EModel, recs: &BTreeMap<u64, &step::Rec>, sym: u64, at: u64, map: &mut BTreeMap<u64, u64>) -> bool {
    let (Some((kw, args)), Some(r)) = (m.recs.get(&sym), recs.get(&at)) else {
        return false;
    };
    if r.kw != written(kw) || r.args.len() != args.len() {
        return false;
    }
    map.insert(sym, at);
    let mut todo = vec![];
    args.iter().zip(&r.args).all(|(w, h)| {
        bind(w, h, map, &mut todo).is_ok() && {
            let mut w = w.clone();
            rename(&mut w, map);
            same_arg(kw, &w, h)
        }
    }) && todo.into_iter().all(|s| {
        let at = map[&s];
        fits(m, recs, s, at, map)
    })
}

/// directions are given by their ratios
fn same_arg(kw: &str, w: &Node, h: &Node) -> bool {
    if kw.starts_with("IFCDIRECTION") {
        let t = |n: &Node| Node::Typed("IFCDIRECTION".into(), vec![n.clone()]);
        step::same(&t(w), &t(h), snap::TOL)
    } else {
        step::same(w, h, snap::TOL)
    }
}

fn show(a: &[Node]) -> String {
    step::show(&Node::List(a.to_vec()))
}

fn c22_gen(r: &mut Rng, idx: u64) -> Value {
    let lives = 1 + r.below(3);
    plan(&C22Plan {
        env: gen_env(r),
        lives: (0..lives)
            .map(|l| Life {
                ops: (0..1 + r.below(9))
                    .map(|n| match r.below(if l == 0 { 12 } else { 16 }) {
                        0 => EOp::Remove { seed: r.u64() },
                        1 => EOp::Describe { seed: r.u64() },
                        k => EOp::Add {
                            kind: if n == 0 && l == 0 {
                                (idx % KINDS.len() as u64) as u8
                            } else {
                                r.below(KINDS.len()) as u8
                            },
                            how: match k {
                                2 => How::At {
                                    id: if r.chance(70) { r.range(1, 60) } else { r.range(1, 1 << 40) } as u64,
                                },
                                3 | 4 => How::Replace,
                                5 | 6 | 12..=15 => How::Change,
                                _ => How::New,
                            },
                            seed: r.u64(),
                        },
                    })
                    .collect(),
                save: gen_save(r),
                killed: r.chance(12),
                wfaults: if r.chance(40) { crate::docchecks::gen_benign(r, true) } else { vec![] },
                rfaults: if r.chance(40) { crate::docchecks::gen_benign(r, false) } else { vec![] },
            })
            .collect(),
    })
}

fn c22_exec(v: &Value) -> Result<Outcome, String> {
    let p: C22Plan = unplan(v)?;
    let mut s = machine(&p.env);
    let lives: Vec<Life> = p.lives.into_iter().take(5).collect();
    let r = (|| {
        let mut saved: Option<EModel> = None;
        for (i, l) in lives.iter().enumerate() {
            let before = saved.clone();
            let what = format!("process {i}");
            let faults: Vec<IoFault> = [&l.wfaults[..], &l.rfaults[..]].concat();
            let r = s.must(&what, &benign(&faults), || {
                let mut ifc = if before.is_some() { load()? } else { IFC::default() };
                let mut b = B {
                    r: Rng::new(0),
                    ifc: &mut ifc,
                    m: before.unwrap_or_default(),
                    depth: 0,
                    me: None,
                };
                for o in &l.ops {
                    run(&mut b, o);
                }
                let m = b.m;
                let e = if l.killed { None } else { save(&ifc, l.save).err().map(|e| e.to_string()) };
                Ok::<_, String>((m, snap(&ifc), e))
            })?;
            let (mut m, old, e) = loaded(r, &what)?;
            if let Some(e) = e {
                return viol("save", e);
            }
            s.note("operations", l.ops.len() as u64);
            s.note("processes", 1);
            if l.killed {
                s.fired("process killed before saving", 1);
                continue;
            }
            s.ctx.disk.sync_all();
            let text = String::from_utf8_lossy(s.ctx.disk.get(PATH).unwrap_or_default()).into_owned();
            s.put(&format!("saved-{i}.ifc"), &text);
            s.note("entities", m.recs.len() as u64);
            judge(&mut m, &text, &format!("what process {i} saved"))?;
            let r = s.must(&format!("reload after process {i}"), &benign(&l.rfaults), || load().map(|i| snap(&i)))?;
            let new = loaded(r, &format!("reload after process {i}"))?;
            snap::equal(&old, &new, "the model before it was saved and after it was loaded")?;
            snap::says(&text, &new, "the reloaded model")?;
            saved = Some(m);
        }
        Ok(())
    })();
    s.out.trivial = s.out.notes.get("entities").is_none();
    Ok(s.done(r))
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C22",
        level: "exploration",
        gen: c22_gen,
        exec: c22_exec,
        quick: 4000,
        thorough: 72000,
        rule: "A run builds a model in 1-3 processes through entity constructors and setters, nested insertions, replacements, changes in place and removals, under benign I/O faults and kills before saving, and compares the saved records and the reloaded model with the values given. Non-trivial: at least one entity was saved.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }]
}
