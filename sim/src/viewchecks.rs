//! C23: what the library derives from a model (extraction queries, geometry views) against what
//! the stored records say, resolved by an independent reader.

use crate::cov::quiet;
use crate::docchecks::{gen_cycle, load, loaded, save, Cycle, ASSUME, REAL, STUB};
use crate::docgen::{self, sch, DocPlan};
use crate::docchecks::benign;
use crate::edits;
use crate::fw::{plan, unplan, viol, Def, Outcome, Sim, Viol};
use crate::rng::Rng;
use crate::schema::{entity_of, Ent};
use crate::snap::{expect_of, TOL};
use crate::step::{parse_doc, parse_node, refs, same, show, Doc, Node, Rec};
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Query {
    pub what: String,
    /// kinds of objects
    pub a: String,
    pub b: String,
    pub id: u64,
    pub other: u64,
}

// ------------------------------------------------------------------------------ the library's answer

fn num(v: f64) -> Node {
    Node::Num(format!("{v:?}"))
}
fn list(v: Vec<Node>) -> Node {
    Node::List(v)
}
fn d2(p: DVec2) -> Node {
    list(vec![num(p.x), num(p.y)])
}
fn d3(p: DVec3) -> Node {
    list(vec![num(p.x), num(p.y), num(p.z)])
}

struct Ask<'a> {
    x: &'a IfcExtractor,
    /// where the objects are
    at: HashMap<usize, u64>,
}

fn addr<T: ?Sized>(o: &T) -> usize {
    o as *const T as *const () as usize
}

impl Ask<'_> {
    /// the id of an object the library hands out, and what it says
    fn who<T: std::fmt::Display>(&self, o: &T) -> Node {
        match self.at.get(&addr(o)) {
            Some(i) => Node::Ref(*i),
            None => Node::Str(format!("not an object of the model: {o}")),
        }
    }
    fn opt<T: std::fmt::Display>(&self, o: Option<&T>) -> Node {
        o.map_or(Node::Null, |o| self.said(o))
    }
    /// id and value
    fn said<T: std::fmt::Display>(&self, o: &T) -> Node {
        let v = parse_node(o.to_string().trim_end_matches(';')).unwrap_or(Node::Star);
        let v = match v {
            Node::Typed(_, mut v) if v.len() == 1 => v.remove(0),
            v => v,
        };
        list(vec![self.who(o), v])
    }
    fn axis2(&self, a: &MappedAxis2D) -> Node {
        Node::Typed("2D".into(), vec![self.said(a.location), self.opt(a.local_x)])
    }
    fn axis3(&self, a: &MappedAxis3D) -> Node {
        Node::Typed("3D".into(), vec![self.said(a.location), self.opt(a.local_z), self.opt(a.local_x)])
    }
    fn points(&self, p: &Points) -> Node {
        match p {
            Points::D2(v) => Node::Typed("2D".into(), v.iter().map(|p| d2(*p)).collect()),
            Points::D3(v) => Node::Typed("3D".into(), v.iter().map(|p| d3(*p)).collect()),
        }
    }
    fn rectangle(&self, m: &MappedRectangleProfileDef) -> Node {
        let a = match &m.axis {
            None => Node::Null,
            Some(AxisMappings::D2(a)) => self.axis2(a),
            Some(AxisMappings::D3(a)) => self.axis3(a),
        };
        Node::Typed("RECTANGLE".into(), vec![a, num(m.x_dim), num(m.y_dim)])
    }
    fn arbitrary(&self, m: &MappedArbitraryClosedProfileDef) -> Node {
        let t = parse_node(&m.profile_type.to_string()).unwrap_or(Node::Star);
        Node::Typed("ARBITRARY".into(), vec![t, self.points(&m.points)])
    }
    fn solid(&self, m: &MappedExtrudedAreaSolid) -> Node {
        let p = match &m.profile_def {
            MappedProfileDef::Rectangle(r) => self.rectangle(r),
            MappedProfileDef::Arbitrary(a) => self.arbitrary(a),
        };
        let a = m.position.as_ref().map_or(Node::Null, |a| self.axis3(a));
        Node::Typed("SOLID".into(), vec![p, a, self.said(m.extruded_direction), num(m.depth)])
    }
    fn reals(v: &[Option<f64>]) -> Vec<Node> {
        v.iter().map(|x| x.map_or(Node::Null, num)).collect()
    }
    fn uniform(&self, m: &TransformMapping) -> Node {
        let mut v = vec![
            self.opt(m.axis_x),
            self.opt(m.axis_y),
            self.opt(m.translation),
            self.opt(m.axis_z),
        ];
        v.extend(Self::reals(&[m.scale]));
        Node::Typed("UNIFORM".into(), v)
    }
    fn non_uniform(&self, m: &NonUniformTransformMapping) -> Node {
        let mut v = vec![
            self.opt(m.axis_x),
            self.opt(m.axis_y),
            self.opt(m.translation),
            self.opt(m.axis_z),
        ];
        v.extend(Self::reals(&[m.scale, m.scale_y, m.scale_z]));
        Node::Typed("NONUNIFORM".into(), v)
    }
    fn item(&self, i: &ShapeItemEnum) -> Node {
        match i {
            ShapeItemEnum::MappedItem(m) => Node::Typed("MappedItem".into(), vec![self.who(*m)]),
            ShapeItemEnum::ExtrudedAreaSolid(m) => Node::Typed("ExtrudedAreaSolid".into(), vec![self.who(*m)]),
            ShapeItemEnum::Dummy(m) => Node::Typed("Dummy".into(), vec![self.who(*m)]),
            ShapeItemEnum::Other(o) => Node::Typed(
                "Other".into(),
                vec![self.at.get(&addr(*o)).map_or(Node::Star, |i| Node::Ref(*i))],
            ),
        }
    }
    fn structure(&self, o: &dyn Structure) -> Node {
        let t = |n: &str, w: Node| Node::Typed(n.into(), vec![w]);
        match o.structure_type() {
            None => Node::Null,
            Some(StructureType::Wall(w)) => t("Wall", self.who(w)),
            Some(StructureType::Slab(w)) => t("Slab", self.who(w)),
            Some(StructureType::Roof(w)) => t("Roof", self.who(w)),
            Some(StructureType::Window(w)) => t("Window", self.who(w)),
            Some(StructureType::Door(w)) => t("Door", self.who(w)),
            Some(StructureType::ShadingDevice(w)) => t("ShadingDevice", self.who(w)),
        }
    }

    fn answer(&self, q: &Query) -> Node {
        let (x, ifc): (&IfcExtractor, &IFC) = (self.x, self.x);
        let id = Id(q.id as usize);
        macro_rules! get {
            ($t:ident) => {
                ifc.data.get(TypedId::<$t>::new(id))
            };
        }
        macro_rules! by_kind {
            ($k:expr, $t:ident => $e:expr; $($n:ident)*) => {
                match $k.as_str() {
                    $( stringify!($n) => { type $t = $n; $e } )*
                    k => panic!("harness: kind {k}"),
                }
            };
        }
        macro_rules! products {
            ($t:ident => $e:expr) => {
                by_kind!(q.a, $t => $e; Wall Slab Roof Window Door ShadingDevice OpeningElement Space Storey Building Site)
            };
        }
        let refs = |v: Vec<u64>| list(v.into_iter().map(Node::Ref).collect());
        let sorted = |mut v: Vec<u64>| {
            v.sort();
            refs(v)
        };
        match q.what.as_str() {
            "axis2" => self.axis2(&get!(Axis2D).mappings(ifc)),
            "axis3" => self.axis3(&get!(Axis3D).mappings(ifc)),
            "polyline" => self.points(&get!(PolyLine).points(ifc)),
            "rectangle" => self.rectangle(&get!(RectangleProfileDef).mappings(ifc)),
            "arbitrary" => self.arbitrary(&get!(ArbitraryClosedProfileDef).mappings(ifc)),
            "solid" => self.solid(&get!(ExtrudedAreaSolid).mappings(ifc)),
            "uniform" => self.uniform(&get!(CartesianTransformationOperator3D).mappings(ifc)),
            "nonuniform" => self.non_uniform(&get!(CartesianTransformationOperator3DnonUniform).mappings(ifc)),
            "mapped" => {
                let ((a, s), t) = get!(MappedItem).mappings(ifc);
                let t = match &t {
                    MappedTransform::Uniform(t) => self.uniform(t),
                    MappedTransform::NonUniform(t) => self.non_uniform(t),
                };
                Node::Typed("MAPPED".into(), vec![self.axis3(&a), self.who(s), t])
            }
            "items" => list(get!(ShapeRepresentation).items(ifc).map(|i| self.item(&i)).collect()),
            "items_of" => by_kind!(q.a, T => list(get!(ShapeRepresentation).items_of::<T>(ifc).map(|i| self.who(i)).collect());
                ExtrudedAreaSolid PolyLine MappedItem),
            "context" => self.who(get!(ShapeRepresentation).parent_context(ifc)),
            "shapes" => products!(T => list(get!(T).shapes(ifc).into_iter().map(|s| self.who(s)).collect())),
            "placement" => by_kind!(q.a, T => ifc.get_placement_id(TypedId::<T>::new(id)).map_or(Node::Null, |i| Node::Ref(i.0 as u64));
                Wall Slab OpeningElement Storey Building Site),
            "structure" => match ifc.data.get_untyped(id).to_structure() {
                Some(s) => list(vec![self.structure(s)]),
                None => list(vec![]),
            },
            "kind" => by_kind!(q.a, T => list(vec![
                    sorted(x.data.id_of::<T>().map(|i| i.id().0 as u64).collect()),
                    sorted(x.data.find_all_of_type::<T>().map(|(i, o)| {
                        if self.who(o) == Node::Ref(i.id().0 as u64) { i.id().0 as u64 } else { 0 }
                    }).collect()),
                ]);
                Axis2D Axis3D Point2D Point3D Direction2D Direction3D ActorRole TelecomAddress PostalAddress Person Organization
                PersonAndOrganization Application OwnerHistory DimensionalExponents SiUnit MeasureWithUnit ConversionBasedUnit
                DerivedUnitElement DerivedUnit MonetaryUnit UnitAssigment LocalPlacement GeometricRepresentationContext
                GeometricRepresentationSubContext PointList2D PointList3D IndexedPolyCurve PolyLine RectangleProfileDef
                ArbitraryClosedProfileDef ExtrudedAreaSolid ShapeRepresentation RepresentationMap CartesianTransformationOperator3D
                CartesianTransformationOperator3DnonUniform MappedItem ProductDefinitionShape Material MaterialLayer MaterialLayerSet
                MaterialLayerSetUsage MaterialConstituent MaterialConstituentSet PropertySingleValue PropertySet WallType SlabType
                RoofType ShadingDeviceType DoorType WindowType SpaceType Project Site Building Storey Space Wall Slab Roof
                ShadingDevice OpeningElement Door Window RelAggregates RelAssociatesMaterial RelContainedInSpatialStructure RelDeclares
                RelDefinesByType RelDefinesByProperties RelVoidsElement RelFillsElement),
            "projects" => sorted(x.projects().map(|(i, p)| match self.who(p) {
                Node::Ref(j) if j == i.id().0 as u64 => j,
                _ => 0,
            }).collect()),
            "relations" => by_kind!(q.a, A => by_kind!(q.b, B => sorted(x.relations_of::<A, B>(TypedId::new(id)).map(|(i, o)| match self.who(o) {
                        Node::Ref(j) if j == i.id().0 as u64 => j,
                        _ => 0,
                    }).collect());
                    Project Site Building Storey Space Wall Slab Roof Window Door);
                Project Site Building Storey Space Wall),
            "contained" => products!(T => sorted(x.contained_structures(TypedId::<T>::new(id)).map(|i| i.0 as u64).collect())),
            "voids" => products!(T => sorted(x.related_voids(TypedId::<T>::new(id)).map(|o| match self.who(o) {
                Node::Ref(j) => j,
                _ => 0,
            }).collect())),
            "layers" => products!(T => list(x.related_materials(TypedId::<T>::new(id)).map(|o| self.who(o)).collect())),
            "constituents" => products!(T => list(x.related_constiuents(TypedId::<T>::new(id)).map(|o| self.who(o)).collect())),
            "type" => match q.a.as_str() {
                "Wall" => self.who(TypeRelation::<Wall, WallType>::related_type(x, TypedId::new(id))),
                "Slab" => self.who(TypeRelation::<Slab, SlabType>::related_type(x, TypedId::new(id))),
                "Roof" => self.who(TypeRelation::<Roof, RoofType>::related_type(x, TypedId::new(id))),
                "Window" => self.who(TypeRelation::<Window, WindowType>::related_type(x, TypedId::new(id))),
                "Door" => self.who(TypeRelation::<Door, DoorType>::related_type(x, TypedId::new(id))),
                k => panic!("harness: kind {k}"),
            },
            "material_of" => Node::Enum(if get!(RelAssociatesMaterial).is_related_to(Id(q.other as usize)) { "T" } else { "F" }.into()),
            k => panic!("harness: query {k}"),
        }
    }
}


/// inside of a simulated process
fn answers(ifc: IFC, ids: &[u64], qs: &[Query]) -> Vec<Node> {
    let x = IfcExtractor::from(ifc);
    let at = quiet(|| {
        ids.iter()
            .filter(|i| x.data.contains(&Id(**i as usize)))
            .map(|i| (addr(x.data.get_untyped(Id(*i as usize))), *i))
            .collect()
    });
    let a = Ask { x: &x, at };
    qs.iter().map(|q| a.answer(q)).collect()
}

// ------------------------------------------------------------------------------ what the records say

struct Says<'a> {
    m: BTreeMap<u64, &'a Rec>,
    /// modelled records
    e: BTreeMap<u64, &'static Ent>,
}

type O = Option<Node>;

impl<'a> Says<'a> {
    fn new(d: &'a Doc) -> Self {
        let m = d.map();
        let e = m
            .iter()
            .filter_map(|(i, r)| Some((*i, entity_of(sch(), &r.kw, &r.args)?)))
            .filter(|(i, e)| m[i].args.len() == e.attrs.len())
            .collect();
        Says { m, e }
    }
    fn is(&self, id: u64, ty: &str) -> bool {
        self.e.get(&id).is_some_and(|e| e.ty == ty)
    }
    fn ty(&self, id: u64) -> &'static str {
        self.e.get(&id).map_or("", |e| e.ty)
    }
    fn arg(&self, id: u64, i: usize) -> &Node {
        &self.m[&id].args[i]
    }
    /// the reference at an attribute, to an object of one of the kinds
    fn to(&self, id: u64, i: usize, tys: &[&str]) -> Option<u64> {
        match self.arg(id, i) {
            Node::Ref(t) if tys.contains(&self.ty(*t)) => Some(*t),
            _ => None,
        }
    }
    fn said(&self, id: u64) -> Node {
        list(vec![Node::Ref(id), self.arg(id, 0).clone()])
    }
    /// outer None: cannot be asked
    fn opt(&self, id: u64, i: usize, ty: &str) -> O {
        match self.arg(id, i) {
            Node::Ref(t) if self.is(*t, ty) => Some(self.said(*t)),
            Node::Ref(_) => None,
            _ => Some(Node::Null),
        }
    }
    fn axis2(&self, id: u64) -> O {
        let p = self.to(id, 0, &["Point2D"])?;
        Some(Node::Typed("2D".into(), vec![self.said(p), self.opt(id, 1, "Direction2D")?]))
    }
    fn axis3(&self, id: u64) -> O {
        let p = self.to(id, 0, &["Point3D"])?;
        Some(Node::Typed(
            "3D".into(),
            vec![self.said(p), self.opt(id, 1, "Direction3D")?, self.opt(id, 2, "Direction3D")?],
        ))
    }
    fn ids(&self, id: u64, i: usize) -> Vec<u64> {
        let mut v = vec![];
        refs(self.arg(id, i), &mut v);
        v
    }
    fn polyline(&self, id: u64) -> O {
        let v = self.ids(id, 0);
        let (k, n) = match self.ty(*v.first()?) {
            "Point2D" => ("Point2D", "2D"),
            "Point3D" => ("Point3D", "3D"),
            _ => return None,
        };
        if v.iter().any(|p| !self.is(*p, k)) {
            return None;
        }
        Some(Node::Typed(n.into(), v.iter().map(|p| self.arg(*p, 0).clone()).collect()))
    }
    fn rectangle(&self, id: u64) -> O {
        let a = match self.arg(id, 2) {
            Node::Ref(t) if self.is(*t, "Axis2D") => self.axis2(*t)?,
            Node::Ref(t) if self.is(*t, "Axis3D") => self.axis3(*t)?,
            Node::Ref(_) => return None,
            _ => Node::Null,
        };
        Some(Node::Typed("RECTANGLE".into(), vec![a, self.arg(id, 3).clone(), self.arg(id, 4).clone()]))
    }
    fn arbitrary(&self, id: u64) -> O {
        let c = self.to(id, 2, &["IndexedPolyCurve", "PolyLine"])?;
        let p = if self.is(c, "PolyLine") {
            self.polyline(c)?
        } else {
            let l = self.to(c, 0, &["PointList2D", "PointList3D"])?;
            let Node::List(v) = self.arg(l, 0) else { return None };
            Node::Typed(if self.is(l, "PointList2D") { "2D" } else { "3D" }.into(), v.clone())
        };
        Some(Node::Typed("ARBITRARY".into(), vec![self.arg(id, 0).clone(), p]))
    }
    fn solid(&self, id: u64) -> O {
        let p = self.to(id, 0, &["RectangleProfileDef", "ArbitraryClosedProfileDef"])?;
        let p = if self.is(p, "RectangleProfileDef") { self.rectangle(p)? } else { self.arbitrary(p)? };
        let a = match self.arg(id, 1) {
            Node::Ref(t) if self.is(*t, "Axis3D") => self.axis3(*t)?,
            Node::Ref(_) => return None,
            _ => Node::Null,
        };
        let d = self.to(id, 2, &["Direction3D"])?;
        Some(Node::Typed("SOLID".into(), vec![p, a, self.said(d), self.arg(id, 3).clone()]))
    }
    fn num(&self, id: u64, i: usize) -> Node {
        match self.arg(id, i) {
            n @ Node::Num(_) => n.clone(),
            _ => Node::Null,
        }
    }
    fn transform(&self, id: u64) -> O {
        let mut v = vec![
            self.opt(id, 0, "Direction3D")?,
            self.opt(id, 1, "Direction3D")?,
            self.opt(id, 2, "Point3D")?,
            self.opt(id, 4, "Direction3D")?,
            self.num(id, 3),
        ];
        if self.is(id, "CartesianTransformationOperator3D") {
            return Some(Node::Typed("UNIFORM".into(), v));
        }
        v.extend([self.num(id, 5), self.num(id, 6)]);
        Some(Node::Typed("NONUNIFORM".into(), v))
    }
    fn mapped(&self, id: u64) -> O {
        let m = self.to(id, 0, &["RepresentationMap"])?;
        let a = self.axis3(self.to(m, 0, &["Axis3D"])?)?;
        let s = self.to(m, 1, &["ShapeRepresentation"])?;
        let t = self.to(
            id,
            1,
            &["CartesianTransformationOperator3D", "CartesianTransformationOperator3DnonUniform"],
        )?;
        Some(Node::Typed("MAPPED".into(), vec![a, Node::Ref(s), self.transform(t)?]))
    }
    fn item(&self, id: u64) -> Node {
        let k = match self.ty(id) {
            k @ ("MappedItem" | "ExtrudedAreaSolid") => k,
            "" => "Dummy",
            _ => "Other",
        };
        Node::Typed(k.into(), vec![Node::Ref(id)])
    }
    fn context(&self, id: u64) -> O {
        let c = self.to(id, 0, &["GeometricRepresentationSubContext", "GeometricRepresentationContext"])?;
        if self.is(c, "GeometricRepresentationContext") {
            return Some(Node::Ref(c));
        }
        self.to(c, 6, &["GeometricRepresentationContext"]).map(Node::Ref)
    }
    fn shapes(&self, id: u64) -> O {
        let s = match self.arg(id, 6) {
            Node::Ref(s) if self.is(*s, "ProductDefinitionShape") => *s,
            Node::Ref(_) => return None,
            _ => return Some(list(vec![])),
        };
        let v = self.ids(s, 2);
        if v.iter().any(|i| !self.is(*i, "ShapeRepresentation")) {
            return None;
        }
        Some(list(v.into_iter().map(Node::Ref).collect()))
    }
    fn all<'b>(&'b self, ty: &'b str) -> impl Iterator<Item = u64> + 'b {
        self.e.iter().filter(move |(_, e)| e.ty == ty).map(|(i, _)| *i)
    }
    /// the other ends of relations
    fn related(&self, ty: &str, at: usize, id: u64, other: usize) -> Vec<u64> {
        self.all(ty).filter(|r| self.ids(*r, at).contains(&id)).flat_map(|r| self.ids(r, other)).collect()
    }
    /// layers or constituents by way of the materials associated with an object
    fn materials(&self, id: u64, layers: bool) -> O {
        let mut groups = vec![];
        for r in self.all("RelAssociatesMaterial") {
            if !self.ids(r, 4).contains(&id) {
                continue;
            }
            let (list, ty) = match self.arg(r, 5) {
                Node::Ref(m) if layers && self.is(*m, "MaterialLayerSetUsage") => {
                    (self.ids(self.to(*m, 0, &["MaterialLayerSet"])?, 0), "MaterialLayer")
                }
                Node::Ref(m) if !layers && self.is(*m, "MaterialConstituentSet") => {
                    (self.ids(*m, 2), "MaterialConstituent")
                }
                _ => continue,
            };
            if list.iter().any(|i| !self.is(*i, ty)) {
                return None;
            }
            groups.push(list);
        }
        // associations have no order; the layers of one have
        let sets = groups.into_iter().map(|g| list(g.into_iter().map(Node::Ref).collect()));
        Some(Node::Typed("GROUPS".into(), sets.collect()))
    }

    /// everything that can be asked
    fn questions(&self) -> Vec<(Query, Node)> {
        let mut v: Vec<(Query, Node)> = vec![];
        let mut ask = |what: &str, a: &str, b: &str, id: u64, other: u64, n: O| {
            if let Some(n) = n {
                let q = Query {
                    what: what.into(),
                    a: a.into(),
                    b: b.into(),
                    id,
                    other,
                };
                v.push((q, n));
            }
        };
        let refs = |mut v: Vec<u64>| {
            v.sort();
            list(v.into_iter().map(Node::Ref).collect())
        };
        for e in sch().iter().filter(|e| e.ty != "MaterialProperties") {
            let all = refs(self.all(e.ty).collect());
            ask("kind", e.ty, "", 0, 0, Some(list(vec![all.clone(), all])));
        }
        ask("projects", "", "", 0, 0, Some(refs(self.all("Project").collect())));
        for (id, e) in &self.e {
            let (id, ty) = (*id, e.ty);
            match ty {
                "Axis2D" => ask("axis2", "", "", id, 0, self.axis2(id)),
                "Axis3D" => ask("axis3", "", "", id, 0, self.axis3(id)),
                "PolyLine" => ask("polyline", "", "", id, 0, self.polyline(id)),
                "RectangleProfileDef" => ask("rectangle", "", "", id, 0, self.rectangle(id)),
                "ArbitraryClosedProfileDef" => ask("arbitrary", "", "", id, 0, self.arbitrary(id)),
                "ExtrudedAreaSolid" => ask("solid", "", "", id, 0, self.solid(id)),
                "CartesianTransformationOperator3D" => ask("uniform", "", "", id, 0, self.transform(id)),
                "CartesianTransformationOperator3DnonUniform" => ask("nonuniform", "", "", id, 0, self.transform(id)),
                "MappedItem" => ask("mapped", "", "", id, 0, self.mapped(id)),
                "ShapeRepresentation" => {
                    let items = self.ids(id, 3);
                    ask("items", "", "", id, 0, Some(list(items.iter().map(|i| self.item(*i)).collect())));
                    for k in ["ExtrudedAreaSolid", "PolyLine", "MappedItem"] {
                        let v = items.iter().filter(|i| self.is(**i, k)).map(|i| Node::Ref(*i)).collect();
                        ask("items_of", k, "", id, 0, Some(list(v)));
                    }
                    ask("context", "", "", id, 0, self.context(id));
                }
                "RelAssociatesMaterial" => {
                    let rel = self.ids(id, 4);
                    for i in self.e.keys().filter(|i| **i % 7 == id % 7 || rel.contains(i)) {
                        let t = if rel.contains(i) { "T" } else { "F" };
                        ask("material_of", "", "", id, *i, Some(Node::Enum(t.into())));
                    }
                }
                _ => {}
            }
            const PRODUCTS: [&str; 11] = [
                "Wall",
                "Slab",
                "Roof",
                "Window",
                "Door",
                "ShadingDevice",
                "OpeningElement",
                "Space",
                "Storey",
                "Building",
                "Site",
            ];
            const WHOLES: [&str; 6] = ["Project", "Site", "Building", "Storey", "Space", "Wall"];
            const PARTS: [&str; 10] =
                ["Project", "Site", "Building", "Storey", "Space", "Wall", "Slab", "Roof", "Window", "Door"];
            if WHOLES.contains(&ty) {
                let v = self.related("RelAggregates", 4, id, 5);
                for b in PARTS {
                    ask("relations", ty, b, id, 0, Some(refs(v.iter().filter(|i| self.is(**i, b)).copied().collect())));
                }
            }
            if !PRODUCTS.contains(&ty) {
                // resources and openings' cousins are no structures
                if ["Material", "WallType", "LocalPlacement", "Project", "RelAggregates"].contains(&ty) {
                    ask("structure", "", "", id, 0, Some(list(vec![])));
                }
                continue;
            }
            ask("shapes", ty, "", id, 0, self.shapes(id));
            if ["Wall", "Slab", "OpeningElement", "Storey", "Building", "Site"].contains(&ty) {
                let p = match self.arg(id, 5) {
                    n @ Node::Ref(_) => n.clone(),
                    _ => Node::Null,
                };
                ask("placement", ty, "", id, 0, Some(p));
            }
            let element = ["Wall", "Slab", "Roof", "Window", "Door", "ShadingDevice"].contains(&ty);
            if element {
                let n = Node::Typed(ty.into(), vec![Node::Ref(id)]);
                ask("structure", "", "", id, 0, Some(list(vec![n])));
            } else if ty != "OpeningElement" {
                ask("structure", "", "", id, 0, Some(list(vec![Node::Null])));
            }
            ask("contained", ty, "", id, 0, Some(refs(self.related("RelContainedInSpatialStructure", 5, id, 4))));
            let voids = self.related("RelVoidsElement", 4, id, 5);
            if voids.iter().all(|o| self.is(*o, "OpeningElement")) {
                ask("voids", ty, "", id, 0, Some(refs(voids)));
            }
            ask("layers", ty, "", id, 0, self.materials(id, true));
            ask("constituents", ty, "", id, 0, self.materials(id, false));
            let want = match ty {
                "Wall" => "WallType",
                "Slab" => "SlabType",
                "Roof" => "RoofType",
                "Window" => "WindowType",
                "Door" => "DoorType",
                _ => continue,
            };
            let types = self.related("RelDefinesByType", 4, id, 5);
            if !types.is_empty() && types.iter().all(|t| self.is(*t, want)) {
                ask("type", ty, "", id, 0, Some(Node::Typed("ONE".into(), types.into_iter().map(Node::Ref).collect())));
            }
        }
        v
    }
}

/// does an answer agree with what the records say?
fn fits(want: &Node, have: &Node) -> bool {
    match (want, have) {
        (Node::Typed(k, l), h) if k == "ONE" => l.contains(h),
        (Node::Typed(k, groups), Node::List(h)) if k == "GROUPS" => arranged(groups, h),
        _ => same(want, have, TOL),
    }
}

/// the lists one after the other, in some order
fn arranged(groups: &[Node], have: &[Node]) -> bool {
    if groups.is_empty() {
        return have.is_empty();
    }
    groups.iter().enumerate().any(|(i, g)| {
        let Node::List(g) = g else { return false };
        if have.len() < g.len() || have[..g.len()] != g[..] {
            return false;
        }
        let mut rest = groups.to_vec();
        rest.remove(i);
        arranged(&rest, &have[g.len()..])
    })
}

fn judge(qs: &[(Query, Node)], have: &[Node], what: &str) -> Result<(), Viol> {
    for ((q, want), h) in qs.iter().zip(have) {
        if !fits(want, h) {
            return viol(
                "view",
                format!(
                    "{what}: {} {}{}{} reports {} instead of {}",
                    q.what,
                    q.a,
                    if q.b.is_empty() { String::new() } else { format!(" {}", q.b) },
                    if q.id == 0 { String::new() } else { format!(" #{}", q.id) },
                    show(h),
                    show(want)
                ),
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------ C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C23Plan {
    pub seed: i64,
    pub doc: DocPlan,
    pub cycles: Vec<Cycle>,
}

const LINKS: [&str; 12] = [
    "IFCRELAGGREGATES",
    "IFCRELASSOCIATESMATERIAL",
    "IFCRELCONTAINEDINSPATIALSTRUCTURE",
    "IFCRELDEFINESBYTYPE",
    "IFCRELVOIDSELEMENT",
    "IFCMAPPEDITEM",
    "IFCEXTRUDEDAREASOLID",
    "IFCSHAPEREPRESENTATION",
    "IFCWALL",
    "IFCDOOR",
    "IFCMATERIALLAYERSETUSAGE",
    "IFCRECTANGLEPROFILEDEF",
];

fn gen(r: &mut Rng, idx: u64) -> Value {
    let n = 1 + r.below(8);
    let mut k = docgen::kinds(r, idx, n);
    for _ in 0..r.below(8) {
        k.push(LINKS[r.below(LINKS.len())]);
    }
    let links = r.below(7);
    plan(&C23Plan {
        seed: r.range(0, 1 << 50),
        doc: docgen::linked(r, &k, true, links),
        cycles: (0..1 + r.below(2)).map(|_| gen_cycle(r)).collect(),
    })
}

fn exec(v: &Value) -> Result<Outcome, String> {
    let p: C23Plan = unplan(v)?;
    let mut d = p.doc;
    d.sanitize();
    let mut s = Sim::new(p.seed as u64);
    let mut text = d.render();
    s.put("model.ifc", text.clone());
    let mut want = expect_of(&d);
    let mut head = d.head.expected();
    s.out.trivial = d.recs.is_empty();
    let r = (|| {
        for (i, c) in p.cycles.iter().enumerate() {
            let doc = match parse_doc(&text) {
                Ok(d) => d,
                Err(e) => return viol("malformed", e),
            };
            let says = Says::new(&doc);
            let qs = says.questions();
            let ids: Vec<u64> = says.m.keys().copied().collect();
            let q: Vec<Query> = qs.iter().map(|q| q.0.clone()).collect();
            let what = format!("load {i}, query");
            let have = s.must(&what, &benign(&c.rfaults), || load().map(|ifc| answers(ifc, &ids, &q)))?;
            judge(&qs, &loaded(have, &what)?, &format!("loaded model {i}"))?;
            count(&mut s, &qs);
            // the edited model, saved, and what it says in memory
            let dos = edits::plan(&c.edits, &mut want, &mut head);
            let what = format!("load {i}, edit, save");
            let saved = s.must(&what, &benign(&c.wfaults), || -> Result<String, String> {
                let mut ifc = load()?;
                edits::apply(&mut ifc, &dos);
                save(&ifc, c.save).map_err(|e| e.to_string())?;
                Ok(ifc.to_string())
            })?;
            let t = loaded(saved, &what)?;
            s.ctx.disk.sync_all();
            let doc = match parse_doc(&t) {
                Ok(d) => d,
                Err(e) => return viol("malformed", e),
            };
            let says = Says::new(&doc);
            let qs = says.questions();
            let ids: Vec<u64> = says.m.keys().copied().collect();
            let q: Vec<Query> = qs.iter().map(|q| q.0.clone()).collect();
            // once more from the original, queried before anything is saved
            s.put("model.ifc", text.clone());
            let what = format!("load {i}, edit, query");
            let have = s.must(&what, &[], || {
                load().map(|mut ifc| {
                    edits::apply(&mut ifc, &dos);
                    answers(ifc, &ids, &q)
                })
            })?;
            judge(&qs, &loaded(have, &what)?, &format!("edited model {i}"))?;
            count(&mut s, &qs);
            s.put("model.ifc", t.clone());
            text = t;
        }
        Ok(())
    })();
    Ok(s.done(r))
}

/// answers that say something, by kind of question
fn count(s: &mut Sim, qs: &[(Query, Node)]) {
    s.note("views and queries checked", qs.len() as u64);
    for (q, n) in qs {
        let empty = match n {
            Node::List(v) => v.is_empty() || v.iter().all(|x| matches!(x, Node::List(l) if l.is_empty())),
            Node::Typed(k, v) => k == "GROUPS" && v.is_empty(),
            _ => false,
        };
        if !empty {
            s.note(&format!("answers: {}", q.what), 1);
        }
    }
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C23",
        level: "exploration",
        gen,
        exec,
        quick: 5000,
        thorough: 90000,
        rule: "A run stores a generated document with records of all kinds, loads it, asks every view and query that can be asked of its objects, edits it through the API and asks again, before and after a save and restart. Non-trivial: the document has records.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }]
}
