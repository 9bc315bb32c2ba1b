//! Histories of builder calls: plans, their execution against the library, and an independent
//! model of what the produced file has to say.

use crate::docgen;
use crate::rng::Rng;
use crate::step::Node;
use bevy_math::{DQuat, DVec2, DVec3};
use ifc_rs::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub type V2 = [f64; 2];
pub type V3 = [f64; 3];

/// How a scope ends.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    /// at the end of the enclosing block
    Scope,
    /// `finish()` where there is one, else an explicit drop
    Finish,
    /// a panic unwinds through it and this many scopes around it
    Unwind(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    /// developer, version, name, short name, organization, project
    pub app: [String; 6],
    /// given name, family name, id of the person
    pub person: [Option<String>; 3],
    /// id and description of the developer
    pub dev: [Option<String>; 2],
    pub sites: Vec<SiteP>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SiteP {
    pub name: String,
    pub pos: V3,
    pub buildings: Vec<BuildingP>,
    pub end: End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BuildingP {
    pub name: String,
    pub pos: V3,
    pub storeys: Vec<StoreyP>,
    pub end: End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StoreyP {
    pub name: String,
    pub elevation: f64,
    pub ops: Vec<Op>,
    pub end: End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trans {
    pub t: V3,
    /// rotation axis and angle
    pub rot: Option<(V3, f64)>,
    /// separately set axes
    pub axes: [Option<V3>; 3],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Real(f64),
    Bool(bool),
    Label(String),
    Ident(String),
    Thermal(f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PropP {
    pub name: String,
    pub val: Val,
    /// refers to a unit
    pub unit: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WallShape {
    Vertical { height: f64, length: f64 },
    VerticalArbitrary { coords: Vec<V2> },
    Arbitrary { coords: Vec<V3>, dir: V3 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SlabShape {
    Horizontal { coords: Vec<V2> },
    Vertical { start: V2, end: V2, height: f64 },
    Arbitrary { coords: Vec<V3>, dir: V3 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sub {
    Opening { name: String, h: f64, l: f64, place: V3, dir: Option<V3> },
    Horizontal { name: String, coords: Vec<V2> },
    Arbitrary { name: String, coords: Vec<V3> },
    Window { set: u32, ty: u32, name: String, h: f64, w: f64, place: V3, dir: V3 },
    HorizontalWindow { set: u32, ty: u32, name: String, coords: Vec<V2> },
    ArbitraryWindow { set: u32, ty: u32, name: String, coords: Vec<V3> },
    Props { name: String, props: Vec<PropP>, end: End },
    Transform { t: Trans },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Material { name: String },
    Layer { material: String, name: String, thickness: f64, vent: bool, more: bool },
    LayerSet { layers: Vec<u32> },
    Usage { set: u32, axis: u8, positive: bool, offset: f64 },
    Constituent { material: String, name: String },
    ConstituentSet { items: Vec<u32> },
    WallType { set: u32, name: String, kind: u8 },
    SlabType { set: u32, name: String, kind: u8 },
    RoofType { set: u32, name: String, kind: u8 },
    ShadingType { set: u32, name: String, kind: u8 },
    WindowType { name: String, kind: u8, part: u8 },
    SpaceType { name: String, kind: u8 },
    Wall { usage: u32, ty: u32, name: String, shape: WallShape, place: V3, subs: Vec<Sub>, end: End },
    Slab { usage: u32, ty: u32, name: String, shape: SlabShape, place: V3, subs: Vec<Sub>, end: End },
    Roof { usage: u32, ty: u32, name: String, coords: Vec<V2>, place: V3 },
    Space { ty: u32, name: String, coords: Vec<V2>, height: f64, place: V3 },
    Shading { usage: u32, ty: u32, name: String, height: f64, length: f64, place: V3 },
    Props { name: String, props: Vec<PropP>, finish: bool },
    Relate { set: u32, obj: u32 },
    Transform { obj: u32, t: Trans },
}

// ------------------------------------------------------------------------------ generation

fn name(r: &mut Rng) -> String {
    if r.chance(12) {
        // names which come up again
        return r.pick(&["Wall", "o"]).to_string();
    }
    docgen::api_text(r).replace('\\', "")
}
fn len(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => r.range(1, 20) as f64,
        1 => r.range(1, 400) as f64 / 100.0,
        2 => r.f01() * 12.0 + 1e-3,
        3 => 1.0 / r.range(3, 30) as f64,
        4 => r.range(1, 9) as f64 * 10f64.powi(r.range(-7, 7) as i32),
        _ => r.range(2, 60) as f64 / 10.0,
    }
}
fn coord(r: &mut Rng) -> f64 {
    if r.chance(10) {
        return (r.f01() - 0.5) * 2e5;
    }
    let v = r.range(-200, 200) as f64 / *r.pick(&[1.0, 10.0, 16.0, 7.0]);
    if v == 0.0 {
        0.0
    } else {
        v
    }
}
fn v3(r: &mut Rng) -> V3 {
    if r.chance(20) {
        return [0.0; 3];
    }
    [coord(r), coord(r), coord(r)]
}
fn dir(r: &mut Rng) -> V3 {
    match r.below(6) {
        0 => [0.0, 0.0, 1.0],
        1 => [0.0, 1.0, 0.0],
        2 => [1.0, 0.0, 0.0],
        3 => [0.0, 0.0, -1.0],
        _ => loop {
            let d = [r.range(-4, 4) as f64, r.range(-4, 4) as f64 / 3.0, r.range(-4, 4) as f64 / 2.0];
            if d.iter().any(|x| *x != 0.0) {
                return d.map(|x| if x == 0.0 { 0.0 } else { x });
            }
        },
    }
}
/// outlines as callers give them: points repeated in a row, points visited again, closed ones
fn outline<T: Copy>(r: &mut Rng, mut point: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let mut v: Vec<T> = (0..r.range(1, 6)).map(|_| point(r)).collect();
    if r.chance(15) {
        let i = r.below(v.len());
        for _ in 0..r.range(1, 2) {
            v.insert(i, v[i]);
        }
    }
    if r.chance(12) {
        let (i, p) = (r.below(v.len()), v[r.below(v.len())]);
        v.insert(i, p);
    }
    if r.chance(20) {
        v.push(v[0]);
    }
    v
}
fn poly2(r: &mut Rng) -> Vec<V2> {
    outline(r, |r| [coord(r), coord(r)])
}
fn poly3(r: &mut Rng) -> Vec<V3> {
    outline(r, |r| [coord(r), coord(r), coord(r)])
}
fn idx(r: &mut Rng) -> u32 {
    r.below(1000) as u32
}
fn trans(r: &mut Rng) -> Trans {
    let rot = match r.below(4) {
        0 => None,
        1 => Some(([0.0, 0.0, 1.0], std::f64::consts::FRAC_PI_2 * r.range(-3, 3) as f64)),
        _ => Some((dir(r), r.f01() * 6.0 - 3.0)),
    };
    let mut axes = [None; 3];
    if rot.is_none() && r.chance(50) {
        // a permutation of the axes with signs and lengths
        let mut p = [0usize, 1, 2];
        r.shuffle(&mut p);
        for i in 0..3 {
            if r.chance(70) || p != [0, 1, 2] {
                let mut a = [0.0; 3];
                a[p[i]] = if r.chance(50) { 1.0 } else { -2.0 };
                axes[i] = Some(a);
            }
        }
    } else if r.chance(10) {
        // ignored by contract
        axes[r.below(3)] = Some([0.0; 3]);
    }
    Trans { t: v3(r), rot, axes }
}
fn end(r: &mut Rng, unwind: u32, depth: u8) -> End {
    if r.chance(unwind) {
        End::Unwind(if r.chance(70) { 0 } else { r.below(depth as usize + 1) as u8 })
    } else if r.chance(50) {
        End::Finish
    } else {
        End::Scope
    }
}
fn props(r: &mut Rng) -> Vec<PropP> {
    (0..r.below(4))
        .map(|_| PropP {
            name: name(r),
            val: match r.below(5) {
                0 => Val::Real(docgen::real(r)),
                1 => Val::Bool(r.chance(50)),
                2 => Val::Label(name(r)),
                3 => Val::Ident(name(r)),
                _ => Val::Thermal(docgen::real(r)),
            },
            unit: r.chance(20),
        })
        .collect()
}
fn sub(r: &mut Rng) -> Sub {
    match r.below(12) {
        0 | 1 => Sub::Opening {
            name: name(r),
            h: len(r),
            l: len(r),
            place: v3(r),
            dir: if r.chance(40) { Some(dir(r)) } else { None },
        },
        2 => Sub::Horizontal {
            name: name(r),
            coords: poly2(r),
        },
        3 => Sub::Arbitrary {
            name: name(r),
            coords: poly3(r),
        },
        4..=6 => Sub::Window {
            set: idx(r),
            ty: idx(r),
            name: name(r),
            h: len(r),
            w: len(r),
            place: v3(r),
            dir: dir(r),
        },
        7 => Sub::HorizontalWindow {
            set: idx(r),
            ty: idx(r),
            name: name(r),
            coords: poly2(r),
        },
        8 => Sub::ArbitraryWindow {
            set: idx(r),
            ty: idx(r),
            name: name(r),
            coords: poly3(r),
        },
        9 | 10 => Sub::Transform { t: trans(r) },
        _ => Sub::Props {
            name: name(r),
            props: props(r),
            end: end(r, 10, 4),
        },
    }
}

/// some histories do much of one thing
fn op(r: &mut Rng, theme: u8) -> Op {
    let most = if theme > 0 && r.chance(30) { 8 } else { 4 };
    let subs = |r: &mut Rng| (0..r.below(most)).map(|_| sub(r)).collect::<Vec<_>>();
    let kind = match theme {
        _ if r.chance(40) => r.below(34),
        // slabs and what is in them; walls; elements; transforms; properties; preparations
        1 => r.range(20, 23) as usize,
        2 => r.range(14, 19) as usize,
        3 => r.range(14, 29) as usize,
        4 => r.range(20, 33) as usize,
        5 => r.range(24, 31) as usize,
        6 => r.range(0, 13) as usize,
        _ => r.below(34),
    };
    match kind {
        0 => Op::Material { name: name(r) },
        1 | 2 => layer(r),
        3 => Op::LayerSet {
            layers: (0..r.below(4)).map(|_| idx(r)).collect(),
        },
        4 | 5 => usage(r),
        6 => Op::Constituent {
            material: name(r),
            name: name(r),
        },
        7 => cset(r),
        8 => Op::WallType {
            set: idx(r),
            name: name(r),
            kind: r.below(12) as u8,
        },
        9 => Op::SlabType {
            set: idx(r),
            name: name(r),
            kind: r.below(6) as u8,
        },
        10 => Op::RoofType {
            set: idx(r),
            name: name(r),
            kind: r.below(14) as u8,
        },
        11 => Op::ShadingType {
            set: idx(r),
            name: name(r),
            kind: r.below(5) as u8,
        },
        12 => wtype(r),
        13 => Op::SpaceType {
            name: name(r),
            kind: r.below(7) as u8,
        },
        14..=19 => Op::Wall {
            usage: idx(r),
            ty: idx(r),
            name: name(r),
            shape: match r.below(3) {
                0 => WallShape::Vertical {
                    height: len(r),
                    length: len(r),
                },
                1 => WallShape::VerticalArbitrary { coords: poly2(r) },
                _ => WallShape::Arbitrary {
                    coords: poly3(r),
                    dir: dir(r),
                },
            },
            place: v3(r),
            subs: subs(r),
            end: end(r, 12, 3),
        },
        20..=23 => Op::Slab {
            usage: idx(r),
            ty: idx(r),
            name: name(r),
            shape: match r.below(3) {
                0 => SlabShape::Horizontal { coords: poly2(r) },
                1 => SlabShape::Vertical {
                    start: [coord(r), coord(r)],
                    end: [coord(r) + 500.0, coord(r)],
                    height: len(r),
                },
                _ => SlabShape::Arbitrary {
                    coords: poly3(r),
                    dir: dir(r),
                },
            },
            place: v3(r),
            subs: subs(r),
            end: end(r, 12, 3),
        },
        24 | 25 => Op::Roof {
            usage: idx(r),
            ty: idx(r),
            name: name(r),
            coords: poly2(r),
            place: v3(r),
        },
        26 | 27 => Op::Space {
            ty: idx(r),
            name: name(r),
            coords: poly2(r),
            height: len(r),
            place: v3(r),
        },
        28 | 29 => Op::Shading {
            usage: idx(r),
            ty: idx(r),
            name: name(r),
            height: len(r),
            length: len(r),
            place: v3(r),
        },
        30 => Op::Props {
            name: name(r),
            props: props(r),
            finish: r.chance(75),
        },
        31 => Op::Relate {
            set: idx(r),
            obj: idx(r),
        },
        _ => Op::Transform { obj: idx(r), t: trans(r) },
    }
}
fn layer(r: &mut Rng) -> Op {
    Op::Layer {
        material: name(r),
        name: name(r),
        thickness: len(r),
        vent: r.chance(50),
        more: r.chance(30),
    }
}
fn usage(r: &mut Rng) -> Op {
    Op::Usage {
        set: idx(r),
        axis: r.below(3) as u8,
        positive: r.chance(50),
        offset: coord(r),
    }
}
fn cset(r: &mut Rng) -> Op {
    Op::ConstituentSet {
        items: (0..r.below(4)).map(|_| idx(r)).collect(),
    }
}
fn wtype(r: &mut Rng) -> Op {
    Op::WindowType {
        name: name(r),
        kind: r.below(5) as u8,
        part: r.below(11) as u8,
    }
}
/// what most histories need first
fn basics(r: &mut Rng) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..r.range(1, 3) {
        v.push(layer(r));
    }
    for _ in 0..if r.chance(40) { r.range(2, 4) } else { 1 } {
        v.push(Op::LayerSet {
            layers: (0..r.range(1, 4)).map(|_| idx(r)).collect(),
        });
        v.push(usage(r));
    }
    v.push(Op::Constituent {
        material: name(r),
        name: name(r),
    });
    v.push(cset(r));
    v.push(wtype(r));
    for k in 0..5 {
        if r.chance(70) {
            let (set, name, kind) = (idx(r), name(r), r.below(5) as u8);
            v.push(match k {
                0 => Op::WallType { set, name, kind },
                1 => Op::SlabType { set, name, kind },
                2 => Op::RoofType { set, name, kind },
                3 => Op::ShadingType { set, name, kind },
                _ => Op::SpaceType { name, kind },
            });
        }
    }
    v
}

pub fn gen(r: &mut Rng, size: usize) -> World {
    gen_with(r, size, 30)
}

/// `unwinding`: per cent of histories in which panics unwind through scopes
pub fn gen_with(r: &mut Rng, size: usize, unwinding: u32) -> World {
    let mut ops_left = r.range(1, size.max(1) as i64) as usize;
    let mut first = true;
    let unwind = if r.chance(unwinding) { 15 } else { 0 };
    let theme = if r.chance(50) { r.range(1, 6) as u8 } else { 0 };
    let sites = (0..1 + r.below(2))
        .map(|_| SiteP {
            name: name(r),
            pos: v3(r),
            buildings: (0..r.range(if first { 1 } else { 0 }, 2))
                .map(|_| BuildingP {
                    name: name(r),
                    pos: v3(r),
                    storeys: (0..r.range(if first { 1 } else { 0 }, 2))
                        .map(|_| {
                            let mut ops = vec![];
                            if first || r.chance(30) {
                                ops = basics(r);
                            }
                            first = false;
                            let k = r.below(ops_left + 1);
                            ops_left -= k;
                            ops.extend((0..k).map(|_| op(r, theme)));
                            StoreyP {
                                name: name(r),
                                elevation: coord(r),
                                ops,
                                end: end(r, unwind, 2),
                            }
                        })
                        .collect(),
                    end: end(r, unwind, 1),
                })
                .collect(),
            end: end(r, unwind, 0),
        })
        .collect();
    World {
        app: [name(r), name(r), name(r), name(r), name(r), name(r)],
        person: [0, 1, 2].map(|i| if i == 0 || r.chance(50) { Some(name(r)) } else { None }),
        dev: [0, 1].map(|_| if r.chance(30) { Some(name(r)) } else { None }),
        sites,
    }
}

/// number of builder calls that create something
pub fn size(w: &World) -> u64 {
    w.sites
        .iter()
        .flat_map(|s| &s.buildings)
        .flat_map(|b| &b.storeys)
        .flat_map(|s| &s.ops)
        .map(|o| match o {
            Op::Wall { subs, .. } | Op::Slab { subs, .. } => 1 + subs.len() as u64,
            _ => 1,
        })
        .sum()
}

fn ends(w: &World) -> Vec<End> {
    let mut v = vec![];
    for s in &w.sites {
        v.push(s.end);
        for b in &s.buildings {
            v.push(b.end);
            for y in &b.storeys {
                v.push(y.end);
                for o in &y.ops {
                    match o {
                        Op::Wall { end, subs, .. } | Op::Slab { end, subs, .. } => {
                            v.push(*end);
                            for x in subs {
                                if let Sub::Props { end, .. } = x {
                                    v.push(*end);
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    v
}
pub fn unwinds(w: &World) -> u64 {
    ends(w).iter().filter(|e| matches!(e, End::Unwind(_))).count() as u64
}
pub fn drops(w: &World) -> u64 {
    ends(w).iter().filter(|e| matches!(e, End::Scope)).count() as u64
}

/// outside of what the properties speak of (after minimisation)
pub fn sanitize(w: &mut World) {
    fn nz(d: &mut V3) {
        if d.iter().all(|x| *x == 0.0) {
            *d = [0.0, 0.0, 1.0];
        }
    }
    fn tr(t: &mut Trans) {
        if let Some((a, _)) = &mut t.rot {
            nz(a);
        }
    }
    for o in w.sites.iter_mut().flat_map(|s| &mut s.buildings).flat_map(|b| &mut b.storeys).flat_map(|s| &mut s.ops) {
        match o {
            Op::Wall { shape, subs, .. } => {
                if let WallShape::Arbitrary { dir, .. } = shape {
                    nz(dir);
                }
                subs.iter_mut().for_each(sub);
            }
            Op::Slab { shape, subs, .. } => {
                match shape {
                    SlabShape::Arbitrary { dir, .. } => nz(dir),
                    SlabShape::Vertical { start, end, .. } if start == end => end[0] += 1.0,
                    _ => {}
                }
                subs.iter_mut().for_each(sub);
            }
            Op::Transform { t, .. } => tr(t),
            _ => {}
        }
    }
    fn sub(s: &mut Sub) {
        match s {
            Sub::Opening { dir: Some(d), .. } => nz(d),
            Sub::Window { dir, .. } => nz(dir),
            Sub::Transform { t } => tr(t),
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------------ execution

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Class {
    Material,
    Layer,
    LayerSet,
    Usage,
    Constituent,
    ConstituentSet,
    WallType,
    SlabType,
    RoofType,
    ShadingType,
    WindowType,
    SpaceType,
    Wall,
    Slab,
    Roof,
    Space,
    Shading,
    Opening,
    Window,
    PropSet,
    Single,
}

/// classes objects of which can be related to property sets / transformed by id
pub const ELEMENTS: [Class; 7] = [
    Class::Wall,
    Class::Slab,
    Class::Roof,
    Class::Space,
    Class::Shading,
    Class::Opening,
    Class::Window,
];
pub const MOVABLE: [Class; 6] = [
    Class::Wall,
    Class::Slab,
    Class::Roof,
    Class::Shading,
    Class::Opening,
    Class::Window,
];

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Built {
    pub text: String,
    /// the ids the library returned, in order
    pub ids: BTreeMap<String, Vec<u64>>,
}

#[derive(Default)]
struct Pools {
    material: Vec<TypedId<Material>>,
    layer: Vec<TypedId<MaterialLayer>>,
    set: Vec<TypedId<MaterialLayerSet>>,
    usage: Vec<TypedId<MaterialLayerSetUsage>>,
    constituent: Vec<TypedId<MaterialConstituent>>,
    cset: Vec<TypedId<MaterialConstituentSet>>,
    wall_type: Vec<TypedId<WallType>>,
    slab_type: Vec<TypedId<SlabType>>,
    roof_type: Vec<TypedId<RoofType>>,
    shading_type: Vec<TypedId<ShadingDeviceType>>,
    window_type: Vec<TypedId<WindowType>>,
    space_type: Vec<TypedId<SpaceType>>,
    wall: Vec<TypedId<Wall>>,
    slab: Vec<TypedId<Slab>>,
    roof: Vec<TypedId<Roof>>,
    space: Vec<TypedId<Space>>,
    shading: Vec<TypedId<ShadingDevice>>,
    opening: Vec<TypedId<OpeningElement>>,
    window: Vec<TypedId<Window>>,
    propset: Vec<TypedId<PropertySet>>,
    single: Vec<TypedId<PropertySingleValue>>,
    /// running number for names that have to be unique
    k: u32,
}

fn pick<T: Copy>(v: &[T], i: u32) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[i as usize % v.len()])
    }
}

/// (class, index) of an element by running index over the given classes
fn element(sizes: &[(Class, usize)], i: u32) -> Option<(Class, usize)> {
    let n: usize = sizes.iter().map(|s| s.1).sum();
    if n == 0 {
        return None;
    }
    let mut k = i as usize % n;
    for (c, s) in sizes {
        if k < *s {
            return Some((*c, k));
        }
        k -= s;
    }
    None
}

struct Unwind(u8);

/// catches the simulated panics at a scope; they go on unwinding as long as they are to
fn scope(f: impl FnOnce()) {
    if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
        match e.downcast::<Unwind>() {
            Ok(u) if u.0 == 0 => {}
            Ok(u) => resume_unwind(Box::new(Unwind(u.0 - 1))),
            Err(e) => resume_unwind(e),
        }
    }
}
fn unwind(n: u8) -> ! {
    resume_unwind(Box::new(Unwind(n)))
}

fn uniq(k: &mut u32, n: &str) -> String {
    *k += 1;
    format!("{n} #{k}")
}
fn d3(v: V3) -> DVec3 {
    DVec3::from_array(v)
}
fn d2(v: V2) -> DVec2 {
    DVec2::from_array(v)
}
fn ds2(v: &[V2]) -> Vec<DVec2> {
    v.iter().map(|v| d2(*v)).collect()
}
fn ds3(v: &[V3]) -> Vec<DVec3> {
    v.iter().map(|v| d3(*v)).collect()
}

fn quat(a: V3, w: f64) -> DQuat {
    DQuat::from_axis_angle(d3(a).normalize(), w)
}

fn param(t: &Trans) -> TransformParameter {
    let mut p = TransformParameter::default().translation(d3(t.t));
    if let Some((a, w)) = t.rot {
        p = p.rotation(quat(a, w));
    }
    if let Some(a) = t.axes[0] {
        p = p.x_rotation(d3(a));
    }
    if let Some(a) = t.axes[1] {
        p = p.y_rotation(d3(a));
    }
    if let Some(a) = t.axes[2] {
        p = p.z_rotation(d3(a));
    }
    p
}

fn value(v: &Val) -> IfcValue {
    match v {
        Val::Real(f) => IfcValue::Real((*f).into()),
        Val::Bool(b) => IfcValue::Bool(BoolValue((*b).into())),
        Val::Label(s) => IfcValue::Label(LabelValue(s.as_str().into())),
        Val::Ident(s) => IfcValue::Identifier(IdentifierValue(s.as_str().into())),
        Val::Thermal(f) => IfcValue::ThermalTransmittance(ThermalTransmittanceValue((*f).into())),
    }
}

/// the length unit of the project
fn unit_id(ids: &Pools) -> Option<Id> {
    // properties refer to a layer as a stand-in for a unit: the builder hands out no unit ids
    ids.layer.first().map(|l| l.id())
}

/// inside of a simulated process
pub fn build(w: &World) -> Built {
    let mut b = start(w);
    let mut p = Pools::default();
    for s in &w.sites {
        scope(|| site(&mut b, &mut p, s));
    }
    let text = b.build();
    let mut ids = BTreeMap::new();
    macro_rules! out {
        ($($c:ident $f:ident),*) => {
            $(ids.insert(format!("{:?}", Class::$c), p.$f.iter().map(|i| i.id().0 as u64).collect());)*
        };
    }
    out!(
        Material material, Layer layer, LayerSet set, Usage usage, Constituent constituent, ConstituentSet cset,
        WallType wall_type, SlabType slab_type, RoofType roof_type, ShadingType shading_type, WindowType window_type,
        SpaceType space_type, Wall wall, Slab slab, Roof roof, Space space, Shading shading, Opening opening,
        Window window, PropSet propset, Single single
    );
    Built { text, ids }
}

pub fn start(w: &World) -> IfcProjectBuilder {
    let mut person = Person::empty();
    if let Some(n) = &w.person[0] {
        person = person.given_name(n.as_str());
    }
    if let Some(n) = &w.person[1] {
        person = person.family_name(n.as_str());
    }
    if let Some(n) = &w.person[2] {
        person = person.id(n.as_str());
    }
    IfcProjectBuilder::new(
        ApplicationInfo {
            developer: Organization::new(w.dev[0].as_deref(), w.app[0].as_str(), w.dev[1].as_deref()),
            version: &w.app[1],
            name: &w.app[2],
            short_name: &w.app[3],
        },
        OwnerInfo {
            owner: person,
            organization_name: &w.app[4],
        },
        &w.app[5],
    )
}

fn site(b: &mut IfcProjectBuilder, p: &mut Pools, s: &SiteP) {
    let n = uniq(&mut p.k, &s.name);
    let mut sb = b.new_site(&n, d3(s.pos));
    for x in &s.buildings {
        scope(|| building(&mut sb, p, x));
    }
    match s.end {
        End::Scope => {}
        End::Finish => drop(sb),
        End::Unwind(k) => unwind(k),
    }
}

fn building(s: &mut IfcSiteBuilder<'_>, p: &mut Pools, x: &BuildingP) {
    let n = uniq(&mut p.k, &x.name);
    let mut bb = s.new_building(&n, d3(x.pos));
    for y in &x.storeys {
        scope(|| storey(&mut bb, p, y));
    }
    match x.end {
        End::Scope => {}
        End::Finish => drop(bb),
        End::Unwind(k) => unwind(k),
    }
}

fn storey(b: &mut IfcBuildingBuilder<'_>, p: &mut Pools, y: &StoreyP) {
    let n = uniq(&mut p.k, &y.name);
    let mut st = b.new_storey(&n, y.elevation);
    for o in &y.ops {
        scope(|| run_op(&mut st, p, o));
    }
    match y.end {
        End::Scope => {}
        End::Finish => drop(st),
        End::Unwind(k) => unwind(k),
    }
}

pub fn wall_enum(k: u8) -> WallTypeEnum {
    use WallTypeEnum::*;
    [
        Movable, Parapet, Partitioning, Plumbingwall, Shear, Solidwall, Standard, Polygonal, Elementedwall, Retainingwall,
        UserDefined, NotDefined,
    ][k as usize % 12]
}
fn slab_enum(k: u8) -> SlabTypeEnum {
    use SlabTypeEnum::*;
    [Floor, Roof, Landing, BaseSlab, UserDefined, NotDefined][k as usize % 6]
}
fn roof_enum(k: u8) -> RoofTypeEnum {
    use RoofTypeEnum::*;
    [
        FlatRoof, ShedRoof, GableRoof, HipRoof, HippedGableRoof, GambrelRoof, MansardRoof, BarrelRoof, RainbowRoof,
        ButterflyRoof, PavilionRoof, DomeRoof, UserDefined, NotDefined,
    ][k as usize % 14]
}
fn shading_enum(k: u8) -> ShadingDeviceTypeEnum {
    use ShadingDeviceTypeEnum::*;
    [Awning, Parking, Shutter, UserDefined, NotDefined][k as usize % 5]
}
fn window_enum(k: u8) -> WindowTypeEnum {
    use WindowTypeEnum::*;
    [Window, Skylight, Lightdome, UserDefined, NotDefined][k as usize % 5]
}
fn part_enum(k: u8) -> WindowPartitioningTypeEnum {
    use WindowPartitioningTypeEnum::*;
    [
        SinglePanel, DoublePanelVertical, DoublePanelHorizontal, TriplePanelVertical, TriplePanelHorizontal,
        TriplePanelBottom, TriplePanelTop, TriplePanelLeft, TriplePanelRight, UserDefined, NotDefined,
    ][k as usize % 11]
}
fn space_enum(k: u8) -> SpaceTypeEnum {
    use SpaceTypeEnum::*;
    [Space, Parking, Gfa, Internal, External, UserDefined, NotDefined][k as usize % 7]
}
fn axis_enum(k: u8) -> LayerSetDirectionEnum {
    use LayerSetDirectionEnum::*;
    match k % 3 {
        0 => Axis1,
        1 => Axis2,
        _ => Axis3,
    }
}

fn run_op(st: &mut IfcStoreyBuilder<'_>, p: &mut Pools, o: &Op) {
    match o {
        Op::Material { name } => {
            let i = st.material(name);
            p.material.push(i);
        }
        Op::Layer { material, name, thickness, vent, more } => {
            let mut l = MaterialLayer::new(*thickness, *vent).name(name.as_str());
            if *more {
                l = l.description(name.as_str()).category(material.as_str()).priority(7);
            }
            let i = st.material_layer(material, l);
            p.layer.push(i);
        }
        Op::LayerSet { layers } => {
            let l: Vec<_> = layers.iter().filter_map(|i| pick(&p.layer, *i)).collect();
            let i = st.material_layer_set(l);
            p.set.push(i);
        }
        Op::Usage { set, axis, positive, offset } => {
            let Some(s) = pick(&p.set, *set) else { return };
            let i = st.material_layer_set_usage(
                s,
                axis_enum(*axis),
                if *positive { DirectionSenseEnum::Positive } else { DirectionSenseEnum::Negative },
                *offset,
            );
            p.usage.push(i);
        }
        Op::Constituent { material, name } => {
            let i = st.material_constituent(material, name);
            p.constituent.push(i);
        }
        Op::ConstituentSet { items } => {
            let l: Vec<_> = items.iter().filter_map(|i| pick(&p.constituent, *i)).collect();
            let i = st.material_constituent_set(l);
            p.cset.push(i);
        }
        Op::WallType { set, name, kind } => {
            let Some(s) = pick(&p.set, *set) else { return };
            let i = st.wall_type(s, name, wall_enum(*kind));
            p.wall_type.push(i);
        }
        Op::SlabType { set, name, kind } => {
            let Some(s) = pick(&p.set, *set) else { return };
            let i = st.slab_type(s, name, slab_enum(*kind));
            p.slab_type.push(i);
        }
        Op::RoofType { set, name, kind } => {
            let Some(s) = pick(&p.set, *set) else { return };
            let i = st.roof_type(s, name, roof_enum(*kind));
            p.roof_type.push(i);
        }
        Op::ShadingType { set, name, kind } => {
            let Some(s) = pick(&p.set, *set) else { return };
            let i = st.shading_device_type(s, name, shading_enum(*kind));
            p.shading_type.push(i);
        }
        Op::WindowType { name, kind, part } => {
            let i = st.window_type(name, window_enum(*kind), part_enum(*part));
            p.window_type.push(i);
        }
        Op::SpaceType { name, kind } => {
            let i = st.space_type(name, space_enum(*kind));
            p.space_type.push(i);
        }
        Op::Wall { usage, ty, name, shape, place, subs, end } => {
            let (Some(u), Some(t)) = (pick(&p.usage, *usage), pick(&p.wall_type, *ty)) else { return };
            let placement = d3(*place);
            let mut w = match shape {
                WallShape::Vertical { height, length } => st.vertical_wall(
                    u,
                    t,
                    name,
                    VerticalWallParameter {
                        height: *height,
                        length: *length,
                        placement,
                    },
                ),
                WallShape::VerticalArbitrary { coords } => st.vertical_arbitrary_wall(
                    u,
                    t,
                    name,
                    VerticalArbitraryWallParameter {
                        coords: ds2(coords),
                        placement,
                    },
                ),
                WallShape::Arbitrary { coords, dir } => st.arbitrary_wall(
                    u,
                    t,
                    name,
                    ArbitraryWallParameter {
                        coords: ds3(coords),
                        direction: d3(*dir),
                        placement,
                    },
                ),
            };
            p.wall.push(w.get_id());
            for s in subs {
                scope(|| wall_sub(&mut w, p, s));
            }
            match end {
                End::Scope => {}
                End::Finish => {
                    let _ = w.finish();
                }
                End::Unwind(k) => unwind(*k),
            }
        }
        Op::Slab { usage, ty, name, shape, place, subs, end } => {
            let (Some(u), Some(t)) = (pick(&p.usage, *usage), pick(&p.slab_type, *ty)) else { return };
            let placement = d3(*place);
            let n = uniq(&mut p.k, name);
            let mut w = match shape {
                SlabShape::Horizontal { coords } => st.horizontal_arbitrary_slab(
                    u,
                    t,
                    &n,
                    HorizontalArbitrarySlabParameter {
                        coords: ds2(coords),
                        placement,
                    },
                ),
                SlabShape::Vertical { start, end, height } => st.vertical_slab(
                    u,
                    t,
                    &n,
                    VerticalSlabParameter {
                        start: d2(*start),
                        end: d2(*end),
                        height: *height,
                        placement,
                    },
                ),
                SlabShape::Arbitrary { coords, dir } => st.arbitrary_slab(
                    u,
                    t,
                    &n,
                    ArbitrarySlabParameter {
                        coords: ds3(coords),
                        direction: d3(*dir),
                        placement,
                    },
                ),
            };
            for s in subs {
                scope(|| slab_sub(&mut w, p, s));
            }
            match end {
                End::Scope => {}
                End::Finish => p.slab.push(w.finish()),
                End::Unwind(k) => unwind(*k),
            }
        }
        Op::Roof { usage, ty, name, coords, place } => {
            let (Some(u), Some(t)) = (pick(&p.usage, *usage), pick(&p.roof_type, *ty)) else { return };
            let i = st.horizontal_arbitrary_roof(
                u,
                t,
                name,
                HorizontalArbitraryRoofParameter {
                    coords: ds2(coords),
                    placement: d3(*place),
                },
            );
            p.roof.push(i);
        }
        Op::Space { ty, name, coords, height, place } => {
            let Some(t) = pick(&p.space_type, *ty) else { return };
            let i = st.space(
                t,
                name,
                SpaceParameter {
                    coords: ds2(coords),
                    height: *height,
                    placement: d3(*place),
                },
            );
            p.space.push(i);
        }
        Op::Shading { usage, ty, name, height, length, place } => {
            let (Some(u), Some(t)) = (pick(&p.usage, *usage), pick(&p.shading_type, *ty)) else { return };
            let i = st.vertical_shading_device(
                u,
                t,
                name,
                VerticalShadingDeviceParameter {
                    height: *height,
                    length: *length,
                    placement: d3(*place),
                },
            );
            p.shading.push(i);
        }
        Op::Props { name, props, finish } => {
            let unit = unit_id(p);
            let mut b = st.add_properties(name);
            for x in props {
                let i = b.single_property(&x.name, value(&x.val), unit.filter(|_| x.unit));
                p.single.push(i);
            }
            if *finish {
                p.propset.push(b.finish());
            }
        }
        Op::Relate { set, obj } => {
            let Some(s) = pick(&p.propset, *set) else { return };
            let sizes = p.sizes(&ELEMENTS);
            let Some((c, i)) = element(&sizes, *obj) else { return };
            match c {
                Class::Wall => st.relate_properties_object(s, p.wall[i]),
                Class::Slab => st.relate_properties_object(s, p.slab[i]),
                Class::Roof => st.relate_properties_object(s, p.roof[i]),
                Class::Space => st.relate_properties_object(s, p.space[i]),
                Class::Shading => st.relate_properties_object(s, p.shading[i]),
                Class::Opening => st.relate_properties_object(s, p.opening[i]),
                _ => st.relate_properties_object(s, p.window[i]),
            }
        }
        Op::Transform { obj, t } => {
            let sizes = p.sizes(&MOVABLE);
            let Some((c, i)) = element(&sizes, *obj) else { return };
            let t = param(t);
            match c {
                Class::Wall => st.transform(p.wall[i], &t),
                Class::Slab => st.transform(p.slab[i], &t),
                Class::Roof => st.transform(p.roof[i], &t),
                Class::Shading => st.transform(p.shading[i], &t),
                Class::Opening => st.transform(p.opening[i], &t),
                _ => st.transform(p.window[i], &t),
            }
        }
    }
}

impl Pools {
    fn sizes(&self, cs: &[Class]) -> Vec<(Class, usize)> {
        cs.iter()
            .map(|c| {
                (
                    *c,
                    match c {
                        Class::Wall => self.wall.len(),
                        Class::Slab => self.slab.len(),
                        Class::Roof => self.roof.len(),
                        Class::Space => self.space.len(),
                        Class::Shading => self.shading.len(),
                        Class::Opening => self.opening.len(),
                        _ => self.window.len(),
                    },
                )
            })
            .collect()
    }
}

fn wall_sub(w: &mut IfcWallBuilder<'_, '_>, p: &mut Pools, s: &Sub) {
    match s {
        Sub::Opening { name, h, l, place, dir } => {
            let i = match dir {
                Some(d) => w.opening(
                    name,
                    CustomDirectionOpeningParameter {
                        height: *h,
                        length: *l,
                        placement: d3(*place),
                        direction: d3(*d),
                    },
                ),
                None => w.vertical_opening(
                    name,
                    OpeningParameter {
                        height: *h,
                        length: *l,
                        placement: d3(*place),
                    },
                ),
            };
            p.opening.push(i);
        }
        Sub::Window { set, ty, name, h, w: width, place, dir } => {
            let (Some(c), Some(t)) = (pick(&p.cset, *set), pick(&p.window_type, *ty)) else { return };
            let n = uniq(&mut p.k, name);
            let i = w.window_with_opening(
                c,
                t,
                &n,
                WindowParameter {
                    height: *h,
                    width: *width,
                    placement: d3(*place),
                },
                Direction3D::from(d3(*dir)),
            );
            p.window.push(i);
        }
        Sub::Props { name, props, end } => {
            let unit = unit_id(p);
            let n = uniq(&mut p.k, name);
            let mut b = w.add_properties(&n);
            for x in props {
                let i = b.single_property(&x.name, value(&x.val), unit.filter(|_| x.unit));
                p.single.push(i);
            }
            match end {
                End::Scope => {}
                End::Finish => drop(b),
                End::Unwind(k) => unwind(*k),
            }
        }
        Sub::Transform { t } => w.transform(param(t)),
        _ => {}
    }
}

fn slab_sub(w: &mut IfcSlabBuilder<'_, '_>, p: &mut Pools, s: &Sub) {
    match s {
        Sub::Opening { name, h, l, place, .. } => {
            let i = w.rect_opening(
                name,
                OpeningParameter {
                    height: *h,
                    length: *l,
                    placement: d3(*place),
                },
            );
            p.opening.push(i);
        }
        Sub::Horizontal { name, coords } => {
            let i = w.horizontal_arbitrary_opening(name, HorizontalArbitraryOpeningParameter { coords: ds2(coords) });
            p.opening.push(i);
        }
        Sub::Arbitrary { name, coords } => {
            let i = w.arbitrary_opening(name, ArbitraryOpeningParameter { coords: ds3(coords) });
            p.opening.push(i);
        }
        Sub::Window { set, ty, name, h, w: width, place, .. } => {
            let (Some(c), Some(t)) = (pick(&p.cset, *set), pick(&p.window_type, *ty)) else { return };
            let n = uniq(&mut p.k, name);
            let i = w.window_with_opening(
                c,
                t,
                &n,
                WindowParameter {
                    height: *h,
                    width: *width,
                    placement: d3(*place),
                },
            );
            p.window.push(i);
        }
        Sub::HorizontalWindow { set, ty, name, coords } => {
            let (Some(c), Some(t)) = (pick(&p.cset, *set), pick(&p.window_type, *ty)) else { return };
            let n = uniq(&mut p.k, name);
            let i = w.horizontal_arbitrary_window_with_opening(
                c,
                t,
                &n,
                HorizontalArbitraryWindowParameter { coords: ds2(coords) },
            );
            p.window.push(i);
        }
        Sub::ArbitraryWindow { set, ty, name, coords } => {
            let (Some(c), Some(t)) = (pick(&p.cset, *set), pick(&p.window_type, *ty)) else { return };
            let n = uniq(&mut p.k, name);
            let i = w.arbitrary_window_with_opening(c, t, &n, ArbitraryWindowParameter { coords: ds3(coords) });
            p.window.push(i);
        }
        Sub::Transform { t } => w.transform(param(t)),
        Sub::Props { .. } => {}
    }
}

// ------------------------------------------------------------------------------ model

/// x -> m x + t
#[derive(Clone, Debug, PartialEq)]
pub struct Affine {
    pub m: [V3; 3],
    pub t: V3,
}

impl Affine {
    pub fn id() -> Self {
        Self {
            m: [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
            t: [0.0; 3],
        }
    }
    /// columns
    pub fn new(x: V3, y: V3, z: V3, t: V3) -> Self {
        let mut m = [[0.0; 3]; 3];
        for i in 0..3 {
            m[i] = [x[i], y[i], z[i]];
        }
        Self { m, t }
    }
    pub fn apply(&self, p: V3) -> V3 {
        let mut o = self.t;
        for i in 0..3 {
            for j in 0..3 {
                o[i] += self.m[i][j] * p[j];
            }
        }
        o
    }
    /// self after other
    pub fn after(&self, o: &Affine) -> Affine {
        let mut m = [[0.0; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = (0..3).map(|k| self.m[i][k] * o.m[k][j]).sum();
            }
        }
        Affine { m, t: self.apply(o.t) }
    }
    pub fn close(&self, o: &Affine) -> bool {
        let mag = self
            .t
            .iter()
            .chain(&o.t)
            .fold(1.0f64, |a, b| a.max(b.abs()));
        (0..3).all(|i| (self.t[i] - o.t[i]).abs() <= 1e-9 * mag)
            && (0..3).all(|i| (0..3).all(|j| (self.m[i][j] - o.m[i][j]).abs() <= 1e-9))
    }
}

pub fn unit(v: V3) -> V3 {
    let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    v.map(|x| x / n)
}

fn affine(t: &Trans) -> Affine {
    let mut c = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    if let Some((a, w)) = t.rot {
        // Rodrigues
        let k = unit(a);
        for v in &mut c {
            let kxv = [
                k[1] * v[2] - k[2] * v[1],
                k[2] * v[0] - k[0] * v[2],
                k[0] * v[1] - k[1] * v[0],
            ];
            let kv: f64 = (0..3).map(|i| k[i] * v[i]).sum();
            let mut o = [0.0; 3];
            for i in 0..3 {
                o[i] = v[i] * w.cos() + kxv[i] * w.sin() + k[i] * kv * (1.0 - w.cos());
            }
            *v = o;
        }
    }
    for i in 0..3 {
        if let Some(a) = t.axes[i] {
            if a != [0.0; 3] {
                c[i] = unit(a);
            }
        }
    }
    Affine::new(c[0], c[1], c[2], t.t)
}

#[derive(Clone, Debug)]
pub struct ReprE {
    /// the representation as first made
    pub base: Node,
    pub at: Affine,
    /// transformed through the storey: the outer identifier is not judged
    pub loose: bool,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub kw: &'static str,
    /// the name it can be found by if the library did not return its id
    pub name: String,
    pub id: Option<u64>,
    /// its attributes, references expanded; `Any` where the shape is
    pub tree: Node,
    pub shape: Option<Vec<ReprE>>,
    /// expected local placement point and parent (for hosted parts)
    pub local: V3,
    pub place: Node,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub objs: Vec<Obj>,
    pub pools: BTreeMap<Class, Vec<usize>>,
    /// objects which cannot be located by id or name: counted by content
    pub anon: Vec<(&'static str, Node)>,
    /// (kind of relation, relating object, related object)
    pub pairs: Vec<(&'static str, usize, usize)>,
    /// the same, the relating object being one of `anon`; these may be there
    pub anon_pairs: Vec<(&'static str, Node, usize)>,
    k: u32,
}

fn s(t: &str) -> Node {
    Node::Str(crate::edits::enc(t))
}
fn os(t: Option<&str>) -> Node {
    t.map(s).unwrap_or(Node::Null)
}
fn ty(k: &str, v: Vec<Node>) -> Node {
    Node::Typed(k.into(), v)
}
fn f(x: f64) -> Node {
    Node::F(x)
}
fn e(x: &str) -> Node {
    Node::Enum(x.into())
}
fn l(v: Vec<Node>) -> Node {
    Node::List(v)
}
fn point(p: V3) -> Node {
    ty("IFCCARTESIANPOINT", vec![l(p.iter().map(|x| f(*x)).collect())])
}
fn point2(p: V2) -> Node {
    ty("IFCCARTESIANPOINT", vec![l(p.iter().map(|x| f(*x)).collect())])
}
fn direction(p: V3) -> Node {
    ty("IFCDIRECTION", vec![l(p.iter().map(|x| f(*x)).collect())])
}
fn axis3(p: V3) -> Node {
    ty("IFCAXIS2PLACEMENT3D", vec![point(p), Node::Null, Node::Null])
}
fn placed(parent: Option<&Node>, p: V3) -> Node {
    ty("IFCLOCALPLACEMENT", vec![parent.cloned().unwrap_or(Node::Null), axis3(p)])
}
fn poly2d(c: &[V2]) -> Node {
    ty(
        "IFCINDEXEDPOLYCURVE",
        vec![
            ty("IFCCARTESIANPOINTLIST2D", vec![l(c.iter().map(|p| l(vec![f(p[0]), f(p[1])])).collect()), Node::Any]),
            Node::Any,
            Node::Any,
        ],
    )
}
fn poly3d(c: &[V3]) -> Node {
    ty(
        "IFCINDEXEDPOLYCURVE",
        vec![
            ty(
                "IFCCARTESIANPOINTLIST3D",
                vec![l(c.iter().map(|p| l(p.iter().map(|x| f(*x)).collect())).collect()), Node::Any],
            ),
            Node::Any,
            Node::Any,
        ],
    )
}
fn profile(curve: Node) -> Node {
    ty("IFCARBITRARYCLOSEDPROFILEDEF", vec![e("AREA"), Node::Any, curve])
}
/// extrusion; positions that leave everything where it is are as good as none
fn extruded(profile: Node, dir: V3, depth: f64) -> Node {
    ty("IFCEXTRUDEDAREASOLID", vec![profile, Node::Any, direction(dir), f(depth)])
}
fn rectangle(length: f64, thickness: f64) -> Node {
    ty(
        "IFCRECTANGLEPROFILEDEF",
        vec![
            e("AREA"),
            Node::Any,
            ty("IFCAXIS2PLACEMENT2D", vec![point2([length * 0.5, thickness * 0.5]), Node::Any]),
            f(length),
            f(thickness),
        ],
    )
}

pub fn context() -> Node {
    ty(
        "IFCGEOMETRICREPRESENTATIONCONTEXT",
        vec![Node::Any, Node::Any, Node::Num("3".into()), Node::Any, axis3([0.0; 3]), Node::Any],
    )
}
pub fn subcontext() -> Node {
    ty(
        "IFCGEOMETRICREPRESENTATIONSUBCONTEXT",
        vec![
            Node::Any, Node::Any, Node::Star, Node::Star, Node::Star, Node::Star,
            context(),
            Node::Any,
            e("MODEL_VIEW"),
            Node::Any,
        ],
    )
}
fn repr(id: &str, kind: &str, items: Vec<Node>) -> Node {
    ty("IFCSHAPEREPRESENTATION", vec![subcontext(), s(id), s(kind), l(items)])
}
fn body(item: Node) -> ReprE {
    ReprE {
        base: repr("Body", "SweptSolid", vec![item]),
        at: Affine::id(),
        loose: false,
    }
}
/// length in x, height along `dir`, thickness in y
fn rect_body(length: f64, height: f64, thickness: f64, dir: V3) -> ReprE {
    body(extruded(rectangle(length, thickness), dir, height))
}
fn axis_repr(to: V3) -> ReprE {
    ReprE {
        base: repr("Axis", "Curve2D", vec![ty("IFCPOLYLINE", vec![l(vec![point([0.0; 3]), point(to)])])]),
        at: Affine::id(),
        loose: false,
    }
}

fn nth(list: &str, k: u8) -> Node {
    let v: Vec<&str> = list.split(' ').collect();
    e(v[k as usize % v.len()])
}

/// how far a panic goes on
type Flow = Option<u8>;

impl Model {
    pub fn owner(w: &World) -> Node {
        let person = Self::person(w);
        let pao = ty("IFCPERSONANDORGANIZATION", vec![person, Self::org(w), Node::Null]);
        ty(
            "IFCOWNERHISTORY",
            vec![
                pao.clone(),
                Self::app(w),
                Node::Null,
                e("ADDED"),
                Node::Any,
                pao,
                Self::app(w),
                Node::Any,
            ],
        )
    }
    fn person(w: &World) -> Node {
        ty(
            "IFCPERSON",
            vec![
                os(w.person[2].as_deref()),
                os(w.person[1].as_deref()),
                os(w.person[0].as_deref()),
                Node::Any, Node::Any, Node::Any, Node::Null, Node::Null,
            ],
        )
    }
    fn org(w: &World) -> Node {
        ty("IFCORGANIZATION", vec![Node::Null, s(&w.app[4]), Node::Null, Node::Null, Node::Null])
    }
    fn app(w: &World) -> Node {
        let dev = ty(
            "IFCORGANIZATION",
            vec![os(w.dev[0].as_deref()), s(&w.app[0]), os(w.dev[1].as_deref()), Node::Null, Node::Null],
        );
        ty("IFCAPPLICATION", vec![dev, s(&w.app[1]), s(&w.app[2]), s(&w.app[3])])
    }

    pub fn of(w: &World) -> Model {
        let mut m = Model::default();
        let owner = Self::owner(w);
        let si = |t: &str, n: &str| ty("IFCSIUNIT", vec![Node::Star, e(t), Node::Null, e(n)]);
        let units = l(vec![
            si("LENGTHUNIT", "METRE"),
            si("PLANEANGLEUNIT", "RADIAN"),
            si("TIMEUNIT", "SECOND"),
        ]);
        let project = m.add(Obj {
            kw: "IFCPROJECT",
            name: w.app[5].clone(),
            id: None,
            tree: ty(
                "IFCPROJECT",
                vec![
                    Node::Any,
                    owner.clone(),
                    s(&w.app[5]),
                    Node::Any, Node::Any, Node::Any, Node::Any,
                    l(vec![context()]),
                    ty("IFCUNITASSIGNMENT", vec![units]),
                ],
            ),
            shape: None,
            local: [0.0; 3],
            place: Node::Null,
        });
        // what the project consists of besides
        let Node::Typed(_, oh) = &owner else { unreachable!() };
        let Node::Typed(_, pao) = &oh[0] else { unreachable!() };
        let Node::Typed(_, app) = &oh[1] else { unreachable!() };
        m.anon.extend([
            ("IFCPERSONANDORGANIZATION", oh[0].clone()),
            ("IFCPERSON", pao[0].clone()),
            ("IFCORGANIZATION", pao[1].clone()),
            ("IFCORGANIZATION", app[0].clone()),
            ("IFCAPPLICATION", oh[1].clone()),
            ("IFCGEOMETRICREPRESENTATIONCONTEXT", context()),
            ("IFCGEOMETRICREPRESENTATIONSUBCONTEXT", subcontext()),
            ("IFCSIUNIT", si("LENGTHUNIT", "METRE")),
            ("IFCSIUNIT", si("PLANEANGLEUNIT", "RADIAN")),
            ("IFCSIUNIT", si("TIMEUNIT", "SECOND")),
        ]);
        m.anon.push(("IFCOWNERHISTORY", owner.clone()));
        for x in &w.sites {
            m.site(&owner, project, x);
        }
        m
    }

    fn add(&mut self, o: Obj) -> usize {
        self.objs.push(o);
        self.objs.len() - 1
    }
    /// an object whose id the library returns
    fn known(&mut self, c: Class, o: Obj) -> usize {
        let i = self.add(o);
        self.pools.entry(c).or_default().push(i);
        i
    }
    fn pick(&self, c: Class, i: u32) -> Option<usize> {
        pick(self.pools.get(&c).map(|v| &v[..]).unwrap_or(&[]), i)
    }
    fn sizes(&self, cs: &[Class]) -> Vec<(Class, usize)> {
        cs.iter().map(|c| (*c, self.pools.get(c).map_or(0, |v| v.len()))).collect()
    }
    fn plain(kw: &'static str, tree: Vec<Node>) -> Obj {
        Obj {
            kw,
            name: String::new(),
            id: None,
            tree: ty(kw, tree),
            shape: None,
            local: [0.0; 3],
            place: Node::Null,
        }
    }
    fn pair(&mut self, kw: &'static str, a: usize, b: usize) {
        self.pairs.push((kw, a, b));
    }

    fn spatial(kw: &'static str, owner: &Node, n: String, place: Node, pos: V3, more: usize) -> Obj {
        let mut v = vec![Node::Any, owner.clone(), s(&n), Node::Any, Node::Any, place.clone(), Node::Null];
        v.extend(vec![Node::Any; more]);
        Obj {
            kw,
            name: n,
            id: None,
            tree: ty(kw, v),
            shape: None,
            local: pos,
            place,
        }
    }

    fn site(&mut self, owner: &Node, project: usize, x: &SiteP) {
        let n = uniq(&mut self.k, &x.name);
        let o = Self::spatial("IFCSITE", owner, n, placed(None, x.pos), x.pos, 7);
        let i = self.add(o);
        self.pair("IFCRELAGGREGATES", project, i);
        for b in &x.buildings {
            match self.building(owner, i, b) {
                None | Some(0) => {}
                Some(_) => return,
            }
        }
    }

    fn building(&mut self, owner: &Node, site: usize, x: &BuildingP) -> Flow {
        let n = uniq(&mut self.k, &x.name);
        let place = placed(Some(&self.objs[site].place), x.pos);
        let o = Self::spatial("IFCBUILDING", owner, n, place, x.pos, 5);
        let i = self.add(o);
        self.pair("IFCRELAGGREGATES", site, i);
        for y in &x.storeys {
            match self.storey(owner, i, y) {
                None | Some(0) => {}
                Some(k) => return Some(k - 1),
            }
        }
        match x.end {
            End::Unwind(k) => Some(k),
            _ => None,
        }
    }

    fn storey(&mut self, owner: &Node, building: usize, y: &StoreyP) -> Flow {
        let n = uniq(&mut self.k, &y.name);
        let pos = [0.0, 0.0, y.elevation];
        let place = placed(Some(&self.objs[building].place), pos);
        let o = Self::spatial("IFCBUILDINGSTOREY", owner, n, place, pos, 3);
        let i = self.add(o);
        self.pair("IFCRELAGGREGATES", building, i);
        let single = ty(
            "IFCPROPERTYSINGLEVALUE",
            vec![s("Storey Height"), Node::Any, ty("IFCREAL", vec![f(y.elevation)]), Node::Null],
        );
        self.anon.push(("IFCPROPERTYSINGLEVALUE", single.clone()));
        let set = ty(
            "IFCPROPERTYSET",
            vec![Node::Any, Node::Any, s("StoreyProperties"), Node::Any, l(vec![single])],
        );
        self.anon_pairs.push(("IFCRELDEFINESBYPROPERTIES", set.clone(), i));
        self.anon.push(("IFCPROPERTYSET", set));
        for o in &y.ops {
            match self.op(owner, i, o) {
                None | Some(0) => {}
                Some(k) => return Some(k - 1),
            }
        }
        match y.end {
            End::Unwind(k) => Some(k),
            _ => None,
        }
    }

    fn material(n: &str) -> Node {
        ty("IFCMATERIAL", vec![s(n), Node::Null, Node::Null])
    }

    fn typ(&mut self, c: Class, kw: &'static str, owner: &Node, set: Option<u32>, n: &str, own: Vec<Node>) {
        let set = match set {
            None => None,
            Some(i) => match self.pick(Class::LayerSet, i) {
                None => return,
                x => x,
            },
        };
        let mut v = vec![
            Node::Any,
            owner.clone(),
            s(n),
            Node::Any,
            Node::Any,
            Node::Null,
            Node::Null,
            Node::Any,
            Node::Any,
        ];
        v.extend(own);
        let i = self.known(c, Self::plain(kw, v));
        if let Some(set) = set {
            self.pair("IFCRELASSOCIATESMATERIAL", set, i);
        }
    }

    /// thickness of a usage's layers
    fn thickness(&self, usage: usize) -> f64 {
        let Node::Typed(_, v) = &self.objs[usage].tree else { unreachable!() };
        let Node::Typed(_, v) = &v[0] else { unreachable!() };
        let Node::List(v) = &v[0] else { unreachable!() };
        v.iter()
            .map(|x| match x {
                Node::Typed(_, a) => match a[1] {
                    Node::F(t) => t,
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            })
            .sum()
    }

    #[allow(clippy::too_many_arguments)]
    fn element(
        &mut self,
        c: Option<Class>,
        kw: &'static str,
        owner: &Node,
        n: &str,
        parent: usize,
        pos: V3,
        shape: Vec<ReprE>,
        more: usize,
    ) -> usize {
        let place = placed(Some(&self.objs[parent].place), pos);
        let mut v = vec![Node::Any, owner.clone(), s(n), Node::Any, Node::Any, place.clone(), Node::Any];
        v.extend(vec![Node::Any; more]);
        let o = Obj {
            kw,
            name: n.into(),
            id: None,
            tree: ty(kw, v),
            shape: Some(shape),
            local: pos,
            place,
        };
        match c {
            Some(c) => self.known(c, o),
            None => self.add(o),
        }
    }

    fn props(&mut self, props: &[PropP]) -> Vec<Node> {
        let unit = self.pick(Class::Layer, 0);
        props
            .iter()
            .map(|x| {
                let val = match &x.val {
                    Val::Real(v) => ty("IFCREAL", vec![f(*v)]),
                    Val::Bool(b) => ty("IFCBOOLEAN", vec![e(if *b { "T" } else { "F" })]),
                    Val::Label(t) => ty("IFCLABEL", vec![s(t)]),
                    Val::Ident(t) => ty("IFCIDENTIFIER", vec![s(t)]),
                    Val::Thermal(v) => ty("IFCTHERMALTRANSMITTANCEMEASURE", vec![f(*v)]),
                };
                let u = match unit {
                    Some(u) if x.unit => self.objs[u].tree.clone(),
                    _ => Node::Null,
                };
                let t = vec![s(&x.name), Node::Any, val, u];
                self.known(Class::Single, Self::plain("IFCPROPERTYSINGLEVALUE", t.clone()));
                ty("IFCPROPERTYSINGLEVALUE", t)
            })
            .collect()
    }
    fn propset(n: &str, props: Vec<Node>) -> Obj {
        Obj {
            name: n.into(),
            ..Self::plain("IFCPROPERTYSET", vec![Node::Any, Node::Any, s(n), Node::Any, l(props)])
        }
    }

    fn op(&mut self, owner: &Node, st: usize, o: &Op) -> Flow {
        use crate::schema as sc;
        match o {
            Op::Material { name } => {
                self.known(Class::Material, Self::plain("IFCMATERIAL", vec![s(name), Node::Null, Node::Null]));
            }
            Op::Layer { material, name, thickness, vent, more } => {
                let mat = Self::material(material);
                self.anon.push(("IFCMATERIAL", mat.clone()));
                self.known(
                    Class::Layer,
                    Self::plain(
                        "IFCMATERIALLAYER",
                        vec![
                            mat,
                            f(*thickness),
                            e(if *vent { "T" } else { "F" }),
                            s(name),
                            if *more { s(name) } else { Node::Null },
                            if *more { s(material) } else { Node::Null },
                            if *more { Node::Num("7".into()) } else { Node::Null },
                        ],
                    ),
                );
            }
            Op::LayerSet { layers } => {
                let v = layers
                    .iter()
                    .filter_map(|i| self.pick(Class::Layer, *i))
                    .map(|i| self.objs[i].tree.clone())
                    .collect();
                self.known(Class::LayerSet, Self::plain("IFCMATERIALLAYERSET", vec![l(v), Node::Any, Node::Any]));
            }
            Op::Usage { set, axis, positive, offset } => {
                let i = self.pick(Class::LayerSet, *set)?;
                let t = self.objs[i].tree.clone();
                self.known(
                    Class::Usage,
                    Self::plain(
                        "IFCMATERIALLAYERSETUSAGE",
                        vec![t, nth(sc::AXIS, *axis), e(if *positive { "POSITIVE" } else { "NEGATIVE" }), f(*offset), Node::Any],
                    ),
                );
            }
            Op::Constituent { material, name } => {
                let mat = Self::material(material);
                self.anon.push(("IFCMATERIAL", mat.clone()));
                self.known(
                    Class::Constituent,
                    Self::plain("IFCMATERIALCONSTITUENT", vec![s(name), Node::Any, mat, Node::Any, Node::Any]),
                );
            }
            Op::ConstituentSet { items } => {
                let v = items
                    .iter()
                    .filter_map(|i| self.pick(Class::Constituent, *i))
                    .map(|i| self.objs[i].tree.clone())
                    .collect();
                self.known(
                    Class::ConstituentSet,
                    Self::plain("IFCMATERIALCONSTITUENTSET", vec![Node::Any, Node::Any, l(v)]),
                );
            }
            Op::WallType { set, name, kind } => {
                self.typ(Class::WallType, "IFCWALLTYPE", owner, Some(*set), name, vec![nth(sc::WALL_TYPE, *kind)])
            }
            Op::SlabType { set, name, kind } => {
                self.typ(Class::SlabType, "IFCSLABTYPE", owner, Some(*set), name, vec![nth(sc::SLAB_TYPE, *kind)])
            }
            Op::RoofType { set, name, kind } => {
                self.typ(Class::RoofType, "IFCROOFTYPE", owner, Some(*set), name, vec![nth(sc::ROOF_TYPE, *kind)])
            }
            Op::ShadingType { set, name, kind } => self.typ(
                Class::ShadingType,
                "IFCSHADINGDEVICETYPE",
                owner,
                Some(*set),
                name,
                vec![nth(sc::SHADING_TYPE, *kind)],
            ),
            Op::WindowType { name, kind, part } => self.typ(
                Class::WindowType,
                "IFCWINDOWTYPE",
                owner,
                None,
                name,
                vec![nth(sc::WINDOW_TYPE, *kind), nth(sc::WINDOW_PART, *part), Node::Any, Node::Any],
            ),
            Op::SpaceType { name, kind } => self.typ(
                Class::SpaceType,
                "IFCSPACETYPE",
                owner,
                None,
                name,
                vec![nth(sc::SPACE_TYPE, *kind), Node::Any],
            ),
            Op::Wall { usage, ty, name, shape, place, subs, end } => {
                let u = self.pick(Class::Usage, *usage)?;
                let t = self.pick(Class::WallType, *ty)?;
                let d = self.thickness(u);
                let shape = match shape {
                    WallShape::Vertical { height, length } => {
                        vec![rect_body(*length, *height, d, [0.0, 0.0, 1.0]), axis_repr([1.0, 0.0, 0.0])]
                    }
                    WallShape::VerticalArbitrary { coords } => {
                        let c: Vec<V3> = coords.iter().map(|c| [c[0], 0.0, c[1]]).collect();
                        vec![
                            body(extruded(profile(poly3d(&c)), [0.0, 1.0, 0.0], d)),
                            axis_repr([1.0, 0.0, 0.0]),
                        ]
                    }
                    WallShape::Arbitrary { coords, dir } => {
                        // along the wall: horizontal, across the direction of the thickness
                        let a = [dir[1], -dir[0], 0.0];
                        let n = (a[0] * a[0] + a[1] * a[1]).sqrt();
                        let a = if n > 0.0 { [a[0] / n, a[1] / n, 0.0] } else { [1.0, 0.0, 0.0] };
                        vec![body(extruded(profile(poly3d(coords)), *dir, d)), axis_repr(a)]
                    }
                };
                let i = self.element(Some(Class::Wall), "IFCWALL", owner, name, st, *place, shape, 2);
                self.pair("IFCRELCONTAINEDINSPATIALSTRUCTURE", st, i);
                self.pair("IFCRELDEFINESBYTYPE", t, i);
                self.pair("IFCRELASSOCIATESMATERIAL", u, i);
                return self.hosted(owner, i, d, None, subs, *end);
            }
            Op::Slab { usage, ty, name, shape, place, subs, end } => {
                let u = self.pick(Class::Usage, *usage)?;
                let t = self.pick(Class::SlabType, *ty)?;
                let d = self.thickness(u);
                let n = uniq(&mut self.k, name);
                let (sh, dir) = match shape {
                    SlabShape::Horizontal { coords } => (poly2d(coords), [0.0, 0.0, 1.0]),
                    SlabShape::Vertical { start, end, height } => {
                        let c = [
                            [start[0], start[1], *height],
                            [start[0], start[1], 0.0],
                            [end[0], end[1], 0.0],
                            [end[0], end[1], *height],
                        ];
                        // (start - end) x Z
                        (poly3d(&c), [start[1] - end[1], end[0] - start[0], 0.0])
                    }
                    SlabShape::Arbitrary { coords, dir } => (poly3d(coords), *dir),
                };
                let shape = vec![body(extruded(profile(sh), dir, d))];
                let i = self.element(None, "IFCSLAB", owner, &n, st, *place, shape, 2);
                self.pair("IFCRELCONTAINEDINSPATIALSTRUCTURE", st, i);
                self.pair("IFCRELDEFINESBYTYPE", t, i);
                self.pair("IFCRELASSOCIATESMATERIAL", u, i);
                return self.hosted(owner, i, d, Some(dir), subs, *end);
            }
            Op::Roof { usage, ty, name, coords, place } => {
                let u = self.pick(Class::Usage, *usage)?;
                let t = self.pick(Class::RoofType, *ty)?;
                let d = self.thickness(u);
                let shape = vec![body(extruded(profile(poly2d(coords)), [0.0, 0.0, 1.0], d))];
                let i = self.element(Some(Class::Roof), "IFCROOF", owner, name, st, *place, shape, 2);
                self.pair("IFCRELCONTAINEDINSPATIALSTRUCTURE", st, i);
                self.pair("IFCRELDEFINESBYTYPE", t, i);
                self.pair("IFCRELASSOCIATESMATERIAL", u, i);
            }
            Op::Space { ty, name, coords, height, place } => {
                let t = self.pick(Class::SpaceType, *ty)?;
                let shape = vec![body(extruded(profile(poly2d(coords)), [0.0, 0.0, 1.0], *height))];
                let i = self.element(Some(Class::Space), "IFCSPACE", owner, name, st, *place, shape, 4);
                self.pair("IFCRELAGGREGATES", st, i);
                self.pair("IFCRELDEFINESBYTYPE", t, i);
            }
            Op::Shading { usage, ty, name, height, length, place } => {
                let u = self.pick(Class::Usage, *usage)?;
                let t = self.pick(Class::ShadingType, *ty)?;
                let d = self.thickness(u);
                let shape = vec![rect_body(*length, d, *height, [0.0, 0.0, 1.0])];
                let i = self.element(Some(Class::Shading), "IFCSHADINGDEVICE", owner, name, st, *place, shape, 2);
                self.pair("IFCRELCONTAINEDINSPATIALSTRUCTURE", st, i);
                self.pair("IFCRELDEFINESBYTYPE", t, i);
                self.pair("IFCRELASSOCIATESMATERIAL", u, i);
            }
            Op::Props { name, props, finish } => {
                let v = self.props(props);
                if *finish {
                    self.known(Class::PropSet, Self::propset(name, v));
                }
            }
            Op::Relate { set, obj } => {
                let set = self.pick(Class::PropSet, *set)?;
                let (c, i) = element(&self.sizes(&ELEMENTS), *obj)?;
                let o = self.pools[&c][i];
                self.pair("IFCRELDEFINESBYPROPERTIES", set, o);
            }
            Op::Transform { obj, t } => {
                let (c, i) = element(&self.sizes(&MOVABLE), *obj)?;
                let o = self.pools[&c][i];
                let a = affine(t);
                for r in self.objs[o].shape.as_mut().unwrap() {
                    r.at = a.after(&r.at);
                    r.loose = true;
                }
            }
        }
        None
    }

    /// what happens while a wall's or slab's builder is alive, and its end
    fn hosted(&mut self, owner: &Node, host: usize, d: f64, slab: Option<V3>, subs: &[Sub], end: End) -> Flow {
        let mut wanted: Option<Affine> = None;
        let mut parts: Vec<(usize, V3)> = vec![];
        let mut flow: Flow = None;
        for x in subs {
            match self.sub(owner, host, d, slab, x, &mut wanted, &mut parts) {
                None | Some(0) => {}
                Some(k) => {
                    flow = Some(k - 1);
                    break;
                }
            }
        }
        if flow.is_none() {
            match end {
                End::Unwind(k) => flow = Some(k),
                End::Finish if slab.is_some() => {
                    self.pools.entry(Class::Slab).or_default().push(host);
                }
                _ => {}
            }
        }
        if let Some(a) = wanted {
            for r in self.objs[host].shape.as_mut().unwrap() {
                r.at = a.after(&r.at);
            }
            for (i, o) in parts {
                // in coordinates of the part: to the host's, transformed, and back
                let to = Affine {
                    t: o,
                    ..Affine::id()
                };
                let back = Affine {
                    t: o.map(|x| -x),
                    ..Affine::id()
                };
                let b = back.after(&a.after(&to));
                for r in self.objs[i].shape.as_mut().unwrap() {
                    r.at = b.after(&r.at);
                }
            }
        }
        flow
    }

    #[allow(clippy::too_many_arguments)]
    fn sub(
        &mut self,
        owner: &Node,
        host: usize,
        d: f64,
        slab: Option<V3>,
        x: &Sub,
        wanted: &mut Option<Affine>,
        parts: &mut Vec<(usize, V3)>,
    ) -> Flow {
        let z = [0.0, 0.0, 1.0];
        // (shape of the opening, its place, its name if given, window: (set, type, name, shape))
        let (osh, place, oname, window) = match (x, slab) {
            (Sub::Opening { name, h, l, place, dir }, None) => {
                (rect_body(*l, *h, d, dir.unwrap_or(z)), *place, Some(name), None)
            }
            (Sub::Opening { name, h, l, place, .. }, Some(sd)) => (rect_body(*l, d, *h, sd), *place, Some(name), None),
            (Sub::Horizontal { name, coords }, Some(_)) => {
                (body(extruded(profile(poly2d(coords)), z, d)), [0.0; 3], Some(name), None)
            }
            (Sub::Arbitrary { name, coords }, Some(sd)) => {
                (body(extruded(profile(poly3d(coords)), sd, d)), [0.0; 3], Some(name), None)
            }
            (Sub::Window { set, ty, name, h, w, place, dir }, None) => (
                rect_body(*w, *h, d, z),
                *place,
                None,
                Some((set, ty, name, rect_body(*w, *h, d, *dir))),
            ),
            (Sub::Window { set, ty, name, h, w, place, .. }, Some(sd)) => (
                rect_body(*w, d, *h, sd),
                *place,
                None,
                Some((set, ty, name, rect_body(*w, d, *h, sd))),
            ),
            (Sub::HorizontalWindow { set, ty, name, coords }, Some(_)) => {
                let b = body(extruded(profile(poly2d(coords)), z, d));
                (b.clone(), [0.0; 3], None, Some((set, ty, name, b)))
            }
            (Sub::ArbitraryWindow { set, ty, name, coords }, Some(sd)) => {
                let b = body(extruded(profile(poly3d(coords)), sd, d));
                (b.clone(), [0.0; 3], None, Some((set, ty, name, b)))
            }
            (Sub::Transform { t }, _) => {
                *wanted = Some(affine(t));
                return None;
            }
            (Sub::Props { name, props, end }, None) => {
                let n = uniq(&mut self.k, name);
                let v = self.props(props);
                let i = self.add(Self::propset(&n, v));
                self.pair("IFCRELDEFINESBYPROPERTIES", i, host);
                return match end {
                    End::Unwind(k) => Some(*k),
                    _ => None,
                };
            }
            _ => return None,
        };
        match window {
            None => {
                let i = self.element(
                    Some(Class::Opening),
                    "IFCOPENINGELEMENT",
                    owner,
                    oname.unwrap(),
                    host,
                    place,
                    vec![osh],
                    2,
                );
                self.pair("IFCRELVOIDSELEMENT", host, i);
                parts.push((i, place));
            }
            Some((set, ty, name, wsh)) => {
                let c = self.pick(Class::ConstituentSet, *set)?;
                let t = self.pick(Class::WindowType, *ty)?;
                let n = uniq(&mut self.k, name);
                let on = format!("OpeningElementOfWindow{n}");
                let i = self.element(None, "IFCOPENINGELEMENT", owner, &on, host, place, vec![osh], 2);
                self.pair("IFCRELVOIDSELEMENT", host, i);
                parts.push((i, place));
                let j = self.element(Some(Class::Window), "IFCWINDOW", owner, &n, i, [0.0; 3], vec![wsh], 6);
                self.pair("IFCRELFILLSELEMENT", i, j);
                parts.push((j, place));
                let st = self
                    .pairs
                    .iter()
                    .find(|p| p.0 == "IFCRELCONTAINEDINSPATIALSTRUCTURE" && p.2 == host)
                    .unwrap()
                    .1;
                self.pair("IFCRELCONTAINEDINSPATIALSTRUCTURE", st, j);
                self.pair("IFCRELDEFINESBYTYPE", t, j);
                self.pair("IFCRELASSOCIATESMATERIAL", c, j);
            }
        }
        None
    }
}
