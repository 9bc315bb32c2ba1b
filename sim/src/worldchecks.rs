//! The checks over histories of builder calls: C07, C08, C14, C15, C17 (and what they share).

use crate::docchecks::{benign, gen_benign, gen_save, load, loaded, Save, PATH};
use crate::docchecks::{ASSUME, REAL, STUB};
use crate::fw::*;
use crate::judge::{self, locate, Facts};
use crate::rng::Rng;
use crate::seam::IoFault;
use crate::snap::*;
use crate::step::Node;
use crate::world::{self, Built, Class, Model, World};
use ifc_rs::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

/// what surrounds a history of builder calls
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Env {
    pub seed: i64,
    /// clock reading at the start, seconds
    pub start: i64,
    /// what the clock does after each reading, ns
    pub steps: Vec<i64>,
    pub save: Save,
    pub wfaults: Vec<IoFault>,
    pub rfaults: Vec<IoFault>,
    /// order of the stored records: 0 as written
    pub order: i64,
}

pub fn gen_steps(r: &mut Rng) -> Vec<i64> {
    (0..r.range(1, 8))
        .map(|_| match r.below(6) {
            0 => 0,
            1 => r.range(1, 999_999_999),
            2 => -r.range(1, 4_000_000_000),
            3 => r.range(1, 1 << 40),
            4 => -r.range(0, 1 << 60),
            _ => r.range(0, 1 << 60),
        })
        .collect()
}

pub fn gen_start(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => 0,
        1 => r.range(0, 86400 * 3),
        2 => r.range(0, (1 << 32) + 10),
        3 => 253_402_300_799 - r.range(0, 86400 * 400),
        4 => 951_782_400 + r.range(-90_000, 180_000),
        _ => r.range(0, 253_402_300_799),
    }
}

pub fn gen_env(r: &mut Rng) -> Env {
    Env {
        seed: r.range(0, 1 << 50),
        start: gen_start(r),
        steps: gen_steps(r),
        save: gen_save(r),
        wfaults: if r.chance(50) { gen_benign(r, true) } else { vec![] },
        rfaults: if r.chance(50) { gen_benign(r, false) } else { vec![] },
        order: if r.chance(70) { r.range(1, 1 << 40) } else { 0 },
    }
}

pub fn machine(e: &Env) -> Sim {
    let mut s = Sim::new(e.seed as u64);
    s.ctx.clock.now = (e.start.clamp(0, 253_402_300_799) as i128) * 1_000_000_000 + (e.seed as i128 % 1_000_000_000);
    s.ctx.clock.steps = e.steps.clone();
    s
}

/// inside of a simulated process
pub fn save_text(text: &str, how: Save) -> std::io::Result<()> {
    use std::io::Write;
    match how {
        Save::Whole => std::fs::write(PATH, text),
        Save::Stream | Save::Buffered => {
            let mut f = std::fs::File::create(PATH)?;
            write!(f, "{text}")?;
            f.flush()
        }
        Save::Atomic => {
            let t = "/simdisk/model.tmp";
            std::fs::write(t, text)?;
            std::fs::File::open(t)?.sync_all()?;
            std::fs::rename(t, PATH)
        }
    }
}

/// builds and saves in one process
pub fn built(s: &mut Sim, w: &World, e: &Env) -> Result<Built, Viol> {
    let (b, err) = s.must("build, save", &benign(&e.wfaults), || {
        let b = world::build(w);
        let e = save_text(&b.text, e.save).err().map(|e| e.to_string());
        (b, e)
    })?;
    if let Some(x) = err {
        return viol("save", x);
    }
    s.ctx.disk.sync_all();
    if s.ctx.disk.get(PATH) != Some(b.text.as_bytes()) {
        return viol("save", "the file does not hold the text");
    }
    Ok(b)
}

pub fn reload(s: &mut Sim, e: &Env, what: &str) -> Result<Snap, Viol> {
    let r = s.must(what, &benign(&e.rfaults), || load().map(|i| snap(&i)))?;
    loaded(r, what)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistPlan {
    pub world: World,
    pub env: Env,
}

fn hist(r: &mut Rng, size: usize) -> HistPlan {
    HistPlan {
        world: world::gen(r, size),
        env: gen_env(r),
    }
}

fn gen7(r: &mut Rng, _: u64) -> Value {
    plan(&hist(r, 16))
}

fn begin(v: &Value) -> Result<(World, Env, Sim), String> {
    let p: HistPlan = unplan(v)?;
    let mut w = p.world;
    world::sanitize(&mut w);
    let mut s = machine(&p.env);
    let n = world::size(&w);
    s.out.trivial = n == 0;
    s.note("builder calls", n);
    Ok((w, p.env, s))
}

// ------------------------------------------------------------------------------ C07

/// loads, links, kinds, and the same text again
pub fn c07_judge(s: &mut Sim, b: &Built, e: &Env) -> Result<(), Viol> {
    let n = links_ok(&b.text, "built file")?;
    s.note("references checked", n);
    guids_valid(&b.text, "built file")?;
    let a = reload(s, e, "load of the built file")?;
    let want = match expect_text(&b.text) {
        Ok(w) => w,
        Err(x) => return viol("malformed", x),
    };
    if let Some((id, x)) = want.iter().find(|(_, x)| matches!(x, Exp::Raw(_))) {
        return viol("unmodelled", format!("#{id} {} is not a record of the schema", show_exp(x)));
    }
    agrees(&want, &a, "loaded file")?;
    let d = judge::parse(&b.text, "built file")?;
    head_agrees(&d.header, &a.text, "loaded file")?;
    // saved by the second process, loaded by a third
    let e2 = Env {
        rfaults: vec![],
        ..e.clone()
    };
    let saved = s.must("load, save", &[], || {
        let i = load()?;
        crate::docchecks::save(&i, e.save).map_err(|x| x.to_string())
    })?;
    loaded(saved, "load, save")?;
    let c = reload(s, &e2, "load of the saved file")?;
    if a.text != c.text {
        let (x, y) = first_diff(&a.text, &c.text);
        return viol("text", format!("rendering the loaded file again gives {y:?} instead of {x:?}"));
    }
    Ok(())
}

pub fn first_diff(a: &str, b: &str) -> (String, String) {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return (x.into(), y.into());
        }
    }
    (format!("{} lines", a.lines().count()), format!("{} lines", b.lines().count()))
}

fn c07_exec(v: &Value) -> Result<Outcome, String> {
    let (w, e, mut s) = begin(v)?;
    let r = (|| {
        let b = built(&mut s, &w, &e)?;
        c07_judge(&mut s, &b, &e)
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C08, C14, C17

fn judged(v: &Value, f: impl Fn(&Facts) -> Result<u64, Viol>, what: &str) -> Result<Outcome, String> {
    let (w, e, mut s) = begin(v)?;
    let m = Model::of(&w);
    let r = (|| {
        let b = built(&mut s, &w, &e)?;
        let a = reload(&mut s, &e, "load")?;
        let d = judge::parse(&a.text, "loaded file")?;
        let facts = locate(&m, &b, &d)?;
        let n = f(&facts)?;
        s.note(what, n);
        s.fired("scopes ended by a panic", world::unwinds(&w));
        s.fired("scopes dropped without finish", world::drops(&w));
        Ok(())
    })();
    Ok(s.done(r))
}

fn c08_exec(v: &Value) -> Result<Outcome, String> {
    judged(v, |f| f.relations(), "related pairs checked")
}

fn c14_exec(v: &Value) -> Result<Outcome, String> {
    judged(v, |f| f.motions(), "moved shapes checked")
}

fn c17_exec(v: &Value) -> Result<Outcome, String> {
    judged(v, |f| Ok(f.contents()? + f.shapes()?), "objects and shapes checked")
}

fn c24_exec(v: &Value) -> Result<Outcome, String> {
    let p: HistPlan = unplan(v)?;
    let mut w = p.world;
    world::sanitize(&mut w);
    let owner = Model::owner(&w);
    judged(v, |f| f.attribution(&owner), "attributions checked")
}

fn gen8(r: &mut Rng, _: u64) -> Value {
    plan(&HistPlan {
        world: world::gen_with(r, 14, 60),
        env: gen_env(r),
    })
}

// ------------------------------------------------------------------------------ C15

type Ids = Vec<u64>;

/// what the extraction queries report
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Report {
    pub projects: Vec<(u64, String)>,
    /// (relating kind, id, related kind) -> ids
    pub relations: BTreeMap<String, Ids>,
    pub contained: BTreeMap<u64, Ids>,
    pub types: BTreeMap<u64, String>,
    pub voids: BTreeMap<u64, Vec<String>>,
    pub layers: BTreeMap<u64, Vec<String>>,
    pub constituents: BTreeMap<u64, Vec<String>>,
    pub structures: BTreeMap<u64, String>,
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

/// inside of a simulated process
pub fn report(x: &IfcExtractor) -> Report {
    let mut r = Report {
        projects: sorted(x.projects().map(|(i, p)| (i.id().0 as u64, p.to_string())).collect()),
        ..Default::default()
    };
    macro_rules! rels {
        ($($a:ident: $($b:ident)*;)*) => {
            $( for id in x.data.id_of::<$a>() {
                $(
                    let v: Ids = x.relations_of::<$a, $b>(id).map(|(i, _)| i.id().0 as u64).collect();
                    r.relations.insert(format!("{} {} {}", stringify!($a), id.id().0, stringify!($b)), sorted(v));
                )*
            } )*
        };
    }
    rels! {
        Project: Site Building Storey Space;
        Site: Project Site Building Storey Space;
        Building: Site Building Storey Space;
        Storey: Site Building Storey Space;
    }
    macro_rules! structs {
        ($($t:ident)*) => {
            $( for id in x.data.id_of::<$t>() {
                let k = id.id().0 as u64;
                r.contained.insert(k, sorted(x.contained_structures(id).map(|i| i.0 as u64).collect()));
                r.voids.insert(k, sorted(x.related_voids(id).map(|o| o.to_string()).collect()));
                r.layers.insert(k, x.related_materials(id).map(|o| o.to_string()).collect());
                r.constituents.insert(k, x.related_constiuents(id).map(|o| o.to_string()).collect());
                let o = x.data.get(id);
                if let Some(s) = o.structure_type() {
                    r.structures.insert(k, match s {
                        StructureType::Wall(w) => w.to_string(),
                        StructureType::Slab(w) => w.to_string(),
                        StructureType::Roof(w) => w.to_string(),
                        StructureType::Window(w) => w.to_string(),
                        StructureType::Door(w) => w.to_string(),
                        StructureType::ShadingDevice(w) => w.to_string(),
                    });
                }
            } )*
        };
    }
    structs!(Wall Slab Roof Window OpeningElement Space Storey Building Site ShadingDevice);
    macro_rules! types {
        ($($t:ident)*) => {
            $( for id in x.data.id_of::<$t>() {
                r.types.insert(id.id().0 as u64, TypeRelation::related_type(x, id).to_string());
            } )*
        };
    }
    types!(Wall Slab Roof Window);
    r
}

fn c15_judge(f: &Facts, r: &Report) -> Result<u64, Viol> {
    let mut n = 0;
    let mut eq = |what: &str, want: &dyn std::fmt::Debug, have: &dyn std::fmt::Debug| -> Result<(), Viol> {
        n += 1;
        if format!("{want:?}") != format!("{have:?}") {
            return viol("query", format!("{what}: reported {have:?} instead of {want:?}"));
        }
        Ok(())
    };
    // the record without the leading id as the library renders objects
    let raw = |id: u64| f.d[&id].raw.clone();
    let raw_sc = |id: u64| format!("{};", raw(id));
    let proj: Vec<(u64, String)> = f
        .m
        .objs
        .iter()
        .enumerate()
        .filter(|(_, o)| o.kw == "IFCPROJECT")
        .map(|(i, _)| (f.at[i], raw_sc(f.at[i])))
        .collect();
    eq("projects", &proj, &r.projects)?;
    let kw = |t: &str| match t {
        "Project" => "IFCPROJECT",
        "Site" => "IFCSITE",
        "Building" => "IFCBUILDING",
        "Storey" => "IFCBUILDINGSTOREY",
        _ => "IFCSPACE",
    };
    for (k, have) in &r.relations {
        let p: Vec<&str> = k.split(' ').collect();
        let id: u64 = p[1].parse().unwrap();
        let Some(&x) = f.of.get(&id) else { return viol("query", format!("{k}: no such object")) };
        let want: Ids = sorted(
            f.m.pairs
                .iter()
                .filter(|q| q.0 == "IFCRELAGGREGATES" && q.1 == x && f.m.objs[q.2].kw == kw(p[2]))
                .map(|q| f.at[q.2])
                .collect(),
        );
        eq(&format!("relations_of {k}"), &want, have)?;
    }
    // every object that could be asked about was
    for (i, o) in f.m.objs.iter().enumerate() {
        let id = f.at[i];
        let asked = match o.kw {
            "IFCWALL" | "IFCSLAB" | "IFCROOF" | "IFCWINDOW" | "IFCOPENINGELEMENT" | "IFCSPACE" | "IFCBUILDINGSTOREY"
            | "IFCBUILDING" | "IFCSITE" | "IFCSHADINGDEVICE" => true,
            _ => continue,
        };
        if asked != r.contained.contains_key(&id) {
            return viol("query", format!("{} #{id} is not found by its kind", o.kw));
        }
        let contained: Ids = sorted(f.pairs_of("IFCRELCONTAINEDINSPATIALSTRUCTURE", i).collect());
        eq(&format!("contained_structures of {} #{id}", o.kw), &contained, &r.contained[&id])?;
        let voids: Vec<String> = sorted(f.pairs_of("IFCRELVOIDSELEMENT", i).map(raw_sc).collect());
        eq(&format!("related_voids of {} #{id}", o.kw), &voids, &r.voids[&id])?;
        // materials
        let mats: Vec<usize> =
            f.m.pairs
                .iter()
                .filter(|p| p.0 == "IFCRELASSOCIATESMATERIAL" && p.2 == i)
                .map(|p| p.1)
                .collect();
        let list = |set: u64, at: usize| -> Vec<String> {
            let mut v = vec![];
            if let Some(a) = f.d[&set].args.get(at) {
                crate::step::refs(a, &mut v);
            }
            v.into_iter().map(raw_sc).collect()
        };
        let (mut layers, mut cons) = (vec![], vec![]);
        let one = mats.len() < 2;
        for m in mats {
            match f.m.objs[m].kw {
                "IFCMATERIALLAYERSETUSAGE" => {
                    if let Some(Node::Ref(s)) = f.d[&f.at[m]].args.first() {
                        layers.extend(list(*s, 0));
                    }
                }
                "IFCMATERIALCONSTITUENTSET" => cons.extend(list(f.at[m], 2)),
                _ => {}
            }
        }
        // layers and constituents have an order, associations have none
        let order = |v: Vec<String>| if one { v } else { sorted(v) };
        eq(&format!("related_materials of {} #{id}", o.kw), &order(layers), &order(r.layers[&id].clone()))?;
        eq(&format!("related_constiuents of {} #{id}", o.kw), &order(cons), &order(r.constituents[&id].clone()))?;
        if matches!(o.kw, "IFCWALL" | "IFCSLAB" | "IFCROOF" | "IFCWINDOW") {
            let t: Vec<String> =
                f.m.pairs
                    .iter()
                    .filter(|p| p.0 == "IFCRELDEFINESBYTYPE" && p.2 == i)
                    .map(|p| raw_sc(f.at[p.1]))
                    .collect();
            eq(&format!("related_type of {} #{id}", o.kw), &t, &vec![r.types.get(&id).cloned().unwrap_or_default()])?;
        }
        if matches!(o.kw, "IFCWALL" | "IFCSLAB" | "IFCROOF" | "IFCWINDOW" | "IFCSHADINGDEVICE") {
            eq(&format!("structure_type of {} #{id}", o.kw), &Some(raw_sc(id)), &r.structures.get(&id).cloned())?;
        }
    }
    if r.contained.len() != f.m.objs.iter().filter(|o| o.shape.is_some() || o.place != Node::Null).count() {
        return viol("query", "structures were found which were not built".to_string());
    }
    Ok(n)
}

/// the records of a file in another order
pub fn shuffle(text: &str, order: i64) -> String {
    if order == 0 {
        return text.into();
    }
    let Some(mut recs) = crate::snap::split(text) else {
        return text.into();
    };
    let (Some(a), Some(b)) = (text.find("DATA;\n"), text.rfind("ENDSEC;")) else {
        return text.into();
    };
    Rng::new(order as u64).shuffle(&mut recs);
    let mut t = text[..a + 6].to_string();
    for (id, rec) in recs {
        t.push_str(&format!("#{id}= {rec};\n"));
    }
    t.push_str(&text[b..]);
    t
}

/// what one relation says, said by several, as other software writes it
fn spread(text: &str, order: i64) -> (String, u64) {
    let mut r = Rng::new(order as u64 ^ 0x5bd1);
    let share = [0, 50, 100][r.below(3)];
    let Some(recs) = crate::snap::split(text).filter(|_| order != 0 && share != 0) else {
        return (text.into(), 0);
    };
    let (Some(a), Some(b)) = (text.find("DATA;\n"), text.rfind("ENDSEC;")) else {
        return (text.into(), 0);
    };
    let mut next = recs.iter().map(|(i, _)| *i).max().unwrap_or(0);
    let mut t = text[..a + 6].to_string();
    let mut n = 0;
    for (id, rec) in recs {
        let kw = rec.split('(').next().unwrap_or("").trim();
        let many = matches!(
            kw,
            "IFCRELCONTAINEDINSPATIALSTRUCTURE" | "IFCRELAGGREGATES" | "IFCRELDEFINESBYTYPE" | "IFCRELASSOCIATESMATERIAL"
        );
        let list = rec.rfind("(#").and_then(|i| Some((i, i + rec[i..].find(')')?)));
        let (Some((i, j)), Some(g), true) = (list, rec.find('\''), many) else {
            t.push_str(&format!("#{id}= {rec};\n"));
            continue;
        };
        // the parts, none of them empty
        let mut parts: Vec<Vec<&str>> = vec![vec![]];
        for x in rec[i + 1..j].split(',') {
            if !parts.last().unwrap().is_empty() && r.chance(share) {
                parts.push(vec![]);
            }
            parts.last_mut().unwrap().push(x);
        }
        n += (parts.len() > 1) as u64;
        for (k, p) in parts.iter().enumerate() {
            let (mut id, mut head) = (id, rec[..i].to_string());
            if k > 0 {
                next += 1;
                id = next;
                head.replace_range(g + 1..g + 23, &crate::docgen::guid(&mut r));
            }
            t.push_str(&format!("#{id}= {head}({}){};\n", p.join(","), &rec[j + 1..]));
        }
    }
    t.push_str(&text[b..]);
    (t, n)
}

fn c15_exec(v: &Value) -> Result<Outcome, String> {
    let (w, e, mut s) = begin(v)?;
    let m = Model::of(&w);
    let r = (|| {
        let b = built(&mut s, &w, &e)?;
        let (t, n) = spread(&b.text, e.order);
        let t = shuffle(&t, e.order);
        if e.order != 0 {
            s.fired("records in another order", 1);
        }
        s.fired("relations spread over several records", n);
        s.put("model.ifc", t);
        s.odds = 2;
        let r = s.must("load, query", &benign(&e.rfaults), || {
            let i = load()?;
            let t = i.to_string();
            Ok::<_, String>((t, report(&IfcExtractor::from(i))))
        })?;
        let (t, r) = loaded(r, "load")?;
        let d = judge::parse(&t, "loaded file")?;
        let facts = locate(&m, &b, &d)?;
        let n = c15_judge(&facts, &r)?;
        s.note("queries checked", n);
        Ok(())
    })();
    Ok(s.done(r))
}

pub fn defs() -> Vec<Def> {
    let d = Def {
        id: "",
        level: "exploration",
        gen: gen7,
        exec: c07_exec,
        quick: 4000,
        thorough: 60000,
        rule: "",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    };
    vec![
        Def {
            id: "C07",
            quick: 4500,
            thorough: 81000,
            rule: "A run executes a generated history of builder calls in one process (scopes ending by finish, drop or unwinding), saves, loads in later processes, and checks every reference, kind and value. Non-trivial: at least one builder call below a storey.",
            ..d
        },
        Def {
            id: "C08",
            quick: 10000,
            thorough: 180000,
            gen: gen8,
            exec: c08_exec,
            rule: "A run executes a history of builder calls whose scopes end in different ways (finish, drop, panic unwinding through one or more scopes) and compares the relations of the reloaded file with the model's as a multiset. Non-trivial: at least one builder call below a storey.",
            ..d
        },
        Def {
            id: "C14",
            quick: 10000,
            thorough: 180000,
            gen: gen8,
            exec: c14_exec,
            rule: "A run executes a history of builder calls with transforms and compares the effective motion of every shape of the reloaded file with the model's. Non-trivial: at least one builder call below a storey.",
            ..d
        },
        Def {
            id: "C15",
            quick: 10000,
            thorough: 180000,
            exec: c15_exec,
            rule: "A run executes a history of builder calls, shuffles the stored records, loads, and compares the results of all extraction queries for all objects with the model. Non-trivial: at least one builder call below a storey.",
            ..d
        },
        Def {
            id: "C17",
            quick: 10000,
            thorough: 180000,
            exec: c17_exec,
            rule: "A run executes a history of builder calls and compares all objects and shapes of the reloaded file with the model. Non-trivial: at least one builder call below a storey.",
            ..d
        },
        Def {
            id: "C24",
            quick: 8000,
            thorough: 150000,
            gen: gen8,
            exec: c24_exec,
            rule: "A run executes a history of builder calls whose scopes end in different ways and looks up the owner history of every record of the reloaded file. Non-trivial: at least one builder call below a storey.",
            ..d
        },
    ]
}
#[allow(dead_code)]
fn _unused(_: Class) {}
