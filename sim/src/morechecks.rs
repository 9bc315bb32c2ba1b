//! The checks over whole lives of models, clocks, entropy and threads: C01, C02, C06, C09, C10,
//! C11, C13, C18.

use crate::docchecks::{benign, gen_benign, gen_cycle, gen_save, load, loaded, save, Cycle, Save, PATH};
use crate::docchecks::{ASSUME, REAL, STUB};
use crate::cov;
use crate::docgen::{self, DocPlan};
use crate::edits::{self, Edit};
use crate::fw::*;
use crate::rng::Rng;
use crate::sched::{self, Slice};
use crate::seam::{self, CrashSpec, EntropyMode, IoFault};
use crate::snap::*;
use crate::step::{self, parse_doc, same, Node};
use crate::world::{self, Built, World};
use crate::worldchecks::{gen_env, gen_start, gen_steps, machine, report, save_text, Env};
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// where a model comes from
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source {
    Doc(DocPlan),
    World(World),
}

fn gen_source(r: &mut Rng, idx: u64, docs: usize, size: usize, world_percent: u32) -> Source {
    if r.chance(world_percent) {
        Source::World(world::gen(r, size))
    } else {
        let n = 1 + r.below(docs);
        let k = docgen::kinds(r, idx, n);
        let foreign = r.chance(70);
        Source::Doc(docgen::doc(r, &k, foreign))
    }
}

fn clean(s: Source) -> Source {
    match s {
        Source::Doc(mut d) => {
            d.sanitize();
            Source::Doc(d)
        }
        Source::World(mut w) => {
            world::sanitize(&mut w);
            Source::World(w)
        }
    }
}

// ------------------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01Plan {
    pub env: Env,
    pub source: Source,
    pub cycles: Vec<Cycle>,
    /// further saves without edits
    pub more: Vec<Save>,
}

fn c01_gen(r: &mut Rng, idx: u64) -> Value {
    let mut cycles: Vec<Cycle> = (0..1 + r.below(3)).map(|_| gen_cycle(r)).collect();
    for c in &mut cycles {
        if r.chance(40) {
            c.edits.clear();
        }
    }
    plan(&C01Plan {
        env: gen_env(r),
        source: gen_source(r, idx, 10, 10, 40),
        cycles,
        more: (0..2 + r.below(2)).map(|_| gen_save(r)).collect(),
    })
}

fn c01_exec(v: &Value) -> Result<Outcome, String> {
    let p: C01Plan = unplan(v)?;
    let mut s = machine(&p.env);
    let src = clean(p.source);
    let r = (|| {
        // the first process creates the model
        let (mut want, mut head);
        match &src {
            Source::Doc(d) => {
                s.out.trivial = d.recs.is_empty();
                s.put("model.ifc", d.render());
                want = expect_of(d);
                head = d.head.expected();
            }
            Source::World(w) => {
                let b = crate::worldchecks::built(&mut s, w, &p.env)?;
                want = match expect_text(&b.text) {
                    Ok(w) => w,
                    Err(x) => return viol("malformed", x),
                };
                head = parse_doc(&b.text).unwrap().header;
            }
        }
        s.note("objects", want.len() as u64);
        let mut before: Option<Snap> = None;
        let mut written = 0;
        for (i, c) in p.cycles.iter().enumerate() {
            let bh = head.clone();
            let bw = want.clone();
            let dos = edits::plan(&c.edits, &mut want, &mut head);
            let edited = dos.iter().any(|d| *d != edits::Do::Skip);
            let mut f = benign(&c.rfaults);
            f.extend(benign(&c.wfaults));
            let what = format!("load {i}");
            let r = s.must(&format!("load {i}, edit, save"), &f, || {
                let mut ifc = load()?;
                let a = snap(&ifc);
                edits::apply(&mut ifc, &dos);
                let b = snap(&ifc);
                let e = save(&ifc, c.save).err().map(|e| e.to_string());
                Ok::<_, String>((a, b, e))
            })?;
            let (a, b, e) = loaded(r, &what)?;
            if let Some(e) = e {
                return viol("save", format!("save {i} failed: {e}"));
            }
            agrees(&bw, &a, &what)?;
            head_agrees(&bh, &a.text, &what)?;
            if let Some(prev) = &before {
                equal(prev, &a, &format!("save {}, restart, load {i}", i - 1))?;
                if written >= 2 && prev.text != a.text {
                    let (x, y) = crate::worldchecks::first_diff(&prev.text, &a.text);
                    return viol("text", format!("load {i} renders {y:?} instead of {x:?}"));
                }
            }
            agrees(&want, &b, &format!("model {i} after edits {dos:?}"))?;
            head_agrees(&head, &b.text, &format!("model {i} after edits"))?;
            s.ctx.disk.sync_all();
            if s.ctx.disk.get(PATH) != Some(b.text.as_bytes()) {
                return viol("save", format!("save {i}: the file does not hold the text of the model"));
            }
            written = if edited { 1 } else { written + 1 };
            s.note("edits", dos.iter().filter(|d| **d != edits::Do::Skip).count() as u64);
            before = Some(b);
        }
        // nothing is edited any more
        let mut last: Option<String> = None;
        for (i, how) in p.more.iter().enumerate() {
            let what = format!("further load {i}");
            let r = s.must(&what, &benign(&p.env.rfaults), || {
                let ifc = load()?;
                let a = snap(&ifc);
                let e = save(&ifc, *how).err().map(|e| e.to_string());
                Ok::<_, String>((a, e))
            })?;
            let (a, e) = loaded(r, &what)?;
            if let Some(e) = e {
                return viol("save", format!("save in {what} failed: {e}"));
            }
            s.ctx.disk.sync_all();
            agrees(&want, &a, &what)?;
            head_agrees(&head, &a.text, &what)?;
            if let Some(prev) = &before {
                equal(prev, &a, &what)?;
            }
            if let Some(t) = &last {
                if *t != a.text {
                    let (x, y) = crate::worldchecks::first_diff(t, &a.text);
                    return viol("text", format!("{what}: saving what was loaded gives {y:?} instead of {x:?}"));
                }
            }
            last = Some(a.text.clone());
            before = Some(a);
            s.note("restarts", 1);
        }
        Ok(())
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C02Plan {
    pub seed: i64,
    pub doc: DocPlan,
    pub edits: Vec<Edit>,
    pub save: Save,
    pub wfaults: Vec<IoFault>,
    pub crashes: Vec<CrashSpec>,
}

fn c02_gen(r: &mut Rng, idx: u64) -> Value {
    let n = 1 + r.below(8);
    let k = docgen::kinds(r, idx, n);
    let foreign = r.chance(50);
    let doc = docgen::doc(r, &k, foreign);
    let crashes = (0..10)
        .map(|_| CrashSpec {
            keep: match r.below(5) {
                0 => r.below(3),
                1 | 2 => r.below(200),
                3 => r.below(20),
                _ => 1 << 20,
            },
            torn: if r.chance(50) { 0 } else { r.below(6000) },
            lost: (0..if r.chance(60) { 0 } else { 1 + r.below(3) })
                .map(|_| (r.below(400), r.below(12)))
                .collect(),
            dropped: (0..if r.chance(70) { 0 } else { 1 + r.below(3) })
                .map(|_| if r.chance(50) { r.below(4) } else { r.below(400) })
                .collect(),
        })
        .collect();
    plan(&C02Plan {
        seed: r.range(0, 1 << 50),
        doc,
        edits: (0..r.below(4)).map(|_| edits::gen(r)).collect(),
        save: gen_save(r),
        wfaults: gen_benign(r, true),
        crashes,
    })
}

fn c02_exec(v: &Value) -> Result<Outcome, String> {
    let p: C02Plan = unplan(v)?;
    let mut d = p.doc;
    d.sanitize();
    let mut s = Sim::new(p.seed as u64);
    let old = d.render();
    s.put("model.ifc", &old);
    let mut want = expect_of(&d);
    let mut head = d.head.expected();
    let (old_want, old_head) = (want.clone(), head.clone());
    let dos = edits::plan(&p.edits, &mut want, &mut head);
    let r = (|| {
        let r = s.must("load, edit, save, crash", &benign(&p.wfaults), || {
            let mut ifc = load()?;
            edits::apply(&mut ifc, &dos);
            let e = save(&ifc, p.save).err().map(|e| e.to_string());
            Ok::<_, String>((ifc.to_string(), e))
        })?;
        let (new, e) = loaded(r, "first load")?;
        if let Some(e) = e {
            return viol("save", format!("save failed: {e}"));
        }
        let saved = s.ctx.disk.clone();
        for c in &p.crashes {
            s.ctx.disk = saved.clone();
            let (kept, torn, lost_ops, lost_sectors) = s.ctx.disk.crash(c);
            s.fired("crash", 1);
            s.fired("crash: torn write", torn);
            s.fired("crash: lost operation", lost_ops);
            s.fired("crash: lost sector", lost_sectors);
            let what = format!("load after a crash ({kept} operations survived)");
            let bytes = s.ctx.disk.get(PATH).map(|b| b.to_vec());
            let r = s.must(&what, &[], || {
                load().map(|i| {
                    let sn = snap(&i);
                    // what was accepted can be rendered and loaded again without panics
                    let again = <IFC as std::str::FromStr>::from_str(&sn.text).is_ok();
                    (sn, again)
                })
            })?;
            let is_old = bytes.as_deref() == Some(old.as_bytes());
            let is_new = bytes.as_deref() == Some(new.as_bytes());
            if p.save == Save::Atomic && !is_old && !is_new {
                return viol("atomic", "the file is neither the old nor the new one".to_string());
            }
            match (r, bytes) {
                (Ok(_), None) => return viol("accepted", format!("{what}: there is no file but a model was loaded")),
                (Err(_), None) => s.note("no file", 1),
                (Err(e), Some(_)) => {
                    if is_old || is_new {
                        return viol("rejected", format!("{what}: the complete {} file is rejected: {e}", if is_old { "old" } else { "new" }));
                    }
                    s.note("rejected", 1);
                }
                (Ok((sn, _)), Some(b)) => {
                    for (t, n) in [(&new, "new"), (&old, "old")] {
                        if is_prefix_lost(t, &b) {
                            return viol(
                                "accepted",
                                format!("{what}: the first {} of {} bytes of the {n} file are accepted as a model", b.len(), t.len()),
                            );
                        }
                    }
                    let Ok(t) = std::str::from_utf8(&b) else {
                        return viol("misread", format!("{what}: text which is not UTF-8 is accepted"));
                    };
                    if is_new {
                        agrees(&want, &sn, &what)?;
                        head_agrees(&head, &sn.text, &what)?;
                        s.note("complete new models", 1);
                    } else if is_old {
                        agrees(&old_want, &sn, &what)?;
                        head_agrees(&old_head, &sn.text, &what)?;
                        s.note("complete old models", 1);
                    } else {
                        let (j, _) = says(t, &sn, &what)?;
                        s.note("records of accepted fragments judged", j);
                        s.note("accepted fragments", 1);
                    }
                }
            }
        }
        Ok(())
    })();
    s.out.trivial = s.out.fired.get("crash").is_none();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ schedules

fn gen_slices(r: &mut Rng) -> Vec<Slice> {
    let n = match r.below(3) {
        0 => r.range(1, 8),
        1 => r.range(8, 60),
        _ => r.range(60, 400),
    };
    let top = *r.pick(&[4, 8, 12, 15, 18]);
    (0..n)
        .map(|_| {
            let e = r.below(top) as u32 + 1;
            Slice(r.below(256) as u8, r.range(1, 1 << e) as u32)
        })
        .collect()
}

fn gen_watch(r: &mut Rng) -> Vec<u32> {
    if r.chance(50) {
        (0..r.range(1, 2)).map(|_| r.below(1 << 30) as u32).collect()
    } else {
        vec![]
    }
}

/// the watched edges among those the clients went over alone
fn watched(watch: &[u32], edges: &BTreeSet<u32>) -> Vec<u32> {
    let all: Vec<u32> = edges.iter().copied().collect();
    watch.iter().filter(|_| !all.is_empty()).map(|w| all[*w as usize % all.len()]).collect()
}

// ------------------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Text,
    Header,
    Data,
    Footer,
    Object { idx: u32 },
    View { idx: u32 },
    Kinds,
    Verify { idx: u32 },
    VerifyAll,
    Queries,
    Save,
    Typed { idx: u32 },
    Has { idx: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C06Plan {
    pub env: Env,
    pub source: Source,
    /// another model, and which of the calls (by bit) read that one
    #[serde(default)]
    pub second: Option<(DocPlan, u32)>,
    pub threads: Vec<Vec<ROp>>,
    pub slices: Vec<Slice>,
    /// which of the edges the clients go over when they are alone always preempt
    #[serde(default)]
    pub watch: Vec<u32>,
    /// a seed, and at one of how many atomic operations of the library threads are preempted
    #[serde(default)]
    pub atomic: (u32, u32),
}

fn gen_rop(r: &mut Rng) -> ROp {
    let idx = r.below(10_000) as u32;
    match r.below(16) {
        0 | 1 => ROp::Text,
        2 => ROp::Header,
        3 => ROp::Data,
        4 => ROp::Footer,
        5 | 6 => ROp::Object { idx },
        7 => ROp::View { idx },
        8 => ROp::Kinds,
        9 => ROp::Verify { idx },
        10 => ROp::VerifyAll,
        11 => ROp::Queries,
        12 => ROp::Save,
        13 | 14 => ROp::Has { idx },
        _ => ROp::Typed { idx },
    }
}

fn gen_readers(r: &mut Rng) -> Vec<Vec<ROp>> {
    let n = 2 + r.below(3);
    if r.chance(65) {
        return (0..n).map(|_| (0..1 + r.below(5)).map(|_| gen_rop(r)).collect()).collect();
    }
    // many small calls of one or two kinds, for few objects
    let kinds = [r.below(5), r.below(5)];
    let first = r.below(10_000) as u32;
    (0..n)
        .map(|_| {
            (0..4 + r.below(12))
                .map(|_| {
                    let idx = first + r.below(3) as u32;
                    match kinds[r.below(2) as usize] {
                        0 => ROp::Object { idx },
                        1 => ROp::View { idx },
                        2 => ROp::Verify { idx },
                        3 => ROp::Typed { idx },
                        _ => ROp::Has { idx },
                    }
                })
                .collect()
        })
        .collect()
}

fn c06_gen(r: &mut Rng, idx: u64) -> Value {
    plan(&C06Plan {
        env: gen_env(r),
        source: gen_source(r, idx, 8, 6, 50),
        second: r.chance(40).then(|| {
            let n = 1 + r.below(8);
            let k = docgen::kinds(r, idx, n);
            (docgen::doc(r, &k, n % 2 == 0), r.below(1 << 32) as u32)
        }),
        threads: gen_readers(r),
        slices: gen_slices(r),
        watch: gen_watch(r),
        atomic: (r.below(1 << 30) as u32, [0, 1, 2, 3, 8, 64][r.below(6) as usize]),
    })
}

fn ids_of(ifc: &IFC) -> Vec<u64> {
    crate::snap::ids_in(&ifc.data.to_string())
}

fn by_kinds(ifc: &IFC) -> String {
    macro_rules! kinds {
        ($($t:ident)*) => {{
            let mut out = String::new();
            $(
                let mut a: Vec<usize> = ifc.data.id_of::<$t>().map(|i| i.id().0).collect();
                let mut b: Vec<(usize, String)> = ifc.data.find_all_of_type::<$t>().map(|(i, o)| (i.id().0, o.to_string())).collect();
                a.sort();
                b.sort();
                out.push_str(&format!("{} {a:?} {b:?}\n", stringify!($t)));
            )*
            out
        }};
    }
    kinds!(
        Wall Slab Roof Space Window WallType Material MaterialLayer MaterialLayerSet MaterialLayerSetUsage
        Point3D Point2D Direction3D Axis3D LocalPlacement ShapeRepresentation ExtrudedAreaSolid MappedItem
        RelAggregates RelDefinesByType PropertySet PropertySingleValue Project OwnerHistory SiUnit Dummy Organization Person
    )
}

fn rop(x: &IfcExtractor, ids: &[u64], o: &ROp, me: usize) -> String {
    let at = |i: &u32| Id(ids[*i as usize % ids.len()] as usize);
    let empty = ids.is_empty();
    let r = catch_unwind(AssertUnwindSafe(|| match o {
        ROp::Text => x.to_string(),
        ROp::Header => x.header.to_string(),
        ROp::Data => x.data.to_string(),
        ROp::Footer => x.footer.to_string(),
        ROp::Object { .. } | ROp::View { .. } | ROp::Verify { .. } | ROp::Typed { .. } if empty => String::new(),
        ROp::Object { idx } => format!("{} {}", x.data.contains(&at(idx)), x.data.get_untyped(at(idx))),
        ROp::View { idx } => format!("{:?}", view_at(x, at(idx).0 as u64)),
        ROp::Verify { idx } => {
            let o = x.data.get_untyped(at(idx));
            format!("{} {:?}", o.type_name(), o.verify_id_types(x).map_err(|e| format!("{e:#}")))
        }
        ROp::Has { idx } => {
            // among present ids, their neighbours, and ids that are not there
            let near = if empty { Id(1) } else { at(idx) };
            let far = Id(usize::MAX / 2 - *idx as usize);
            let next = Id(near.0.wrapping_add(1));
            [near, far, next, near, far]
                .map(|i| format!("{} {:?};", x.data.contains(&i), x.data.try_get_untyped(i).map(|o| o.type_name().len())))
                .concat()
        }
        ROp::VerifyAll => ids
            .iter()
            .map(|i| format!("{:?}", x.data.get_untyped(Id(*i as usize)).verify_id_types(x).is_ok()))
            .collect(),
        ROp::Kinds => by_kinds(x),
        ROp::Queries => serde_json::to_string(&report(x)).unwrap(),
        ROp::Save => {
            let p = format!("/simdisk/copy{me}.ifc");
            let e = std::fs::write(&p, x.to_string()).map_err(|e| e.to_string());
            format!("{e:?} {:?}", std::fs::read_to_string(&p).map_err(|e| e.to_string()))
        }
        ROp::Typed { idx } => {
            let i = at(idx);
            let a = x.data.try_get_untyped(i).map(|o| o.to_string());
            let b = x.data.try_get_untyped(Id(usize::MAX - *idx as usize)).is_none();
            let s = x.data.get_untyped(i).to_structure().map(|s| s.to_string());
            format!("{a:?} {b} {s:?}")
        }
    }));
    r.unwrap_or_else(|_| "panicked".into())
}

fn c06_exec(v: &Value) -> Result<Outcome, String> {
    let p: C06Plan = unplan(v)?;
    let mut s = machine(&p.env);
    s.tenants = 0;
    s.budget *= 3;
    let src = clean(p.source);
    let threads: Vec<Vec<ROp>> = p.threads.into_iter().take(4).collect();
    if let Some((d, _)) = &p.second {
        let mut d = d.clone();
        d.sanitize();
        s.put("second.ifc", d.render());
    }
    let bits = p.second.as_ref().map_or(0, |x| x.1);
    let which = |i: usize, k: usize| (bits >> ((i * 11 + k) % 32) & 1) as usize;
    // both models, and the ids in them
    let two = || {
        let mut v = vec![IfcExtractor::from(load()?)];
        if p.second.is_some() {
            v.push(IfcExtractor::from(IFC::from_file("/simdisk/second.ifc").map_err(|e| format!("{e:#}"))?));
        }
        let ids: Vec<_> = v.iter().map(|x| ids_of(x)).collect();
        Ok::<_, String>((v, ids))
    };
    let texts = |v: &[IfcExtractor]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let r = (|| {
        match &src {
            Source::Doc(d) => s.put("model.ifc", d.render()),
            Source::World(w) => {
                crate::worldchecks::built(&mut s, w, &p.env)?;
            }
        }
        // every thread's calls in a process of their own
        let start = s.ctx.clone();
        let mut alone: Vec<Vec<String>> = vec![];
        let mut text = vec![];
        let mut edges = BTreeSet::new();
        for (i, ops) in threads.iter().enumerate() {
            s.ctx = start.clone();
            let r = s.must(&format!("client {i} alone"), &[], || {
                let (x, ids) = two()?;
                let t = texts(&x);
                let do_one = |(k, o)| rop(&x[which(i, k)], &ids[which(i, k)], o, i);
                Ok::<_, String>((t, ops.iter().enumerate().map(do_one).collect::<Vec<_>>()))
            })?;
            edges.extend(cov::last_edges());
            let (t, a) = loaded(r, "load")?;
            alone.push(a);
            text = t;
        }
        let watch = watched(&p.watch, &edges);
        s.ctx = start;
        let r = s.must("all clients at once", &[], || {
            let (x, ids) = two()?;
            let mut res: Vec<Vec<String>> = vec![vec![]; threads.len()];
            let (panics, switches) = {
                let (x, ids, which) = (&x, &ids, &which);
                let jobs: Vec<Box<dyn FnOnce() + Send>> = res
                    .iter_mut()
                    .zip(&threads)
                    .enumerate()
                    .map(|(i, (out, ops))| {
                        Box::new(move || {
                            for (k, o) in ops.iter().enumerate() {
                                sched::point();
                                out.push(rop(&x[which(i, k)], &ids[which(i, k)], o, i));
                            }
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                sched::run(&p.slices, &watch, p.atomic, jobs)
            };
            Ok::<_, String>((res, panics, switches, texts(&x)))
        })?;
        let (res, panics, switches, after) = loaded(r, "load")?;
        s.note("context switches", switches);
        s.note("calls by concurrent readers", threads.iter().map(|t| t.len() as u64).sum());
        s.out.trivial = switches == 0;
        if let Some((i, Some(m))) = panics.iter().enumerate().find(|(_, p)| p.is_some()) {
            return viol("panic", format!("client {i} panicked: {m}"));
        }
        for (i, (a, b)) in alone.iter().zip(&res).enumerate() {
            for (k, (x, y)) in a.iter().zip(b).enumerate() {
                if x != y {
                    let (x, y) = crate::worldchecks::first_diff(x, y);
                    return viol("differs", format!("call {k} ({:?}) of client {i} got {y:?} instead of {x:?}", threads[i][k]));
                }
            }
        }
        if after != text {
            return viol("changed", "the model was changed by readers".to_string());
        }
        Ok(())
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C09Plan {
    pub world: World,
    /// seed of hashes and random numbers, clock
    pub machines: Vec<(i64, i64, Vec<i64>)>,
}

fn c09_gen(r: &mut Rng, _: u64) -> Value {
    plan(&C09Plan {
        world: world::gen(r, 18),
        machines: (0..2 + r.below(3))
            .map(|_| (r.range(0, 1 << 50), gen_start(r), gen_steps(r)))
            .collect(),
    })
}

fn c09_exec(v: &Value) -> Result<Outcome, String> {
    let p: C09Plan = unplan(v)?;
    let mut w = p.world;
    world::sanitize(&mut w);
    let mut total: Option<Sim> = None;
    let r = (|| {
        let mut first: Option<Built> = None;
        for (i, (seed, start, steps)) in p.machines.iter().take(6).enumerate() {
            let e = Env {
                seed: *seed,
                start: *start,
                steps: steps.clone(),
                save: Save::Whole,
                wfaults: vec![],
                rfaults: vec![],
                order: 0,
            };
            let m = machine(&e);
            let s = match &mut total {
                None => total.insert(m),
                Some(t) => {
                    t.ctx = m.ctx;
                    t
                }
            };
            let b = s.must(&format!("build on machine {i}"), &[], || world::build(&w))?;
            s.note("builds", 1);
            match &first {
                None => first = Some(b),
                Some(a) => {
                    match canonical_diff(&a.text, &b.text) {
                        Ok(None) => {}
                        Ok(Some(d)) => return viol("differs", format!("machine 0 and machine {i} build different models: {d}")),
                        Err(e) => return viol("malformed", e),
                    }
                    if a.text.lines().count() == b.text.lines().count() {
                        let moved = a
                            .text
                            .lines()
                            .zip(b.text.lines())
                            .any(|(x, y)| x.split('(').next() != y.split('(').next());
                        s.note("pairs with another record order", moved as u64);
                    }
                    s.note("pairs compared", 1);
                }
            }
        }
        Ok(())
    })();
    let mut s = total.ok_or("no machines")?;
    s.out.trivial = world::size(&w) == 0 || s.out.notes.get("pairs compared").is_none();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C10Plan {
    pub env: Env,
    pub block: i64,
    /// the bits in which the random blocks differ
    pub positions: Vec<u8>,
    pub worlds: Vec<World>,
    /// identifiers generated by each of several threads
    pub bulk: Vec<u32>,
    pub slices: Vec<Slice>,
    /// which of the edges the clients go over when they are alone always preempt
    #[serde(default)]
    pub watch: Vec<u32>,
    /// a seed, and at one of how many atomic operations of the library threads are preempted
    #[serde(default)]
    pub atomic: (u32, u32),
}

/// the bits of a block that count (the six which the UUID version overwrites are flipped together
/// with those they take the place of in the other byte order)
fn free_bits() -> Vec<u8> {
    (0..128u8).filter(|b| !(52..56).contains(b) && !(70..72).contains(b)).collect()
}

fn c10_gen(r: &mut Rng, _: u64) -> Value {
    let mut f = free_bits();
    r.shuffle(&mut f);
    f.truncate(13);
    plan(&C10Plan {
        env: gen_env(r),
        block: r.range(0, 1 << 50),
        positions: f,
        worlds: (0..1 + r.below(2)).map(|_| world::gen(r, 6)).collect(),
        bulk: (0..r.below(4)).map(|_| r.range(1, 400) as u32).collect(),
        slices: gen_slices(r),
        watch: gen_watch(r),
        atomic: (r.below(1 << 30) as u32, [0, 1, 2, 3, 8, 64][r.below(6) as usize]),
    })
}

fn c10_exec(v: &Value) -> Result<Outcome, String> {
    let p: C10Plan = unplan(v)?;
    let mut s = machine(&p.env);
    s.tenants = 0;
    let free = free_bits();
    // (a minimised plan may have too few positions)
    let mut pos: Vec<u8> = vec![];
    for b in p.positions.iter().chain(&free) {
        if free.contains(b) && !pos.contains(b) && pos.len() < 13 {
            pos.push(*b);
        }
    }
    s.ctx.entropy.mode = EntropyMode::Counter {
        seed: p.block as u64,
        positions: pos,
    };
    let mut worlds = p.worlds;
    worlds.truncate(3);
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let mut add = |g: &str, what: String| -> Result<(), Viol> {
        if !docgen::valid_guid(g) {
            return viol("guid", format!("{what} is the malformed identifier {g:?}"));
        }
        if let Some(o) = seen.insert(g.to_string(), what.clone()) {
            return viol("twice", format!("{what} and {o} are the same identifier {g:?}"));
        }
        Ok(())
    };
    let r = (|| {
        for (i, w) in worlds.iter_mut().enumerate() {
            world::sanitize(w);
            let b = crate::worldchecks::built(&mut s, w, &p.env)?;
            let g = guids_valid(&b.text, "built file")?;
            s.note("identifiers of built objects", g.len() as u64);
            for (id, x) in &g {
                add(x, format!("that of #{id} of model {i}"))?;
            }
            let a = crate::worldchecks::reload(&mut s, &p.env, "load")?;
            if guids(&a.text).ok().map(|v| v.into_iter().collect::<BTreeMap<_, _>>()) != Some(g.iter().cloned().collect()) {
                return viol("changed", "identifiers are different after save, restart and load".to_string());
            }
        }
        let bulk: Vec<u32> = p.bulk.iter().take(4).map(|n| *n % 1000).collect();
        let calls = s.ctx.entropy.calls;
        if bulk.is_empty() || calls + bulk.iter().sum::<u32>() as u64 + 50 > 1 << 13 {
            return Ok(());
        }
        let before = s.ctx.clone();
        s.must("one identifier alone", &[], || IfcGloballyUniqueId::new_v4().to_string())?;
        s.ctx = before;
        let watch = watched(&p.watch, &cov::last_edges().into_iter().collect());
        let (out, panics, switches) = s.must("identifiers by several threads", &[], || {
            let mut out: Vec<Vec<String>> = vec![vec![]; bulk.len()];
            let jobs: Vec<Box<dyn FnOnce() + Send>> = out
                .iter_mut()
                .zip(&bulk)
                .map(|(o, n)| {
                    let n = *n;
                    Box::new(move || {
                        for _ in 0..n {
                            o.push(IfcGloballyUniqueId::new_v4().to_string());
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let (p, sw) = sched::run(&p.slices, &watch, p.atomic, jobs);
            (out, p, sw)
        })?;
        s.note("context switches", switches);
        if panics.iter().any(|p| p.is_some()) {
            return viol("panic", format!("{panics:?}"));
        }
        for (i, t) in out.iter().enumerate() {
            s.note("identifiers generated directly", t.len() as u64);
            for (k, g) in t.iter().enumerate() {
                let Some(g) = g.strip_prefix('\'').and_then(|g| g.strip_suffix('\'')) else {
                    return viol("guid", format!("identifier {g:?} is not a string"));
                };
                add(g, format!("identifier {k} of thread {i}"))?;
            }
        }
        Ok(())
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C11Plan {
    pub env: Env,
    pub world: World,
    pub zone: u8,
    /// owner histories made directly, with or without a modification stamp
    pub direct: Vec<bool>,
    /// instants (seconds, nanoseconds) that are not the clock's
    #[serde(default)]
    pub given: Vec<(i64, u32)>,
    pub save2: Save,
}

const ZONES: [&str; 6] = ["UTC0", "<+0530>-05:30", "<-11>11", "<+14>-14", "XXX3YYY,M3.2.0,M11.1.0", "<-0330>3:30"];

fn c11_gen(r: &mut Rng, _: u64) -> Value {
    plan(&C11Plan {
        env: gen_env(r),
        world: world::gen(r, 3),
        zone: r.below(ZONES.len()) as u8,
        direct: (0..r.below(5)).map(|_| r.chance(50)).collect(),
        given: (0..r.below(4))
            .map(|_| (r.range(-4_000_000_000, 4_000_000_000), if r.chance(50) { r.below(1_000_000_000) as u32 } else { 0 }))
            .collect(),
        save2: gen_save(r),
    })
}

fn zone(z: u8) {
    std::env::set_var("TZ", ZONES[z as usize % ZONES.len()]);
}

/// stamps of the owner histories and of the header
fn stamps(text: &str) -> Result<(BTreeMap<u64, (Node, Node)>, String), String> {
    let d = parse_doc(text)?;
    let mut m = BTreeMap::new();
    for (id, r) in &d.data {
        if r.kw == "IFCOWNERHISTORY" {
            if r.args.len() != 8 {
                return Err(format!("#{id}={}", r.raw));
            }
            m.insert(*id, (r.args[4].clone(), r.args[7].clone()));
        }
    }
    let h = d
        .header
        .iter()
        .find(|(k, _)| k == "FILE_NAME")
        .and_then(|(_, a)| a.get(1))
        .ok_or("no header time stamp")?;
    match h {
        Node::Str(s) => Ok((m, s.clone())),
        o => Err(format!("header time stamp {}", step::show(o))),
    }
}

/// an ISO 8601 time stamp as an instant in seconds
pub fn iso(s: &str) -> Option<i64> {
    let (d, t) = s.split_once('T')?;
    let v: Vec<i64> = d.split('-').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    let (t, off) = match t.find(['Z', '+', '-']) {
        None => (t, 0),
        Some(i) if &t[i..] == "Z" => (&t[..i], 0),
        Some(i) => {
            let z = &t[i + 1..];
            let (h, m) = z.split_once(':').unwrap_or((z, "0"));
            let o = h.parse::<i64>().ok()? * 3600 + m.parse::<i64>().ok()? * 60;
            (&t[..i], if t[i..].starts_with('-') { -o } else { o })
        }
    };
    let t = t.split('.').next()?;
    let x: Vec<i64> = t.split(':').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    if v.len() != 3 || x.len() != 3 {
        return None;
    }
    // days from civil
    let (y, m, dd) = (v[0] - (v[1] <= 2) as i64, v[1], v[2]);
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + dd - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days = era * 146097 + doe - 719468;
    Some(days * 86400 + x[0] * 3600 + x[1] * 60 + x[2] - off)
}

fn c11_exec(v: &Value) -> Result<Outcome, String> {
    let p: C11Plan = unplan(v)?;
    let mut w = p.world;
    world::sanitize(&mut w);
    let mut s = machine(&p.env);
    let r = (|| {
        // built by a project builder
        let (text, log, err) = s.must("build, save", &benign(&p.env.wfaults), || {
            zone(p.zone);
            let a = seam::readings().len();
            let b = world::build(&w);
            let e = save_text(&b.text, p.env.save).err().map(|e| e.to_string());
            (b.text, seam::readings()[a..].to_vec(), e)
        })?;
        if let Some(e) = err {
            return viol("save", e);
        }
        s.ctx.disk.sync_all();
        let secs: BTreeSet<i64> = log.iter().map(|t| t.div_euclid(1_000_000_000) as i64).collect();
        if secs.len() > 1 {
            s.fired("clock moved between two readings", 1);
        }
        if log.windows(2).any(|w| w[1] < w[0]) {
            s.fired("clock jumped backwards", 1);
        }
        s.fired("time zone other than UTC", (p.zone as usize % ZONES.len() != 0) as u64);
        let one = |n: &Node, what: String| -> Result<(), Viol> {
            match n {
                Node::Num(x) if x.parse::<i64>().is_ok_and(|x| secs.contains(&x)) => Ok(()),
                n => viol("stamp", format!("{what} is {} but the clock read {secs:?}", step::show(n))),
            }
        };
        let (st, head) = match stamps(&text) {
            Ok(x) => x,
            Err(e) => return viol("malformed", e),
        };
        if st.is_empty() {
            return viol("stamp", "no owner history".to_string());
        }
        for (id, (m, c)) in &st {
            one(c, format!("creation stamp of #{id}"))?;
            one(m, format!("modification stamp of #{id}"))?;
            s.note("stamps checked", 2);
        }
        match iso(&head) {
            Some(t) if secs.contains(&t) => {}
            o => return viol("stamp", format!("header time stamp {head:?} ({o:?}) but the clock read {secs:?}")),
        }
        // the same instants later, in another zone, at another time
        for k in 0..2u8 {
            let r = s.must(&format!("load {k}"), &benign(&p.env.rfaults), || {
                zone(p.zone.wrapping_add(k + 1));
                let i = load()?;
                let hist: Vec<(u64, i64, Option<i64>)> = i
                    .data
                    .find_all_of_type::<OwnerHistory>()
                    .map(|(id, o)| {
                        let m = o.last_modified_date.custom().map(|t| t.0.timestamp());
                        (id.id().0 as u64, o.creation_date.0.timestamp(), m)
                    })
                    .collect();
                let h = i.header.name.timestamp.0.timestamp();
                let e = save(&i, p.save2).err().map(|e| e.to_string());
                Ok::<_, String>((hist, h, i.to_string(), e))
            })?;
            let (hist, h, t, e) = loaded(r, "load")?;
            if let Some(e) = e {
                return viol("save", e);
            }
            s.ctx.disk.sync_all();
            if stamps(&t).ok().as_ref().map(|x| &x.0) != Some(&st) {
                return viol("changed", format!("stamps {st:?} became {:?} after {} restarts", stamps(&t), k + 1));
            }
            if stamps(&t).ok().and_then(|x| iso(&x.1)) != iso(&head) || Some(h) != iso(&head) {
                return viol("changed", format!("the header's time stamp {head:?} is {h} s after a restart"));
            }
            for (id, c, m) in &hist {
                let want = st.get(id).map(|(m, c)| (step::show(c), step::show(m)));
                let have = (c.to_string(), m.map_or("$".into(), |m| m.to_string()));
                if want.as_ref() != Some(&have) {
                    return viol("changed", format!("the stamps of #{id} are {have:?} instead of {want:?} after a restart"));
                }
            }
            s.note("restarts", 1);
        }
        // owner histories made one after the other
        let direct: Vec<bool> = p.direct.iter().take(8).cloned().collect();
        let given: Vec<(i64, u32)> = p.given.iter().take(8).cloned().collect();
        let (text, logs, held) = s.must("owner histories", &[], || {
            zone(p.zone);
            let mut ifc = IFC::default();
            let mut logs = vec![];
            let mut held = vec![];
            for (t, n) in &given {
                let Some(t) = chrono::DateTime::from_timestamp(*t, *n % 1_000_000_000) else { continue };
                let o = OwnerHistory::new(ChangeAction::Added, IfcTimestamp(t)).last_modified_date(IfcTimestamp(t));
                held.push(ifc.data.insert_new(o).id().0 as u64);
            }
            for m in &direct {
                let a = seam::readings().len();
                let c = IfcTimestamp::now();
                let b = seam::readings().len();
                let mut o = OwnerHistory::new(ChangeAction::Added, c);
                if *m {
                    o = o.last_modified_date(IfcTimestamp::now());
                }
                let z = seam::readings();
                let id = ifc.data.insert_new(o).id().0 as u64;
                logs.push((id, *m, z[a..b].to_vec(), z[b..].to_vec()));
            }
            (ifc.to_string(), logs, held)
        })?;
        let (st, _) = match stamps(&text) {
            Ok(x) => x,
            Err(e) => return viol("malformed", e),
        };
        if held.len() == given.len() {
            for (id, (t, _)) in held.iter().zip(&given) {
                let want = Node::Num(t.to_string());
                match st.get(id) {
                    Some((m, c)) if *m == want && *c == want => {}
                    o => return viol("stamp", format!("the stamps of #{id}, made from {t} s, are {o:?}")),
                }
                s.note("stamps checked", 2);
            }
        }
        for (id, m, a, b) in logs {
            let says = |n: &Node, l: &[i128]| matches!(n, Node::Num(x) if l.iter().any(|t| x.parse() == Ok(t.div_euclid(1_000_000_000) as i64)));
            let Some((mo, cr)) = st.get(&id) else {
                return viol("lost", format!("owner history #{id} is not written"));
            };
            if !says(cr, &a) {
                return viol("stamp", format!("creation stamp of #{id} is {} but the clock read {a:?}", step::show(cr)));
            }
            if m && !says(mo, &b) || !m && *mo != Node::Null {
                return viol("stamp", format!("modification stamp of #{id} is {} but the clock read {b:?}", step::show(mo)));
            }
            s.note("stamps checked", 1 + m as u64);
        }
        Ok(())
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    New { kind: u8, n: i32 },
    At { id: u64, kind: u8, n: i32 },
    Default { id: u64, kind: u8 },
    Remove { id: u64 },
    Look { id: u64 },
    Set { id: u64, n: i32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Segment {
    pub ops: Vec<MOp>,
    /// the process is killed before it saves
    pub killed: bool,
    pub save: Save,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C13Plan {
    pub seed: i64,
    pub initial: Vec<(u64, u8, i32)>,
    pub segments: Vec<Segment>,
}

const MKINDS: u8 = 10;

fn gen_mid(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.range(0, 1 << 40) as u64,
        1 => r.range(250, 260) as u64,
        _ => r.range(0, 14) as u64,
    }
}

fn gen_mop(r: &mut Rng) -> MOp {
    let (id, kind, n) = (gen_mid(r), r.below(MKINDS as usize) as u8, r.range(-9999, 9999) as i32);
    match r.below(9) {
        0..=2 => MOp::New { kind, n },
        3 | 4 => MOp::At { id, kind, n },
        5 => MOp::Default { id, kind },
        6 => MOp::Remove { id },
        7 => MOp::Look { id },
        _ => MOp::Set { id, n },
    }
}

fn c13_gen(r: &mut Rng, _: u64) -> Value {
    plan(&C13Plan {
        seed: r.range(0, 1 << 50),
        initial: (0..r.below(6))
            .map(|_| (gen_mid(r), r.below(MKINDS as usize) as u8, r.range(-9999, 9999) as i32))
            .collect(),
        segments: (0..1 + r.below(4))
            .map(|_| Segment {
                ops: (0..1 + r.below(14)).map(|_| gen_mop(r)).collect(),
                killed: r.chance(20),
                save: gen_save(r),
            })
            .collect(),
    })
}

/// kind, and what it renders as
type MObj = (u8, Node);

fn mdefault(kind: u8) -> Option<MObj> {
    let ty = |k: &str, a: Vec<Node>| Node::Typed(k.into(), a);
    Some((
        kind,
        match kind {
            7 => ty("IFCMATERIALLAYERSET", vec![Node::List(vec![]), Node::Null, Node::Null]),
            8 => ty("IFCMATERIALCONSTITUENTSET", vec![Node::Null, Node::Null, Node::List(vec![])]),
            9 => ty("IFCPRODUCTDEFINITIONSHAPE", vec![Node::Null, Node::Null, Node::List(vec![])]),
            _ => return None,
        },
    ))
}

fn mobj(kind: u8, n: i32) -> MObj {
    let k = kind % MKINDS;
    let ty = |k: &str, a: Vec<Node>| Node::Typed(k.into(), a);
    let f = |x: f64| Node::F(x);
    let s = Node::Str(format!("n{n}"));
    let x = n as f64 / 8.0;
    let t = match k {
        0 => ty("IFCCARTESIANPOINT", vec![Node::List(vec![f(x), f(1.0)])]),
        1 => ty("IFCCARTESIANPOINT", vec![Node::List(vec![f(x), f(1.0), f(2.0)])]),
        2 => ty("IFCMATERIAL", vec![s, Node::Null, Node::Null]),
        3 => ty("IFCORGANIZATION", vec![Node::Null, s, Node::Null, Node::Null, Node::Null]),
        4 => ty(
            "IFCPERSON",
            vec![s, Node::Null, Node::Null, Node::Null, Node::Null, Node::Null, Node::Null, Node::Null],
        ),
        5 => ty("IFCFOREIGN", vec![Node::Num(n.to_string())]),
        6 => ty("IFCDIRECTION", vec![Node::List(vec![f(0.0), f(1.0), f(0.0)])]),
        _ => return mdefault(k).unwrap(),
    };
    (k, t)
}

fn mset(o: &MObj, n: i32) -> Option<MObj> {
    match o.0 {
        0..=4 => Some(mobj(o.0, n)),
        _ => None,
    }
}

/// what a process reports after each operation
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct MState {
    contradictions: String,
    result: String,
    /// kind -> ids, from the two queries by type
    by_id: Vec<Vec<u64>>,
    by_find: Vec<Vec<(u64, String)>>,
    /// probe -> rendered
    looks: BTreeMap<u64, Option<String>>,
}

macro_rules! mtypes {
    ($m:ident) => {
        $m!(0 Point2D, 1 Point3D, 2 Material, 3 Organization, 4 Person, 5 Dummy, 6 Direction3D,
            7 MaterialLayerSet, 8 MaterialConstituentSet, 9 ProductDefinitionShape)
    };
}

fn mboxed(kind: u8, n: i32) -> Box<dyn IfcType> {
    let x = n as f64 / 8.0;
    let s = format!("n{n}");
    match kind % MKINDS {
        0 => Box::new(Point2D::from(DVec2::new(x, 1.0))),
        1 => Box::new(Point3D::from(DVec3::new(x, 1.0, 2.0))),
        2 => Box::new(Material::new(s.as_str())),
        3 => Box::new(Organization::new(None, s.as_str(), None)),
        4 => Box::new(Person::empty().id(s.as_str())),
        5 => Box::new(Dummy { s: format!("IFCFOREIGN({n})") }),
        6 => Box::new(Direction3D::from(DVec3::Y)),
        7 => Box::new(MaterialLayerSet::default()),
        8 => Box::new(MaterialConstituentSet::default()),
        _ => Box::new(ProductDefinitionShape::default()),
    }
}

fn mdo(ifc: &mut IFC, o: &MOp) -> String {
    let show = |o: Option<Box<dyn IfcType>>| o.map_or("none".into(), |o| o.to_string());
    match o {
        MOp::New { kind, n } | MOp::At { kind, n, .. } => {
            let at = match o {
                MOp::At { id, .. } => Some(Id(*id as usize)),
                _ => None,
            };
            macro_rules! put {
                ($($k:literal $t:ident),*) => {
                    match kind % MKINDS {
                        $($k => {
                            let v = *mboxed($k, *n).downcast::<$t>().ok().expect("kind");
                            match at {
                                Some(id) => show(ifc.data.insert(id, v)),
                                None => ifc.data.insert_new(v).id().0.to_string(),
                            }
                        })*
                        _ => unreachable!(),
                    }
                };
            }
            mtypes!(put)
        }
        MOp::Default { id, kind } => {
            let id = Id(*id as usize);
            match kind % MKINDS {
                7 => ifc.data.insert_if_not_exists::<MaterialLayerSet>(id),
                8 => ifc.data.insert_if_not_exists::<MaterialConstituentSet>(id),
                9 => ifc.data.insert_if_not_exists::<ProductDefinitionShape>(id),
                _ => {}
            }
            String::new()
        }
        MOp::Remove { id } => show(ifc.data.remove(Id(*id as usize))),
        MOp::Look { id } => {
            let id = Id(*id as usize);
            let c = ifc.data.contains(&id);
            let mut v = vec![];
            macro_rules! typed {
                ($($k:literal $t:ident),*) => {
                    $( for t in ifc.data.id_of::<$t>() {
                        if t.id() == id {
                            v.push(ifc.data.get(t).to_string());
                        }
                    } )*
                };
            }
            mtypes!(typed);
            if c {
                v.push(ifc.data.get_untyped(id).to_string());
            }
            v.join("|")
        }
        MOp::Set { id, n } => {
            let id = Id(*id as usize);
            macro_rules! set {
                ($($t:ident)*) => {
                    $( {
                        let t = ifc.data.id_of::<$t>().find(|t| t.id() == id);
                        if let Some(t) = t {
                            let kind = mkind_of(stringify!($t));
                            *ifc.data.get_mut(t) = *mboxed(kind, *n).downcast::<$t>().ok().expect("kind");
                        }
                    } )*
                };
            }
            set!(Point2D Point3D Material Organization Person);
            String::new()
        }
    }
}

fn mkind_of(t: &str) -> u8 {
    match t {
        "Point2D" => 0,
        "Point3D" => 1,
        "Material" => 2,
        "Organization" => 3,
        _ => 4,
    }
}

/// a number that depends on the run and the moment, for the order of the questions
fn mmix(seed: u64, turn: u64) -> u64 {
    let mut z = (seed ^ turn.wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Asks for all kinds and probed ids. The kind (id) asked for last is the one asked for first in
/// the next state, so that there are questions with nothing but one operation in between.
fn mstate(ifc: &IFC, probes: &[u64], result: String, seed: u64, turn: u64) -> MState {
    let mut s = MState {
        result,
        ..Default::default()
    };
    let kinds = u64::from(MKINDS);
    let (first, last) = (mmix(seed, turn) % kinds, mmix(seed, turn + 1) % kinds);
    let mut found: BTreeMap<u64, (Vec<u64>, Vec<(u64, String)>)> = BTreeMap::new();
    for k in std::iter::once(first).chain((0..kinds).filter(|k| *k != first && *k != last)).chain([last]) {
        macro_rules! one {
            ($($k:literal $t:ident),*) => {
                match k {
                    $( $k => {
                        let mut a: Vec<u64> = ifc.data.id_of::<$t>().map(|i| i.id().0 as u64).collect();
                        let mut b: Vec<(u64, String)> = ifc.data.find_all_of_type::<$t>().map(|(i, o)| (i.id().0 as u64, o.to_string())).collect();
                        a.sort();
                        b.sort();
                        (a, b)
                    } )*
                    _ => unreachable!(),
                }
            };
        }
        let answer = mtypes!(one);
        if found.get(&k).is_some_and(|f| *f != answer) {
            s.contradictions.push_str(" asked twice, answered differently");
        }
        found.insert(k, answer);
    }
    for (a, b) in found.into_values() {
        s.by_id.push(a);
        s.by_find.push(b);
    }
    let n = probes.len() as u64;
    let (first, last) = (mmix(seed, !turn) % n, mmix(seed, !(turn + 1)) % n);
    for p in std::iter::once(first).chain((0..n).filter(|p| *p != first && *p != last)).chain([last]) {
        let p = probes[p as usize];
        let id = Id(p as usize);
        let o = ifc.data.try_get_untyped(id).map(|o| o.to_string());
        if ifc.data.contains(&id) != o.is_some() {
            s.contradictions.push_str(" contains and look-up contradict");
        }
        s.looks.insert(p, o);
    }
    s
}

/// the record a rendered object says
fn mnode(s: &str) -> Result<Node, Viol> {
    let t = s.trim_end_matches(';');
    match step::parse_node(t) {
        Ok(n) => Ok(n),
        Err(e) => viol("malformed", format!("{s:?}: {e}")),
    }
}

fn mcheck(m: &BTreeMap<u64, MObj>, s: &MState, what: &str) -> Result<(), Viol> {
    if !s.contradictions.is_empty() {
        return viol("contradiction", format!("{what}:{}", s.contradictions));
    }
    for k in 0..MKINDS {
        let want: Vec<u64> = m.iter().filter(|(_, o)| o.0 == k).map(|(i, _)| *i).collect();
        let found: Vec<u64> = s.by_find[k as usize].iter().map(|f| f.0).collect();
        if s.by_id[k as usize] != want || found != want {
            return viol(
                "by type",
                format!("{what}: objects of kind {k} are {want:?}, the queries report {:?} and {found:?}", s.by_id[k as usize]),
            );
        }
        for (id, t) in &s.by_find[k as usize] {
            if !same(&m[id].1, &mnode(t)?, 1e-12) {
                return viol("value", format!("{what}: #{id} is {t} instead of {}", step::show(&m[id].1)));
            }
        }
    }
    for (id, l) in &s.looks {
        match (m.get(id), l) {
            (None, None) => {}
            (Some(w), Some(t)) if same(&w.1, &mnode(t)?, 1e-12) => {}
            (w, l) => {
                return viol(
                    "look-up",
                    format!("{what}: #{id} is {l:?} instead of {:?}", w.map(|w| step::show(&w.1))),
                )
            }
        }
    }
    Ok(())
}

fn c13_exec(v: &Value) -> Result<Outcome, String> {
    let p: C13Plan = unplan(v)?;
    let mut s = Sim::new(p.seed as u64);
    let segs: Vec<Segment> = p.segments.into_iter().take(6).collect();
    let probes: Vec<u64> = {
        let mut v: BTreeSet<u64> = (0..17).collect();
        v.extend(p.initial.iter().map(|i| i.0));
        v.into_iter().collect()
    };
    let seed = p.seed as u64;
    let initial: Vec<(u64, u8, i32)> = p.initial.iter().map(|(i, k, n)| (i % (1 << 45), *k, *n)).collect();
    let r = (|| {
        let mut m: BTreeMap<u64, MObj> = BTreeMap::new();
        for (id, k, n) in &initial {
            m.insert(*id, mobj(*k, *n));
        }
        let mut saved: Option<BTreeMap<u64, MObj>> = None;
        for (i, g) in segs.iter().enumerate() {
            let first = saved.is_none();
            if let Some(x) = &saved {
                m = x.clone();
            } else if i > 0 {
                m = initial.iter().map(|(id, k, n)| (*id, mobj(*k, *n))).collect();
            }
            let r = s.must(&format!("process {i}"), &[], || {
                let mut ifc = if first {
                    let list: Vec<(Id, Box<dyn IfcType>)> =
                        initial.iter().map(|(id, k, n)| (Id(*id as usize), mboxed(*k, *n))).collect();
                    IFC {
                        data: list.into(),
                        ..Default::default()
                    }
                } else {
                    load()?
                };
                let mut states = vec![mstate(&ifc, &probes, String::new(), seed, 0)];
                for o in &g.ops {
                    let r = mdo(&mut ifc, o);
                    states.push(mstate(&ifc, &probes, r, seed, states.len() as u64));
                }
                let e = if g.killed { None } else { save(&ifc, g.save).err().map(|e| e.to_string()) };
                Ok::<_, String>((states, e))
            })?;
            let (states, e) = loaded(r, &format!("load in process {i}"))?;
            if let Some(e) = e {
                return viol("save", e);
            }
            mcheck(&m, &states[0], &format!("process {i} at its start"))?;
            for (o, st) in g.ops.iter().zip(&states[1..]) {
                let what = format!("process {i} after {o:?}");
                let old = |id: &u64, m: &BTreeMap<u64, MObj>| m.get(id).map(|x| x.1.clone());
                let mut expect: Option<Option<Node>> = None;
                match o {
                    MOp::New { kind, n } => {
                        let Ok(id) = st.result.parse::<u64>() else {
                            return viol("id", format!("{what}: {}", st.result));
                        };
                        if m.contains_key(&id) {
                            return viol("reused", format!("{what}: the new object got the id #{id} of an existing one"));
                        }
                        m.insert(id, mobj(*kind, *n));
                    }
                    MOp::At { id, kind, n } => {
                        expect = Some(old(id, &m));
                        m.insert(*id, mobj(*kind, *n));
                    }
                    MOp::Default { id, kind } => {
                        if let Some(d) = mdefault(*kind % MKINDS) {
                            m.entry(*id).or_insert(d);
                        }
                    }
                    MOp::Remove { id } => {
                        expect = Some(old(id, &m));
                        m.remove(id);
                    }
                    MOp::Look { id } => {
                        let want = old(id, &m);
                        let have: Vec<&str> = st.result.split('|').filter(|x| !x.is_empty()).collect();
                        if have.len() != if want.is_some() { 2 } else { 0 } {
                            return viol("look-up", format!("{what}: {have:?} instead of {:?}", want.map(|w| step::show(&w))));
                        }
                        for h in have {
                            if !same(want.as_ref().unwrap(), &mnode(h)?, 1e-12) {
                                return viol("look-up", format!("{what}: {h} instead of {}", step::show(&want.unwrap())));
                            }
                        }
                    }
                    MOp::Set { id, n } => {
                        if let Some(x) = m.get(id).and_then(|x| mset(x, *n)) {
                            m.insert(*id, x);
                        }
                    }
                }
                if let Some(w) = expect {
                    let ok = match &w {
                        None => st.result == "none",
                        Some(w) => st.result != "none" && same(w, &mnode(&st.result)?, 1e-12),
                    };
                    if !ok {
                        return viol(
                            "returned",
                            format!("{what}: returned {} instead of {}", st.result, w.map_or("none".into(), |w| step::show(&w))),
                        );
                    }
                }
                if st.result.contains("contradict") {
                    return viol("look-up", format!("{what}: {}", st.result));
                }
                mcheck(&m, st, &what)?;
                s.note("operations", 1);
            }
            if g.killed {
                s.fired("process killed before saving", 1);
            } else {
                s.ctx.disk.sync_all();
                saved = Some(m.clone());
            }
            s.note("processes", 1);
        }
        Ok(())
    })();
    s.out.trivial = s.out.notes.get("operations").is_none();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum POp {
    Build { world: World },
    Edit { doc: DocPlan, edits: Vec<Edit>, save: Save },
    Query { world: World },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C18Plan {
    pub env: Env,
    pub threads: Vec<Vec<POp>>,
    pub slices: Vec<Slice>,
    /// which of the edges the clients go over when they are alone always preempt
    #[serde(default)]
    pub watch: Vec<u32>,
    /// a seed, and at one of how many atomic operations of the library threads are preempted
    #[serde(default)]
    pub atomic: (u32, u32),
}

fn c18_gen(r: &mut Rng, idx: u64) -> Value {
    let mut op = |r: &mut Rng| match r.below(5) {
        0 | 1 => POp::Build {
            world: world::gen_with(r, 4, 25),
        },
        2 => POp::Query { world: world::gen(r, 4) },
        _ => {
            let n = 1 + r.below(4);
            let k = docgen::kinds(r, idx, n);
            POp::Edit {
                doc: docgen::doc(r, &k, true),
                edits: (0..r.below(4)).map(|_| edits::gen(r)).collect(),
                save: gen_save(r),
            }
        }
    };
    let same = r.chance(25);
    let n = 2 + r.below(3);
    let mut threads: Vec<Vec<POp>> = (0..n).map(|_| (0..1 + r.below(2)).map(|_| op(r)).collect()).collect();
    if same {
        // everybody does the same
        let t = threads[0].clone();
        threads.iter_mut().for_each(|x| *x = t.clone());
    }
    plan(&C18Plan {
        env: gen_env(r),
        threads,
        slices: gen_slices(r),
        watch: gen_watch(r),
        atomic: (r.below(1 << 30) as u32, [0, 1, 2, 3, 8, 64][r.below(6) as usize]),
    })
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
struct Res {
    /// compared as a whole
    exact: Vec<String>,
    /// compared but for identifiers, time stamps, order
    built: Vec<String>,
}

fn pop(o: &POp, dos: &[edits::Do], me: usize) -> Res {
    let mut r = Res::default();
    let file = format!("/simdisk/own{me}.ifc");
    match o {
        POp::Build { world } | POp::Query { world } => {
            let b = world::build(world);
            if std::fs::write(&file, &b.text).is_err() {
                r.exact.push("write failed".into());
            }
            sched::point();
            match IFC::from_file(&file) {
                Ok(i) => {
                    let t = i.to_string();
                    r.exact.push(format!("{}", t == b.text));
                    if let POp::Query { .. } = o {
                        // the numbers of the records depend on hash order, the counts do not
                        let q = report(&IfcExtractor::from(i));
                        r.exact.push(format!(
                            "{} {} {} {}",
                            q.projects.len(),
                            q.contained.values().map(|v| v.len()).sum::<usize>(),
                            q.relations.values().map(|v| v.len()).sum::<usize>(),
                            q.layers.values().map(|v| v.len()).sum::<usize>()
                        ));
                    }
                    r.built.push(t);
                }
                Err(e) => r.exact.push(format!("{e:#}")),
            }
        }
        POp::Edit { save: how, .. } => {
            let src = format!("/simdisk/src{me}.ifc");
            match IFC::from_file(&src) {
                Ok(mut i) => {
                    sched::point();
                    let a = snap(&i);
                    let ids = edits::apply(&mut i, dos);
                    let b = snap(&i);
                    let t = i.to_string();
                    let e = match how {
                        Save::Stream | Save::Buffered => {
                            use std::io::Write;
                            std::fs::File::create(&file).and_then(|mut f| write!(f, "{i}"))
                        }
                        _ => std::fs::write(&file, &t),
                    };
                    let c = IFC::from_file(&file).map(|i| snap(&i)).map_err(|e| format!("{e:#}"));
                    r.exact.push(format!("{a:?}"));
                    r.exact.push(format!("{ids:?}"));
                    r.exact.push(format!("{b:?}"));
                    r.exact.push(format!("{:?} {c:?}", e.map_err(|e| e.to_string())));
                }
                Err(e) => r.exact.push(format!("{e:#}")),
            }
        }
    }
    r
}

fn c18_exec(v: &Value) -> Result<Outcome, String> {
    let p: C18Plan = unplan(v)?;
    let mut s = machine(&p.env);
    s.tenants = 0;
    s.budget *= 3;
    let mut threads: Vec<Vec<POp>> = p.threads.into_iter().take(4).collect();
    let mut dos: Vec<Vec<Vec<edits::Do>>> = vec![];
    for t in threads.iter_mut() {
        let mut td = vec![];
        for o in t.iter_mut() {
            td.push(match o {
                POp::Build { world } | POp::Query { world } => {
                    world::sanitize(world);
                    vec![]
                }
                POp::Edit { doc, edits, .. } => {
                    doc.sanitize();
                    let mut x = expect_of(doc);
                    let mut h = doc.head.expected();
                    edits::plan(edits, &mut x, &mut h)
                }
            });
        }
        dos.push(td);
    }
    // one source document per client
    for (i, t) in threads.iter().enumerate() {
        let mut n = 0;
        for o in t {
            if let POp::Edit { doc, .. } = o {
                s.put(&format!("src{}.ifc", i * 100 + n), doc.render());
                n += 1;
            }
        }
    }
    fn client(t: &[POp], dos: &[Vec<edits::Do>], i: usize) -> Vec<Res> {
        let mut n = 0;
        t.iter()
            .zip(dos)
            .map(|(o, d)| {
                sched::point();
                let me = i * 100 + n;
                n += matches!(o, POp::Edit { .. }) as usize;
                catch_unwind(AssertUnwindSafe(|| pop(o, d, me))).unwrap_or_else(|_| Res {
                    exact: vec!["panicked".into()],
                    built: vec![],
                })
            })
            .collect()
    }
    let r = (|| {
        let start = s.ctx.clone();
        let mut alone = vec![];
        let mut edges = BTreeSet::new();
        for (i, t) in threads.iter().enumerate() {
            s.ctx = start.clone();
            let d = &dos[i];
            alone.push(s.must(&format!("client {i} alone"), &[], || client(t, d, i))?);
            edges.extend(cov::last_edges());
        }
        let watch = watched(&p.watch, &edges);
        s.ctx = start;
        let (res, panics, switches) = s.must("all clients at once", &[], || {
            let mut res: Vec<Vec<Res>> = vec![vec![]; threads.len()];
            let jobs: Vec<Box<dyn FnOnce() + Send>> = res
                .iter_mut()
                .zip(threads.iter().zip(&dos))
                .enumerate()
                .map(|(i, (out, (t, d)))| {
                    Box::new(move || {
                        *out = client(t, d, i);
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let (p, sw) = sched::run(&p.slices, &watch, p.atomic, jobs);
            (res, p, sw)
        })?;
        s.note("context switches", switches);
        s.note("programs run concurrently", threads.iter().map(|t| t.len() as u64).sum());
        s.out.trivial = switches == 0;
        if let Some((i, Some(m))) = panics.iter().enumerate().find(|(_, p)| p.is_some()) {
            return viol("panic", format!("client {i} panicked: {m}"));
        }
        let mut seen: BTreeMap<String, String> = BTreeMap::new();
        for (i, (a, b)) in alone.iter().zip(&res).enumerate() {
            for (k, (x, y)) in a.iter().zip(b).enumerate() {
                if x.exact != y.exact {
                    let (x, y) = x
                        .exact
                        .iter()
                        .zip(&y.exact)
                        .find(|(x, y)| x != y)
                        .map(|(x, y)| crate::worldchecks::first_diff(x, y))
                        .unwrap_or(("results".into(), format!("{} results", y.exact.len())));
                    return viol("differs", format!("program {k} of client {i} got {y:?} instead of {x:?}"));
                }
                if x.built.len() != y.built.len() {
                    return viol("differs", format!("program {k} of client {i} built another number of models"));
                }
                for (x, y) in x.built.iter().zip(&y.built) {
                    match canonical_diff(x, y) {
                        Ok(None) => {}
                        Ok(Some(d)) => return viol("differs", format!("program {k} of client {i} builds another model than alone: {d}")),
                        Err(e) => return viol("malformed", e),
                    }
                    for (id, g) in guids_valid(y, "built model")? {
                        let me = format!("#{id} of program {k} of client {i}");
                        if let Some(o) = seen.insert(g.clone(), me.clone()) {
                            return viol("twice", format!("{o} and {me} have the same identifier {g}"));
                        }
                    }
                }
            }
        }
        Ok(())
    })();
    Ok(s.done(r))
}

// ------------------------------------------------------------------------------ table

pub fn defs() -> Vec<Def> {
    let d = Def {
        id: "",
        level: "exploration",
        gen: c01_gen,
        exec: c01_exec,
        quick: 4000,
        thorough: 60000,
        rule: "",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    };
    vec![
        Def {
            id: "C01",
            quick: 4000,
            thorough: 72000,
            rule: "A run creates a model (from a generated document or a history of builder calls), puts it through up to 3 edit-save-restart cycles and 2-3 further ones without edits, under benign I/O faults, and compares text, objects and header with the expectation and across every restart. Non-trivial: the model has objects.",
            ..d
        },
        Def {
            id: "C02",
            quick: 4000,
            thorough: 72000,
            level: "fault_enumeration",
            gen: c02_gen,
            exec: c02_exec,
            rule: "A run loads, edits and saves a generated document and then lets the machine crash in 10 different ways (journal prefixes, torn writes, lost sectors, dropped operations), loading what survived each time. Non-trivial: a crash happened.",
            ..d
        },
        Def {
            id: "C06",
            quick: 5000,
            thorough: 90000,
            gen: c06_gen,
            exec: c06_exec,
            rule: "A run shares one loaded model among 2-4 simulated threads under a generated schedule (switches possible at every control-flow edge of the library) and compares every result with the same calls made alone in a process of their own. Non-trivial: at least one context switch.",
            ..d
        },
        Def {
            id: "C09",
            quick: 10000,
            thorough: 180000,
            gen: c09_gen,
            exec: c09_exec,
            rule: "A run executes the same history of builder calls on 2-4 machines with different hash seeds, random numbers and clocks and compares the results in a form independent of order, numbering, identifiers and stamps. Non-trivial: at least one builder call below a storey and one pair compared.",
            ..d
        },
        Def {
            id: "C10",
            quick: 6000,
            thorough: 108000,
            gen: c10_gen,
            exec: c10_exec,
            rule: "A run builds 1-2 models and up to 1200 identifiers in several threads while the random source returns blocks that differ from each other only in 13 chosen bits, and checks that all identifiers are well-formed, distinct and unchanged by a restart.",
            ..d
        },
        Def {
            id: "C11",
            quick: 8000,
            thorough: 144000,
            gen: c11_gen,
            exec: c11_exec,
            rule: "A run builds a model while the clock jumps at every reading and the process runs in one of six time zones, and checks all stamps against the clock's readings, before and after two restarts.",
            ..d
        },
        Def {
            id: "C13",
            quick: 16000,
            thorough: 288000,
            gen: c13_gen,
            exec: c13_exec,
            rule: "A run executes up to 4 processes of up to 14 map operations each (with kills before saving) and compares all look-ups and queries by type after every operation with a map. Non-trivial: at least one operation.",
            ..d
        },
        Def {
            id: "C18",
            quick: 2500,
            thorough: 45000,
            gen: c18_gen,
            exec: c18_exec,
            rule: "A run lets 2-4 simulated threads build, load, edit, save and query models of their own under a generated schedule and compares every result with the same program run alone in a process of its own. Non-trivial: at least one context switch.",
            ..d
        },
    ]
}
#[cfg(test)]
mod tests {
    #[test]
    fn instants() {
        assert_eq!(super::iso("1970-01-01T00:00:00"), Some(0));
        assert_eq!(super::iso("2024-02-29T12:00:01Z"), Some(1709208001));
        assert_eq!(super::iso("2024-02-29T12:00:01+01:00"), Some(1709208001 - 3600));
    }
}
