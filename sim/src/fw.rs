//! The exploration framework: seeded search over plans, in parallel workers, deterministic
//! reporting, minimisation and replay.

use crate::cov::{self, Death};
use crate::rng::{fnv, mix, Rng};
use crate::seam::{Ctx, IoFault};
use crate::tenant::Tenant;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
    let mut d: String = detail.into();
    if d.len() > 1500 {
        let mut k = 1500;
        while !d.is_char_boundary(k) {
            k -= 1;
        }
        d.truncate(k);
        d.push('…');
    }
    Err(Viol {
        class: class.into(),
        detail: d,
    })
}

/// What one simulated run did.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Outcome {
    pub viol: Option<Viol>,
    /// injected faults that fired
    pub fired: BTreeMap<String, u64>,
    /// counts of interesting things (operations, oracle comparisons, ...)
    pub notes: BTreeMap<String, u64>,
    /// simulated seconds the clock moved (forwards or backwards)
    pub sim_s: f64,
    /// nothing worth counting happened
    pub trivial: bool,
    pub log: Vec<String>,
}

/// One simulated machine: disk, clock and entropy live on between the incarnations.
#[derive(Default)]
pub struct Sim {
    pub ctx: Ctx,
    pub out: Outcome,
    pub budget: u64,
    /// what processes of this machine did before
    pub tenants: u64,
    /// one process in `odds` did
    pub odds: u64,
    processes: u64,
}

impl Sim {
    pub fn new(seed: u64) -> Self {
        let mut s = Self {
            budget: cov::STEP_BUDGET,
            ..Default::default()
        };
        let mut r = Rng::new(seed);
        s.ctx.clock.now = r.range(0, 4_000_000_000) as i128 * 1_000_000_000 + r.range(0, 999_999_999) as i128;
        s.ctx.clock.steps = vec![1_000_000];
        s.ctx.entropy.mode = crate::seam::EntropyMode::Prng(r.u64());
        s.odds = 5;
        let t = r.u64();
        s.tenants = if seed == 0 { 0 } else { t };
        s
    }
    pub fn log(&mut self, s: impl Into<String>) {
        if self.out.log.len() < 300 {
            self.out.log.push(s.into());
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.out.notes.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn fired(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.out.fired.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn put(&mut self, name: &str, text: impl AsRef<[u8]>) {
        self.ctx.disk.put(&format!("/simdisk/{name}"), text.as_ref());
    }
    /// a new process on this machine
    pub fn process<T: Serialize + DeserializeOwned + Send>(
        &mut self,
        name: &str,
        faults: &[IoFault],
        f: impl FnOnce() -> T + Send,
    ) -> Result<T, Death> {
        self.ctx.arm(faults);
        self.ctx.log.clear();
        self.ctx.disk.fds.clear();
        let t0 = self.ctx.clock.now;
        self.processes += 1;
        let n = Rng::new(self.tenants ^ self.processes.wrapping_mul(0x9e37_79b9_7f4a_7c15)).u64();
        let tenant = (self.tenants != 0 && n % self.odds == 0).then(|| {
            let files: Vec<&[u8]> = self.ctx.disk.inodes.iter().map(|i| &i.data[..]).filter(|d| !d.is_empty()).collect();
            Tenant::gen(n, &files)
        });
        if tenant.is_some() {
            self.note("processes that had handled another model before", 1);
        }
        let r = cov::process(&mut self.ctx, self.budget, move || {
            let _kept = tenant.as_ref().and_then(Tenant::stay);
            f()
        });
        self.out.sim_s += ((self.ctx.clock.now - t0).abs() / 1_000_000) as f64 / 1000.0;
        let fired = std::mem::take(&mut self.ctx.fired);
        for (k, n) in &fired {
            *self.out.fired.entry(k.clone()).or_default() += n;
        }
        let how = match &r {
            Ok(_) => "ended".to_string(),
            Err(d) => d.to_string(),
        };
        let ev = self.ctx.log.len();
        self.log(format!("process {name}: {how}; {ev} simulated calls; faults fired: {fired:?}"));
        for e in self.ctx.log.clone().into_iter().take(40) {
            self.log(format!("  {e}"));
        }
        r
    }
    /// a new process whose death is a violation
    pub fn must<T: Serialize + DeserializeOwned + Send>(
        &mut self,
        name: &str,
        faults: &[IoFault],
        f: impl FnOnce() -> T + Send,
    ) -> Result<T, Viol> {
        match self.process(name, faults, f) {
            Ok(t) => Ok(t),
            Err(d) => viol(&d.class(), format!("{name} {d}")),
        }
    }
    pub fn done(mut self, r: Result<(), Viol>) -> Outcome {
        if let Err(v) = r {
            self.out.viol = Some(v);
        }
        self.out
    }
}

#[derive(Clone, Copy)]
pub struct Def {
    pub id: &'static str,
    pub level: &'static str,
    /// makes the plan of a run; never runs library code
    pub gen: fn(&mut Rng, u64) -> Value,
    /// executes a plan; Err = not a valid plan
    pub exec: fn(&Value) -> Result<Outcome, String>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub fn plan<T: Serialize>(p: &T) -> Value {
    serde_json::to_value(p).expect("plan")
}
pub fn unplan<T: DeserializeOwned>(v: &Value) -> Result<T, String> {
    serde_json::from_value(v.clone()).map_err(|e| e.to_string())
}

#[derive(Serialize, Deserialize)]
struct Line {
    idx: u64,
    plan_hash: u64,
    trace_hash: u64,
    /// hash of the set of (edge, log count) pairs
    edges: u64,
    steps: u64,
    incarnations: u64,
    trivial: bool,
    viol: Option<Viol>,
    fired: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    sim_s: f64,
    checked_again: bool,
    differed: bool,
    size: u64,
    err: Option<String>,
}

fn run_one(def: &Def, p: &Value) -> (Result<Outcome, String>, u64, u64, u64, u64) {
    let r = cov::reach();
    let total = r.map.clone();
    *r = cov::Reach::default();
    let out = match catch_unwind(AssertUnwindSafe(|| (def.exec)(p))) {
        Ok(o) => o,
        Err(_) => Err(format!("harness panic: {}", cov::last_panic())),
    };
    let r = cov::reach();
    let mut h = 0xcbf29ce484222325u64;
    for (i, c) in r.map.iter().enumerate() {
        if *c > 0 {
            h = (h ^ (i as u64 * 16 + (8 - c.leading_zeros() as u64))).wrapping_mul(0x100000001b3);
        }
    }
    let res = (out, r.trace_hash, h, r.steps, r.incarnations);
    // accumulate the union
    let mut map = std::mem::take(&mut r.map);
    if map.len() < total.len() {
        map.resize(total.len(), 0);
    }
    for (i, c) in total.iter().enumerate() {
        map[i] = map[i].saturating_add(*c);
    }
    r.map = map;
    res
}

pub fn gen_plan(def: &Def, seed: u64, idx: u64) -> Value {
    let mut rng = Rng::new(mix(&[seed, fnv(def.id.as_bytes()), idx]));
    (def.gen)(&mut rng, idx)
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    pub status: String,
    #[serde(default)]
    pub class: String,
    #[serde(default)]
    pub detail_contains: String,
    pub what: String,
    #[serde(default)]
    pub commit: String,
}

fn known(home: &Path) -> Vec<Known> {
    std::fs::read_to_string(home.join("known-findings.json"))
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or_default()
}

fn matches<'a>(ks: &'a [Known], id: &str, v: &Viol) -> Option<&'a Known> {
    ks.iter().find(|k| {
        k.status == "open"
            && k.property == id
            && k.class == v.class
            && v.detail.contains(&k.detail_contains)
    })
}

pub struct Opts {
    pub home: PathBuf,
    pub seed: u64,
    pub tier: String,
    pub workers: u64,
    pub runs: Option<u64>,
    pub cap_s: Option<u64>,
    pub t0: Instant,
}

/// runs a check; returns the exit code
pub fn check(def: &Def, o: &Opts) -> i32 {
    let quick = o.tier != "thorough";
    let runs = o.runs.unwrap_or(if quick { def.quick } else { def.thorough });
    let cap = Duration::from_secs(o.cap_s.unwrap_or(if quick { 150 } else { 600 }));
    let start = Instant::now();
    let kn = known(&o.home);
    let scratch = o.home.join(format!("sim/target/run-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    // the smallest index that violated so far
    let stop = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut u64;
        std::ptr::write_volatile(p, u64::MAX);
        &*(p as *const std::sync::atomic::AtomicU64)
    };
    use std::sync::atomic::Ordering::SeqCst;
    let mut pids = vec![];
    for w in 0..o.workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            cov::init();
            let mut f = std::io::BufWriter::new(
                std::fs::File::create(scratch.join(format!("w{w}"))).unwrap(),
            );
            let mut idx = w;
            while idx < runs && idx < stop.load(SeqCst) && start.elapsed() < cap {
                let p = gen_plan(def, o.seed, idx);
                let text = p.to_string();
                let (out, th, edges, steps, inc) = run_one(def, &p);
                let mut l = Line {
                    idx,
                    plan_hash: fnv(text.as_bytes()),
                    trace_hash: th,
                    edges,
                    steps,
                    incarnations: inc,
                    trivial: true,
                    viol: None,
                    fired: Default::default(),
                    notes: Default::default(),
                    sim_s: 0.0,
                    checked_again: false,
                    differed: false,
                    size: text.len() as u64,
                    err: None,
                };
                match out {
                    Ok(out) => {
                        if idx % 16 == 5 || (out.viol.is_some() && idx % 2 == 0) {
                            let (out2, th2, edges2, ..) = run_one(def, &p);
                            l.checked_again = true;
                            l.differed = th != th2 || edges != edges2 || out2.as_ref() != Ok(&out);
                        }
                        l.trivial = out.trivial;
                        l.viol = out.viol;
                        l.fired = out.fired;
                        l.notes = out.notes;
                        l.sim_s = out.sim_s;
                        if let Some(v) = &l.viol {
                            if matches(&kn, def.id, v).is_none() {
                                stop.fetch_min(idx, SeqCst);
                            }
                        }
                    }
                    Err(e) => l.err = Some(e),
                }
                serde_json::to_writer(&mut f, &l).unwrap();
                f.write_all(b"\n").unwrap();
                idx += o.workers;
            }
            let map: Vec<u32> = cov::reach()
                .map
                .iter()
                .enumerate()
                .filter(|(_, c)| **c > 0)
                .map(|(i, _)| i as u32)
                .collect();
            writeln!(f, "{}", json!({ "edges": map })).unwrap();
            f.flush().unwrap();
            drop(f);
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while waitpid(p, &mut st, 0) < 0 {} }
        if st != 0 {
            eprintln!("a worker died ({st})");
            return 2;
        }
    }
    let mut lines: Vec<Line> = vec![];
    let mut edges: BTreeSet<u64> = BTreeSet::new();
    for w in 0..o.workers {
        let t = std::fs::read_to_string(scratch.join(format!("w{w}"))).unwrap();
        for l in t.lines() {
            if let Ok(x) = serde_json::from_str::<Line>(l) {
                lines.push(x);
            } else {
                let v: Value = serde_json::from_str(l).unwrap();
                edges.extend(v["edges"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    lines.sort_by_key(|l| l.idx);
    let explored = start.elapsed().as_secs_f64();
    if let Some(l) = lines.iter().find(|l| l.err.is_some()) {
        eprintln!("{} run {}: {}", def.id, l.idx, l.err.as_ref().unwrap());
        return 2;
    }
    let bad = lines
        .iter()
        .find(|l| l.viol.as_ref().is_some_and(|v| matches(&kn, def.id, v).is_none()));
    let mut shown: BTreeSet<String> = BTreeSet::new();
    for l in &lines {
        if let Some(k) = l.viol.as_ref().and_then(|v| matches(&kn, def.id, v)) {
            if shown.insert(k.what.clone()) {
                println!("KNOWN-FINDING: property={} {}", def.id, k.what);
            }
        }
    }
    let mut replay = None;
    if let Some(l) = bad {
        replay = Some(report(def, o, l.idx, l.viol.as_ref().unwrap()));
    }
    evidence(def, o, &lines, edges.len(), explored, runs, bad.is_some());
    match replay {
        Some(p) => {
            println!("VIOLATION property={} replay={}", def.id, p.display());
            1
        }
        None => {
            println!(
                "{}: {} runs, no violation ({:.1} s, {} distinct control-flow signatures)",
                def.id,
                lines.len(),
                explored,
                lines.iter().map(|l| l.edges).collect::<BTreeSet<_>>().len()
            );
            0
        }
    }
}

fn report(def: &Def, o: &Opts, idx: u64, v: &Viol) -> PathBuf {
    cov::init();
    let p = gen_plan(def, o.seed, idx);
    let budget = if o.tier == "thorough" { 180 } else { 75 };
    let (min, mv, tried) = minimise(def, &p, v, Duration::from_secs(budget));
    let dir = o.home.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", def.id, o.seed, idx));
    let out = run_one(def, &min).0.ok();
    let file = json!({
        "property": def.id,
        "seed": o.seed,
        "run": idx,
        "violation": mv,
        "minimised_from_bytes": p.to_string().len(),
        "minimised_to_bytes": min.to_string().len(),
        "candidates_tried": tried,
        "plan": min,
        "event_log": out.map(|x| x.log),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
    // replaying in a fresh process must reproduce it
    let ok = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("replay")
        .arg(&path)
        .stdout(std::process::Stdio::null())
        .status()
        .map(|s| s.code() == Some(1))
        .unwrap_or(false);
    println!("violated: {}: {}", mv.class, mv.detail);
    println!(
        "seed {} run {idx}; replayed in a fresh process: {}",
        o.seed,
        if ok { "reproduced" } else { "NOT reproduced" }
    );
    path
}

pub fn replay(defs: &[Def], path: &str) -> i32 {
    cov::init();
    let f: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let id = f["property"].as_str().unwrap_or("");
    let Some(def) = defs.iter().find(|d| d.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    match run_one(def, &f["plan"]).0 {
        Ok(out) => {
            for l in &out.log {
                println!("{l}");
            }
            match out.viol {
                Some(v) => {
                    println!("violated: {}: {}", v.class, v.detail);
                    println!("VIOLATION property={id} replay={path}");
                    let want: Option<Viol> = serde_json::from_value(f["violation"].clone()).ok();
                    if want.is_some_and(|w| w == v) {
                        println!("exactly as recorded");
                    }
                    1
                }
                None => {
                    println!("{id}: no violation");
                    0
                }
            }
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

// ------------------------------------------------------------------------------ minimisation

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(m) => m.get_mut(k)?,
            _ => return None,
        };
    }
    Some(c)
}

fn candidates(v: &Value) -> Vec<Value> {
    match v {
        Value::Bool(true) => vec![json!(false)],
        Value::Number(n) => {
            let mut c = vec![];
            if let Some(i) = n.as_i64() {
                if i != 0 {
                    c.push(json!(0));
                }
                if i != 1 && i != 0 {
                    c.push(json!(1));
                    c.push(json!(i / 2));
                    c.push(json!(i - i.signum()));
                }
            } else if let Some(u) = n.as_u64() {
                c.extend([json!(0), json!(1), json!(u / 2), json!(u - 1)]);
            } else if let Some(f) = n.as_f64() {
                if f != 0.0 {
                    c.push(json!(0.0));
                    if f != 1.0 {
                        c.push(json!(1.0));
                        if f.trunc() != f {
                            c.push(json!(f.trunc()));
                        }
                    }
                }
            }
            c.retain(|x| x != v);
            c
        }
        Value::String(s) if !s.is_empty() => {
            let ch: Vec<char> = s.chars().collect();
            let mut c = vec![json!("")];
            if ch.len() > 1 {
                c.push(json!(ch[..ch.len() / 2].iter().collect::<String>()));
                c.push(json!(ch[ch.len() / 2..].iter().collect::<String>()));
                if ch.len() < 12 {
                    for i in 0..ch.len() {
                        let t: String = ch.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| c).collect();
                        c.push(json!(t));
                    }
                }
            }
            c
        }
        Value::Object(_) => vec![Value::Null],
        _ => vec![],
    }
}

fn minimise(def: &Def, p: &Value, v: &Viol, limit: Duration) -> (Value, Viol, u64) {
    let t = Instant::now();
    let mut cur = p.clone();
    let mut cv = v.clone();
    let mut tried = 0;
    let mut seen = BTreeSet::new();
    // normalise (floats that are integers etc.) happens by value; keep the original if in doubt
    let mut test = |c: &Value, cv: &mut Viol| -> bool {
        if t.elapsed() > limit || !seen.insert(fnv(c.to_string().as_bytes())) {
            return false;
        }
        tried += 1;
        match run_one(def, c).0 {
            Ok(o) => match o.viol {
                Some(x) if x.class == cv.class => {
                    *cv = x;
                    true
                }
                _ => false,
            },
            Err(_) => false,
        }
    };
    loop {
        let before = cur.to_string();
        // arrays: remove chunks
        let mut ps = vec![];
        paths(&cur, &mut vec![], &mut ps);
        ps.sort_by_key(|q| q.len());
        for q in &ps {
            let Some(Value::Array(a)) = at(&mut cur, q).cloned() else {
                continue;
            };
            let mut n = a.len();
            let mut a = a;
            while n >= 1 && !a.is_empty() && t.elapsed() < limit {
                let mut i = 0;
                while i < a.len() {
                    let mut b = a.clone();
                    b.drain(i..(i + n).min(a.len()));
                    let mut c = cur.clone();
                    *at(&mut c, q).unwrap() = Value::Array(b.clone());
                    if test(&c, &mut cv) {
                        cur = c;
                        a = b;
                    } else {
                        i += n;
                    }
                }
                if n == 1 {
                    break;
                }
                n = n.div_ceil(2).min(a.len().max(1));
                if n > 1 && n >= a.len() {
                    n = a.len().div_ceil(2);
                }
            }
        }
        // scalars
        let mut ps = vec![];
        paths(&cur, &mut vec![], &mut ps);
        for q in &ps {
            if t.elapsed() > limit {
                break;
            }
            let Some(x) = at(&mut cur, q).cloned() else {
                continue;
            };
            for cand in candidates(&x) {
                let mut c = cur.clone();
                *at(&mut c, q).unwrap() = cand;
                if test(&c, &mut cv) {
                    cur = c;
                    break;
                }
            }
        }
        if cur.to_string() == before || t.elapsed() > limit {
            break;
        }
    }
    drop(test);
    (cur, cv, tried)
}

// ------------------------------------------------------------------------------ evidence

fn evidence(def: &Def, o: &Opts, lines: &[Line], edges: usize, explored: f64, planned: u64, violated: bool) {
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    for l in lines {
        for (k, n) in &l.fired {
            *fired.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &l.notes {
            *notes.entry(k.clone()).or_default() += n;
        }
    }
    let nontrivial: Vec<&Line> = lines.iter().filter(|l| !l.trivial).collect();
    let distinct: BTreeSet<u64> = nontrivial.iter().map(|l| l.trace_hash).collect();
    let signatures: BTreeSet<u64> = lines.iter().map(|l| l.edges).collect();
    let mut small: Vec<&&Line> = nontrivial.iter().collect();
    small.sort_by_key(|l| (l.size, l.idx));
    let mut samples = vec![];
    for l in small.iter().take(2).chain(small.get(small.len() / 2)) {
        let p = gen_plan(def, o.seed, l.idx);
        let t = p.to_string();
        samples.push(if t.len() < 6000 {
            json!({"run": l.idx, "plan": p})
        } else {
            json!({"run": l.idx, "plan_text_prefix": t.chars().take(4000).collect::<String>(), "plan_bytes": t.len()})
        });
    }
    let per_hour = |n: u64| (n as f64 / explored.max(1e-3) * 3600.0).round();
    let ev = json!({
        "property": def.id,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": def.level,
        "coverage": {
            "evaluations": lines.len(),
            "distinct_nontrivial": distinct.len(),
            "rule": format!("{} Distinct: different order of the library's control-flow edges over the whole run (hash of the executed edge sequence, threads in scheduled order).", def.rule),
            "samples": samples,
            "runs_planned": planned,
            "simulated_runs_per_hour": per_hour(lines.len() as u64),
            "seeds_per_hour": per_hour(lines.len() as u64),
            "simulated_processes": lines.iter().map(|l| l.incarnations).sum::<u64>(),
            "simulated_seconds_covered": lines.iter().map(|l| l.sim_s).sum::<f64>().round(),
            "library_edges_executed": lines.iter().map(|l| l.steps).sum::<u64>(),
            "library_edges_reached": edges,
            "library_edges_total": cov::guards(),
            "distinct_edge_count_signatures": signatures.len(),
            "distinct_plans": lines.iter().map(|l| l.plan_hash).collect::<BTreeSet<_>>().len(),
            "faults_injected": fired,
            "counts": notes,
            "runs_executed_twice_to_check_determinism": lines.iter().filter(|l| l.checked_again).count(),
            "runs_that_differed_when_repeated": lines.iter().filter(|l| l.differed).count(),
            "components_real": def.real,
            "components_stubbed": def.stub,
        },
        "assumptions": def.assumptions,
        "wall_s": (o.t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": if violated { 1 } else { 0 },
    });
    let dir = o.home.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", def.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .unwrap();
}
