//! What a simulated process did before it comes to the model a check is about: it has handled
//! another model (loaded, rendered, queried, edited it, or built one), which may still be there.
//! Nothing of that may show in what the process does afterwards.

use crate::docgen;
use crate::rng::Rng;
use crate::world::{self, World};
use crate::worldchecks::report;
use ifc_rs::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub enum Tenant {
    Doc { text: String, keep: bool },
    World(World),
}

impl Tenant {
    /// `files`: what is or was on the disk of the machine
    pub fn gen(seed: u64, files: &[&[u8]]) -> Self {
        let mut r = Rng::new(seed);
        if !files.is_empty() && r.chance(55) {
            // another version of a model of this machine
            if let Ok(t) = std::str::from_utf8(files[r.below(files.len())]) {
                return Tenant::Doc { text: version(&mut r, t), keep: r.chance(50) };
            }
        }
        if r.chance(75) {
            let n = 2 + r.below(10);
            let idx = r.below(1000) as u64;
            let k = docgen::kinds(&mut r, idx, n);
            let foreign = r.chance(50);
            let mut d = docgen::doc(&mut r, &k, foreign);
            d.sanitize();
            Tenant::Doc { text: d.render(), keep: r.chance(50) }
        } else {
            let mut w = world::gen(&mut r, 4);
            world::sanitize(&mut w);
            Tenant::World(w)
        }
    }

    /// in the simulated process; what the other model may do wrong is the business of other runs
    pub fn stay(&self) -> Option<IfcExtractor> {
        let r = catch_unwind(AssertUnwindSafe(|| match self {
            Tenant::Doc { text, keep } => {
                let mut i = text.parse::<IFC>().ok()?;
                let t = i.to_string();
                let n = i.data.insert_new(Point3D::from(bevy_math::DVec3::ZERO));
                i.data.get_mut(n);
                i.data.remove(n.id());
                let x = IfcExtractor::from(i);
                for id in crate::snap::ids_in(&t) {
                    let id = Id(id as usize);
                    if x.data.contains(&id) {
                        let o = x.data.get_untyped(id);
                        let _ = (o.to_string(), o.verify_id_types(&x).is_ok());
                    }
                }
                let _ = report(&x);
                keep.then_some(x)
            }
            Tenant::World(w) => {
                world::build(w);
                None
            }
        }));
        r.ok().flatten()
    }
}

/// the model with some records exchanged for others of the same kind, and some gone
fn version(r: &mut Rng, text: &str) -> String {
    let mut lines: Vec<String> = text.lines().map(str::to_string).collect();
    let key = |l: &str| -> Option<(usize, String)> {
        let at = l.find('=')?;
        let id = &l[..at];
        (id.starts_with('#') && id[1..].trim().bytes().all(|b| b.is_ascii_digit()) && l.trim_end().ends_with(");"))
            .then(|| (at, l[at + 1..].split('(').next().unwrap_or("").trim().to_string()))
    };
    let recs: Vec<(usize, usize, String)> =
        lines.iter().enumerate().filter_map(|(i, l)| key(l).map(|(at, k)| (i, at, k))).collect();
    if recs.is_empty() {
        return text.to_string();
    }
    let mut kinds: std::collections::BTreeMap<&str, Vec<(usize, usize)>> = Default::default();
    for (i, at, k) in &recs {
        kinds.entry(k).or_default().push((*i, *at));
    }
    let kinds: Vec<_> = kinds.into_values().filter(|v| v.len() > 1).collect();
    for _ in 0..*r.pick(&[0usize, 1, 1, 2, 4, 8, 16]) {
        if kinds.is_empty() {
            break;
        }
        let of: &Vec<(usize, usize)> = r.pick(&kinds);
        let ((a, at), (b, bt)) = (*r.pick(of), *r.pick(of));
        if a == b {
            continue;
        }
        let (x, y) = (lines[a][at..].to_string(), lines[b][bt..].to_string());
        if r.chance(50) {
            lines[a].replace_range(at.., &y);
            lines[b].replace_range(bt.., &x);
            continue;
        }
        // what leads to one of them leads to the other
        let (p, q) = (lines[a][..at].trim().to_string(), lines[b][..bt].trim().to_string());
        let leads: Vec<usize> = recs.iter().filter(|(i, at, _)| holds(&lines[*i][*at..], &p)).map(|(i, ..)| *i).collect();
        let only = (!leads.is_empty() && r.chance(50)).then(|| *r.pick(&leads));
        for (i, at, _) in &recs {
            if only.is_none_or(|o| o == *i) {
                let body = exchange(&lines[*i][*at..], &p, &q);
                lines[*i].replace_range(*at.., &body);
            }
        }
    }
    if r.chance(15) {
        let (a, ..) = r.pick(&recs).clone();
        lines.remove(a);
    }
    lines.join("\n") + "\n"
}

/// the references in the text, in order, and what is between them
fn pieces(text: &str) -> Vec<&str> {
    let mut out = vec![];
    let (mut from, b) = (0, text.as_bytes());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'#' {
            let n = b[i + 1..].iter().take_while(|c| c.is_ascii_digit()).count();
            out.push(&text[from..i]);
            out.push(&text[i..i + 1 + n]);
            i += 1 + n;
            from = i;
        } else {
            i += 1;
        }
    }
    out.push(&text[from..]);
    out
}

fn holds(text: &str, id: &str) -> bool {
    pieces(text).contains(&id)
}

fn exchange(text: &str, p: &str, q: &str) -> String {
    let f = |s: &str| if s == p { q.to_string() } else if s == q { p.to_string() } else { s.to_string() };
    pieces(text).into_iter().map(f).collect()
}
