//! What a run is: a plan (pure data), a context recording what happened, and the verdict.
use crate::json::J;
use crate::prng::{hash_str, mix2};
use crate::snap::{Diff, K};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Step { pub op: String, pub seed: u64 }

/// A run is a function of this alone.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub size: u64,
    pub steps: Vec<Step>,
    pub prelude: Vec<u64>, // run numbers executed earlier in the same process, if they matter
    pub master: u64,
}
impl Plan {
    pub fn to_json(&self) -> J {
        J::obj().with("property", J::s(&self.prop)).with("master_seed", J::s(&self.master.to_string())).with("seed", J::s(&self.seed.to_string())).with("size", J::i(self.size))
            .with("prelude", J::Arr(self.prelude.iter().map(|x| J::i(*x)).collect()))
            .with("steps", J::Arr(self.steps.iter().map(|s| J::Arr(vec![J::s(&s.op), J::s(&s.seed.to_string())])).collect()))
    }
    pub fn from_json(j: &J) -> Plan {
        Plan {
            prop: j.get("property").str().to_string(), seed: j.get("seed").str().parse().unwrap_or(0), size: j.get("size").int() as u64, master: j.get("master_seed").str().parse().unwrap_or(0),
            prelude: j.get("prelude").arr().iter().map(|x| x.int() as u64).collect(),
            steps: j.get("steps").arr().iter().map(|s| Step { op: s.arr()[0].str().to_string(), seed: s.arr()[1].str().parse().unwrap_or(0) }).collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol { pub class: String, pub msg: String, pub step: usize }

/// Everything a run records. Drawing from it or writing to it never influences the run.
#[derive(Default)]
pub struct Cx {
    pub prop: String,
    pub step: usize,
    pub viols: Vec<Viol>,
    pub diverted: Option<String>,
    pub log: Vec<String>,
    pub verbose: bool,
    pub trace: u64,
    pub stats: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub sim_ns: i128,
}
impl Cx {
    pub fn new(prop: &str) -> Cx { Cx { prop: prop.to_string(), ..Default::default() } }
    /// An event of the run: part of the execution's identity.
    pub fn ev(&mut self, s: &str) {
        self.trace = mix2(self.trace, hash_str(s));
        self.note(s);
    }
    /// Shown where the log is kept; not part of the execution's identity.
    pub fn note(&mut self, s: &str) {
        if !self.verbose { return; }
        let mut s = s.to_string(); if s.len() > 1500 && std::env::var_os("FOLIA_SIM_FULL").is_none() { let mut n = 1500; while !s.is_char_boundary(n) { n -= 1; } s.truncate(n); s.push('…'); } self.log.push(format!("[{}] {}", self.step, s));
    }
    pub fn count(&mut self, k: &str) { *self.stats.entry(k.to_string()).or_insert(0) += 1; }
    pub fn add(&mut self, k: &str, n: u64) { *self.stats.entry(k.to_string()).or_insert(0) += n; }
    pub fn state(&mut self, h: u64) { if self.states.len() < 4096 { self.states.insert(h); } }
    pub fn stopped(&self) -> bool { !self.viols.is_empty() || self.diverted.is_some() }
    /// Something is wrong that bears on the given properties.
    pub fn fail(&mut self, tags: &[&str], class: &str, msg: String) {
        self.ev(&format!("VIOLATED {:?} {}: {}", tags, class, msg));
        if tags.contains(&self.prop.as_str()) || tags.contains(&"*") { let step = self.step; self.viols.push(Viol { class: class.to_string(), msg, step }); }
        else if self.diverted.is_none() { self.diverted = Some(format!("{}: {}", class, msg)); }
    }
    pub fn diffs(&mut self, v: &[Diff], sit: Sit) -> bool {
        for d in v { self.fail(&tags(d.k, sit), &format!("{:?}:{:?}", sit, d.k), d.msg.clone()); }
        !v.is_empty()
    }
}

/// The situation in which a document was found not to be as it should be.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sit { Load, Reload, Tree, Span, Proc, Decl, Meta, Refused, Save, Read, Touch }

pub fn tags(k: K, s: Sit) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = match k {
        K::Tree => vec![],
        K::Id | K::Index => vec!["C06"],
        K::Attr | K::Text | K::Comment | K::DocId => vec!["C01"],
        K::Set | K::Class | K::Subset => vec!["C10"],
        K::AttrTime => vec!["C01", "C14"],
        K::Proc | K::Prov => vec!["C11"],
        K::Annot => vec!["C11", "C08"],
        K::ProvTime => vec!["C14", "C11"],
        K::ProvMeta => vec!["C11", "C16"],
        K::Decl => vec!["C10"],
        K::DeclProc => vec!["C11"],
        K::Meta | K::SubMeta => vec!["C16"],
        K::SpanRef => vec!["C15"],
    };
    match s {
        Sit::Load => if matches!(k, K::Tree | K::Id) { v.push("C01") },
        Sit::Reload => { if !v.contains(&"C01") { v.push("C01"); } }
        Sit::Tree => { v.push("C06"); }
        Sit::Span => { v.push("C06"); v.push("C15"); }
        Sit::Proc => v.push("C11"),
        Sit::Decl => v.push("C10"),
        Sit::Meta => v.push("C16"),
        Sit::Refused => { v = vec!["C07"]; if matches!(k, K::Tree | K::Id | K::Index) { v.push("C06"); } }
        Sit::Save => v = vec!["C13"],
        Sit::Touch => if !v.contains(&"C01") { v.push("C01"); },
        Sit::Read => v = vec!["C08"],
    }
    v
}
