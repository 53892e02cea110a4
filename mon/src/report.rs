//! Verdicts, counters and evidence of one check run.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Fail {
    /// The oracle observed a violation (signature for known findings, message).
    Violation(String, String),
    /// Something took implausibly long: retried with more patience before it counts.
    Suspect(String),
    /// The environment got in the way; no verdict.
    Inconclusive(String),
}
impl Fail {
    pub fn v(sig: &str, msg: String) -> Fail {
        Fail::Violation(sig.to_string(), msg)
    }
}
#[macro_export]
macro_rules! viol {
    ($sig:expr, $($a:tt)*) => { return Err($crate::report::Fail::v($sig, format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return Err($crate::report::Fail::v($sig, format!($($a)*))) } };
}

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    counters: Mutex<BTreeMap<String, u64>>,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<Value>>,
    evals: AtomicU64,
    pub violations: Mutex<Vec<(String, String, PathBuf)>>,
    pub known_hit: Mutex<BTreeMap<String, u64>>,
}

impl Report {
    pub fn new(prop: &str, tier: &str, seed: u64) -> Report {
        Report {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            start: Instant::now(),
            counters: Default::default(),
            distinct: Default::default(),
            samples: Default::default(),
            evals: AtomicU64::new(0),
            violations: Default::default(),
            known_hit: Default::default(),
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.into()).or_insert(0) += n;
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(k.into()).or_insert(0);
        *e = (*e).max(n);
    }
    /// n oracle decisions (histories, positions, replies judged).
    pub fn eval(&self, n: u64) {
        self.evals.fetch_add(n, Relaxed);
    }
    pub fn evals(&self) -> u64 {
        self.evals.load(Relaxed)
    }
    pub fn distinct(&self, h: u64) {
        let mut d = self.distinct.lock().unwrap();
        if d.len() < 4_000_000 {
            d.insert(h);
        }
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn write_evidence(&self, rule: &str, level: &str, assumptions: &[&str], root: &str) {
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(self.evals()));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.lock().unwrap().len()));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        let mut obs = Map::new();
        for (k, v) in self.counters.lock().unwrap().iter() {
            obs.insert(k.clone(), json!(v));
        }
        cov.insert("observed".into(), Value::Object(obs));
        let v = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": assumptions, "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.lock().unwrap().len(),
        });
        let dir = format!("{}/evidence", root);
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(format!("{}/{}.json", dir, self.prop), serde_json::to_string_pretty(&v).unwrap());
    }
    pub fn counters(&self) -> BTreeMap<String, u64> {
        self.counters.lock().unwrap().clone()
    }
    pub fn n_distinct(&self) -> usize {
        self.distinct.lock().unwrap().len()
    }
}
