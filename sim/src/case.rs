//! What a run is made of, and what it gives.

use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::rng::Rng;
use crate::sim::Sched;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prop: String,
    pub scen: String,
    pub seed: u64,
    pub sched: Sched,
    /// How often a kind of fault may happen; absent is unlimited
    #[serde(default)]
    pub limits: BTreeMap<String, u64>,
    pub cfg: Value,
    pub ops: Vec<Value>,
}

impl Case {
    pub fn cfg<T: DeserializeOwned>(&self) -> T {
        serde_json::from_value(self.cfg.clone()).expect("harness: cfg")
    }
    pub fn ops<T: DeserializeOwned>(&self) -> Vec<T> {
        self.ops
            .iter()
            .map(|o| serde_json::from_value(o.clone()).expect("harness: op"))
            .collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// What is broken, without values: minimisation keeps it
    pub kind: String,
    pub msg: String,
}

pub type Res = Result<(), Viol>;

pub fn viol<T>(kind: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        kind: kind.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::case::viol($kind, format!($($arg)*));
        }
    };
}

pub type RunFut = Pin<Box<dyn Future<Output = Res>>>;

pub struct Scen {
    pub name: &'static str,
    pub weight: u32,
    pub gen: fn(&mut Rng) -> (Value, Vec<Value>),
    pub run: fn(Rc<Case>) -> RunFut,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    /// Probes that have to be seen in a healthy exploration
    pub reach: &'static [&'static str],
    pub scens: Vec<Scen>,
}

#[macro_export]
macro_rules! scen {
    ($name:literal, $weight:literal, $gen:path, $run:path) => {
        $crate::case::Scen {
            name: $name,
            weight: $weight,
            gen: |r| {
                let (c, o) = $gen(r);
                (
                    serde_json::to_value(c).unwrap(),
                    o.into_iter()
                        .map(|o| serde_json::to_value(o).unwrap())
                        .collect(),
                )
            },
            run: |c| Box::pin($run(c)),
        }
    };
}

pub fn make_case(p: &Prop, base_seed: u64, index: u64) -> Case {
    let seed = crate::rng::mix(
        crate::rng::hash_bytes(p.id.as_bytes())
            ^ crate::rng::mix(base_seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(index)),
    );
    let mut r = Rng::stream(seed, "case");
    let w: Vec<u32> = p.scens.iter().map(|s| s.weight).collect();
    let s = &p.scens[r.weighted(&w)];
    let sched = Sched::random(&mut r);
    let (cfg, ops) = (s.gen)(&mut r);
    Case {
        prop: p.id.into(),
        scen: s.name.into(),
        seed,
        sched,
        limits: BTreeMap::new(),
        cfg,
        ops,
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub viol: Option<Viol>,
    pub harness: Option<String>,
    pub hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    #[serde(default)]
    pub trace: Vec<String>,
}
