//! What a simulated case is, what running one yields, and what is counted.

use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashSet};

/// Where the scheduler's decisions come from.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sched {
    /// Strategy and choices drawn from this seed.
    Seed(u64),
    /// Recorded decisions (scheduling step, thread that goes on), one list per simulator run.
    Decisions(Vec<Vec<(u64, u8)>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub property: String,
    pub scenario: Value,
    pub sched: Sched,
    /// Seed of the clock jumps; none without.
    #[serde(default)]
    pub clock: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// Kind of violation; minimisation keeps it.
    pub class: String,
    pub message: String,
    /// Names the known finding this is an instance of, if it has the shape of one.
    pub finding: Option<String>,
}

impl Violation {
    pub fn new(class: &str, message: impl Into<String>) -> Self {
        let mut message: String = message.into();
        if message.len() > 4000 {
            let cut = (0..=4000).rev().find(|i| message.is_char_boundary(*i)).unwrap_or(0);
            message.truncate(cut);
            message.push_str("...");
        }
        Violation { class: class.into(), message, finding: None }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violation: Option<Violation>,
    /// A deviation that is the business of another property.
    pub off_topic: Option<String>,
    /// Hash of everything observed.
    pub hash: u64,
    pub decisions: Vec<Vec<(u64, u8)>>,
    pub trace: Vec<String>,
    /// Threads are stuck in this process: it has to be replaced.
    pub tainted: bool,
}

#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub steps: u64,
    #[serde(default)]
    pub simulated_ns: u128,
    pub counts: BTreeMap<String, u64>,
    /// Distinct non-trivial executions.
    pub seen: HashSet<u64>,
    /// Distinct schedules of runs with at least one preemption or blocking.
    pub schedules: HashSet<u64>,
    pub findings: BTreeMap<String, u64>,
    pub edges_hit: u64,
    pub edges: u64,
    pub harness_errors: u64,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            match self.counts.get_mut(k) {
                Some(c) => *c += n,
                None => {
                    self.counts.insert(k.to_string(), n);
                }
            }
        }
    }

    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.steps += o.steps;
        self.simulated_ns += o.simulated_ns;
        self.harness_errors += o.harness_errors;
        for (k, n) in o.counts {
            *self.counts.entry(k).or_default() += n;
        }
        for (k, n) in o.findings {
            *self.findings.entry(k).or_default() += n;
        }
        self.seen.extend(o.seen);
        self.schedules.extend(o.schedules);
        self.edges_hit = self.edges_hit.max(o.edges_hit);
        self.edges = self.edges.max(o.edges);
    }
}

pub fn hash_str(h: u64, s: &str) -> u64 {
    let mut h = simrt::rng::mix(h ^ 0x9e37);
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    simrt::rng::mix(h)
}

pub struct Budget {
    pub runs: u64,
    pub seconds: u64,
}

pub struct Info {
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

/// A family of scenarios.
pub trait Family {
    fn generate(&self, property: &str, rng: &mut simrt::rng::Rng) -> Value;
    /// Err: the scenario is not well-formed.
    fn execute(&self, case: &Case, stats: &mut Stats) -> Result<Outcome, String>;
    fn budget(&self, property: &str, thorough: bool) -> Budget;
    fn info(&self, property: &str) -> Info;
    /// Called in a worker before its first case.
    fn prepare(&self) {}
}
