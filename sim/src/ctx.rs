//! What an execution reports besides its verdict.

use crate::inst::{Obs, Viol};
use crate::rng::Digest;
use std::collections::BTreeMap;

pub type Res = Result<(), Viol>;

pub struct Ctx {
    /// comparisons made
    pub checks: u64,
    /// comparisons left out because rounding decides them
    pub skips: u64,
    pub n: BTreeMap<String, u64>,
    /// digest of everything observed
    pub dig: Digest,
    /// digest of the interleavings
    pub trace: Digest,
    pub sim_ms: f64,
    pub frames: u64,
    pub nontrivial: bool,
    pub threaded: bool,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            checks: 0,
            skips: 0,
            n: BTreeMap::new(),
            dig: Digest::new(),
            trace: Digest::new(),
            sim_ms: 0.0,
            frames: 0,
            nontrivial: false,
            threaded: false,
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.n.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn see(&mut self, o: &Obs) {
        o.digest(&mut self.dig);
        self.checks += 1;
    }
    pub fn merge(&mut self, o: Ctx) {
        self.checks += o.checks;
        self.skips += o.skips;
        for (k, v) in o.n {
            *self.n.entry(k).or_insert(0) += v;
        }
        self.dig.add(o.dig.0);
        self.sim_ms += o.sim_ms;
        self.frames += o.frames;
        self.nontrivial |= o.nontrivial;
    }
    pub fn report(&mut self, r: &crate::sched::Report) {
        self.threaded = true;
        self.trace.add(r.trace);
        self.count("preemptions", r.switches);
        self.count("preemptions_inside_a_call", r.mid_call_switches);
        self.count("preemptions_between_instructions", r.step_switches);
        self.count("crashes", r.crashes);
        self.count("schedule_points", r.points - r.start);
        self.count("blocked_on_foreign_locks", r.foreign_blocks);
    }
}
