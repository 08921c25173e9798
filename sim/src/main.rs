mod common;
#[cfg(feature = "extra")]
mod extra;
#[cfg(not(feature = "extra"))]
mod extra_off;
mod mapeng;
mod ops;
mod plan;
mod queueeng;
mod ringeng;

use simcore::case::Case;
use simcore::rng::Rng;
use simcore::runner::{self, Engine, Plan, RunStats, Violation};

struct Sim;

impl Engine for Sim {
    fn op_names(&self) -> &'static [&'static str] {
        ops::NAMES
    }
    fn plan(&self, prop: &str, thorough: bool) -> Option<Plan> {
        plan::plan(prop, thorough)
    }
    fn generate(&self, prop: &str, seed: u64, _thorough: bool) -> Case {
        let mut c = Case { prop: prop.to_string(), seed, params: vec![], ops: vec![] };
        let mut rng = Rng::new(seed);
        let engine = match prop {
            "P07" | "P08" | "P09" | "P10" | "P11" => 1,
            "P12" | "P13" | "P14" | "P15" | "P16" | "P17" | "P18" | "P21" => i64::from(rng.chance(500)),
            "P19" | "P20" => 2,
            _ => 0,
        };
        match engine {
            0 => mapeng::generate(prop, &mut rng, &mut c),
            2 => ringeng::generate(prop, &mut rng, &mut c),
            _ => queueeng::generate(prop, &mut rng, &mut c),
        }
        c
    }
    fn run(&self, case: &Case, st: &mut RunStats) -> Result<(), Violation> {
        match case.p("eng") {
            0 => mapeng::run(case, st),
            2 => ringeng::run(case, st),
            _ => queueeng::run(case, st),
        }
    }
    fn simpler(&self, case: &Case) -> Vec<Case> {
        common::simpler(case)
    }
}

static SIM: Sim = Sim;

fn main() {
    runner::main(&SIM)
}
