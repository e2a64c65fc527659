//! Evidence and violation reports.
use crate::engine::*;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

pub struct Report {
    pub property: String,
    pub tier: String,
    pub start: Instant,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<Value>,
    pub details: serde_json::Map<String, Value>,
    pub assumptions: Vec<String>,
    pub violation: Option<(String, Vec<String>)>,
}

fn root() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
static CURRENT: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn hang(scenario: &str, path: Vec<String>) -> ! {
    let (p, tier) = CURRENT.lock().unwrap().clone().unwrap_or_default();
    let mut r = Report::new(&p, &tier);
    r.violation = Some((format!("[{scenario}] an operation does not come to an end"), path));
    r.finish()
}

impl Report {
    pub fn new(property: &str, tier: &str) -> Report {
        *CURRENT.lock().unwrap() = Some((property.into(), tier.into()));
        Report {
            property: property.into(),
            tier: tier.into(),
            start: Instant::now(),
            states: 0,
            transitions: 0,
            traces: 0,
            samples: vec![],
            details: Default::default(),
            assumptions: vec![],
            violation: None,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// explores a scenario unless a violation has already been found
    pub fn run(&mut self, sc: Scenario, check: &dyn Check) {
        if self.violation.is_some() {
            return;
        }
        let t = Instant::now();
        let ex = explore(&sc, check);
        self.states += ex.states;
        self.transitions += ex.transitions;
        // every transition was executed by the contract itself and compared with the model;
        // a trace is a history explored to its end
        self.traces += ex.leaves;
        let o: serde_json::Map<String, Value> =
            ex.outcomes.iter().map(|(k, v)| (k.to_string(), json!({"ok": v[0], "refused": v[1]}))).collect();
        let c: serde_json::Map<String, Value> = ex.tally.n.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
        eprintln!(
            "[{}] {:>8.1?} depth {} states {} transitions {} levels {:?} pruned {} {:?} {:?}",
            sc.name,
            t.elapsed(),
            ex.depth,
            ex.states,
            ex.transitions,
            ex.levels,
            ex.pruned,
            ex.outcomes,
            ex.tally.n
        );
        self.details.insert(
            sc.name.clone(),
            json!({"depth": ex.depth, "states": ex.states, "transitions": ex.transitions, "states_per_level": ex.levels,
                   "outcomes": o, "checks": c, "pruned_because_another_property_is_broken": ex.pruned}),
        );
        if self.samples.len() < 4 && !ex.sample.is_empty() {
            self.samples.push(json!({"scenario": sc.name, "trace": ex.sample}));
        }
        if let Some(v) = ex.violation {
            self.violation = Some((format!("[{}] {}", v.scenario, v.what), v.path));
        }
    }
    pub fn fail(&mut self, what: String) {
        if self.violation.is_none() {
            self.violation = Some((what, vec![]));
        }
    }
    pub fn finish(self) -> ! {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = json!({
            "property": self.property,
            "tier": self.tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples,
                "exhaustive": self.violation.is_none(),
                "scenarios": self.details,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": if self.violation.is_some() { 1 } else { 0 },
        });
        let f = dir.join(format!("{}.json", self.property));
        std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        match self.violation {
            None => {
                println!(
                    "property {} held: {} states, {} transitions, {:.1} s",
                    self.property,
                    self.states,
                    self.transitions,
                    self.start.elapsed().as_secs_f64()
                );
                std::process::exit(0)
            }
            Some((what, path)) => {
                let rd = dir.join("replay");
                let _ = std::fs::create_dir_all(&rd);
                let rf = rd.join(format!("{}.txt", self.property));
                let text = format!("property {}\n{}\n\n{}\n", self.property, what, path.join("\n"));
                std::fs::write(&rf, &text).expect("replay");
                println!("{text}");
                println!("VIOLATION property={} replay={}", self.property, rf.display());
                std::process::exit(1)
            }
        }
    }
}
