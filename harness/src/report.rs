//! Evidence, replays and known findings.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::time::Instant;

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub evaluations: usize,
    pub distinct: HashSet<u64>,
    pub rule: String,
    pub samples: Vec<String>,
    pub extra: serde_json::Map<String, Value>,
    pub assumptions: Vec<String>,
}

#[derive(Debug)]
pub struct Violation {
    pub why: String,
    /// everything needed to run it again
    pub replay: Value,
}

pub enum Stop {
    Violation(Violation),
    /// The check itself could not work.
    Tool(String),
}

impl From<String> for Stop {
    fn from(s: String) -> Self {
        Stop::Tool(s)
    }
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64) -> Self {
        Ctx {
            id: id.into(),
            thorough,
            seed,
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            rule: String::new(),
            samples: vec![],
            extra: serde_json::Map::new(),
            assumptions: vec![],
        }
    }
    pub fn seen(&mut self, text: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            text.hash(&mut h);
            let fresh = self.distinct.insert(h.finish());
            // samples from all over the run, not only its start
            let n = self.distinct.len();
            if fresh && (n.is_power_of_two() || self.samples.len() < 2) {
                self.sample(text);
            }
        }
    }
    pub fn sample(&mut self, text: &str) {
        let mut s: String = text.chars().take(1500).collect();
        if s.len() < text.len() {
            s.push_str(" ...");
        }
        if self.samples.len() >= 6 {
            self.samples.remove(1);
        }
        self.samples.push(s);
    }
    pub fn write(&self, violations: usize) -> Result<(), String> {
        let dir = crate::run::root().join("evidence");
        fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let mut coverage = json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples,
        });
        coverage
            .as_object_mut()
            .unwrap()
            .extend(self.extra.clone());
        let v = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 10.0).round() / 10.0,
            "violations": violations,
        });
        fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&v).unwrap(),
        )
        .map_err(|e| e.to_string())
    }
    pub fn save(&self, v: &Violation) -> Result<String, String> {
        let dir = crate::run::root().join("replays");
        fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let path = dir.join(format!("{}-{}.json", self.id, self.seed));
        let mut r = v.replay.clone();
        let o = r.as_object_mut().expect("replay is an object");
        o.insert("property".into(), json!(self.id));
        o.insert("seed".into(), json!(self.seed));
        o.insert("why".into(), json!(v.why));
        fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).map_err(|e| e.to_string())?;
        Ok(path.display().to_string())
    }
}

/// `known: property=<id> signature=<text in the message>` lines.
pub fn known(id: &str) -> Vec<String> {
    let text = fs::read_to_string(crate::run::root().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.strip_prefix(id))
        .filter_map(|l| l.split_once("signature=").map(|(_, s)| s.trim().to_string()))
        .collect()
}
