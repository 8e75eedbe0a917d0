//! Evidence, verdicts and known findings shared by every check.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::time::Instant;

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub struct Report {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub rule: String,
    pub evaluations: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<Value>,
    pub classes: BTreeMap<String, u64>,
    pub assumptions: Vec<String>,
    pub extra: BTreeMap<String, Value>,
    known: Vec<Value>,
    known_hit: HashSet<String>,
    start: Instant,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Report {
    /// Usage: <bin> <ID> <quick|thorough> [replay FILE]
    pub fn new(property: &str, rule: &str) -> Report {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let tier = std::env::args().nth(2).unwrap_or_else(|| "quick".into());
        let known = std::fs::read_to_string(verif_dir().join("known_findings.json"))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .and_then(|v| v.get("known").and_then(|k| k.as_array().cloned()))
            .unwrap_or_default()
            .into_iter()
            .filter(|k| k.get("property").and_then(|p| p.as_str()) == Some(property))
            .collect();
        Report {
            property: property.into(),
            tier,
            seed,
            rule: rule.into(),
            evaluations: 0,
            nontrivial: HashSet::new(),
            samples: vec![],
            classes: BTreeMap::new(),
            assumptions: vec![],
            extra: BTreeMap::new(),
            known,
            known_hit: HashSet::new(),
            start: Instant::now(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// choose a work size by tier
    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let b = if self.thorough() { thorough } else { quick };
        ((b as f64 * scale) as u32).max(1)
    }
    pub fn class(&mut self, c: &str) {
        *self.classes.entry(c.to_string()).or_insert(0) += 1;
    }
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn nontrivial<T: Hash>(&mut self, key: &T, sample: impl FnOnce() -> Value) {
        let fresh = self.nontrivial.insert(h64(key));
        // a few samples spread over the run (1st, 2nd, 4th, 8th, ... distinct case)
        if fresh && self.samples.len() < 14 && self.nontrivial.len().is_power_of_two() {
            self.samples.push(sample());
        }
    }
    pub fn nontrivial_count(&self) -> usize {
        self.nontrivial.len()
    }
    /// True (and prints the line once) when `sig` is a listed known finding.
    pub fn known(&mut self, sig: &str) -> bool {
        let hit = self.known.iter().find(|k| k.get("signature").and_then(|s| s.as_str()) == Some(sig)).cloned();
        if let Some(k) = hit {
            if self.known_hit.insert(sig.to_string()) {
                println!(
                    "KNOWN-FINDING: property={} {}",
                    self.property,
                    k.get("what").and_then(|w| w.as_str()).unwrap_or(sig)
                );
            }
            true
        } else {
            false
        }
    }
    pub fn write(&self, violations: Vec<Value>) {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let mut cov = json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.nontrivial.len(),
            "rule": self.rule,
            "samples": self.samples,
            "classes": self.classes,
        });
        for (k, v) in &self.extra {
            cov[k] = v.clone();
        }
        let v = json!({
            "property": self.property,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "violations": violations,
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(dir.join(format!("{}.json", self.property)), serde_json::to_string_pretty(&v).unwrap())
            .expect("write evidence");
    }
    pub fn violation(&self, what: &str, replay: Value) -> ! {
        let path = write_replay(&self.property, self.seed, what, &replay);
        self.write(vec![json!({"what": what, "replay": path})]);
        println!("{}: {}", self.property, what);
        println!("VIOLATION property={} replay={}", self.property, path);
        flush();
        std::process::exit(1)
    }
    pub fn finish(&self) -> ! {
        if self.evaluations == 0 || self.nontrivial.is_empty() {
            eprintln!("{}: vacuous run ({} evaluations)", self.property, self.evaluations);
            std::process::exit(3);
        }
        self.write(vec![]);
        println!(
            "{} held: {} evaluations, {} distinct non-trivial, {:.1}s",
            self.property,
            self.evaluations,
            self.nontrivial.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in &self.classes {
            println!("   class {k}: {v}");
        }
        flush();
        std::process::exit(0)
    }
}

pub fn flush() {
    use std::io::Write;
    let _ = std::io::stdout().flush();
}

pub fn write_replay(property: &str, seed: u64, what: &str, replay: &Value) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": property, "seed": seed, "what": what, "case": replay});
    let path = dir.join(format!("{}-seed{}-{:08x}.json", property, seed, h64(&body.to_string()) as u32));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path.to_string_lossy().into_owned()
}
