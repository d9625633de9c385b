//! Verdicts, known findings and evidence files.
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::time::Instant;

use serde_json::{Map, Value, json};

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("SAILMC_VERIF").unwrap_or_else(|_| "/verif".to_string()))
}

pub struct Report {
    pub property: String,
    pub tier: String,
    pub level: String,
    start: Instant,
    known: BTreeMap<String, String>,
    hit_known: BTreeSet<String>,
    violations: Vec<(String, String)>,
    seen: BTreeSet<String>,
    pub coverage: Map<String, Value>,
    samples: Vec<Value>,
    tally: BTreeMap<String, u64>,
}

impl Report {
    pub fn new(property: &str, level: &str) -> Self {
        let tier = if thorough() { "thorough" } else { "quick" };
        let mut known = BTreeMap::new();
        let path = verif_dir().join("KNOWN_FINDINGS");
        for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
            // finding: property=<id> key=<key> :: <what fails>
            let Some(rest) = line.strip_prefix("finding: property=") else { continue };
            let Some((id, rest)) = rest.split_once(" key=") else { continue };
            if id != property {
                continue;
            }
            let (key, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
            known.insert(key.trim().to_string(), what.to_string());
        }
        Self {
            property: property.to_string(),
            tier: tier.to_string(),
            level: level.to_string(),
            start: Instant::now(),
            known,
            hit_known: BTreeSet::new(),
            violations: vec![],
            seen: BTreeSet::new(),
            coverage: Map::new(),
            samples: vec![],
            tally: BTreeMap::new(),
        }
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Report a failing case. `key` identifies the specific failure for the
    /// known-findings file. Returns true if it is a new (unlisted) violation.
    pub fn fail(&mut self, key: &str, what: &str, replay: Value) -> bool {
        if self.known.contains_key(key) {
            self.hit_known.insert(key.to_string());
            return false;
        }
        if !self.seen.insert(key.to_string()) {
            return true;
        }
        let dir = verif_dir().join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}-{}.json", self.property, self.violations.len()));
        let doc = json!({"property": self.property, "key": key, "what": what, "replay": replay});
        let _ = std::fs::write(&file, serde_json::to_vec_pretty(&doc).unwrap_or_default());
        if self.violations.len() < 60 {
            println!("FAIL [{}] key={key} {what}", self.property);
        }
        self.violations.push((key.to_string(), file.display().to_string()));
        true
    }

    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }

    pub fn violation_count(&self) -> usize {
        self.violations.len()
    }

    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 8 {
            self.samples.push(v);
        }
    }

    pub fn set(&mut self, k: &str, v: impl Into<Value>) {
        self.coverage.insert(k.to_string(), v.into());
    }

    pub fn add(&mut self, k: &str, n: u64) {
        let cur = self.coverage.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        self.coverage.insert(k.to_string(), json!(cur + n));
    }

    pub fn get(&self, k: &str) -> u64 {
        self.coverage.get(k).and_then(|v| v.as_u64()).unwrap_or(0)
    }

    /// Count an observed outcome class.
    pub fn outcome(&mut self, k: &str) {
        *self.tally.entry(k.to_string()).or_default() += 1;
    }

    pub fn finish(mut self) -> ! {
        let wall = self.elapsed();
        if !self.tally.is_empty() {
            self.coverage.insert("outcomes".into(), json!(self.tally));
            self.coverage
                .insert("distinct_outcome_classes".into(), json!(self.tally.len()));
        }
        self.coverage.insert("samples".into(), json!(self.samples));
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let doc = json!({
            "property": self.property,
            "tier": self.tier,
            "seed": seed,
            "level": self.level,
            "coverage": self.coverage,
            "wall_s": wall,
            "violations": self.violations.len(),
            "known_findings_reproduced": self.hit_known,
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}.json", self.property));
        if let Err(e) = std::fs::write(&file, serde_json::to_vec_pretty(&doc).unwrap_or_default()) {
            eprintln!("cannot write {}: {e}", file.display());
            exit(2);
        }
        for key in &self.hit_known {
            println!("KNOWN-FINDING: property={} {} ({})", self.property, self.known[key], key);
        }
        for (_, path) in self.violations.iter().take(10) {
            println!("VIOLATION property={} replay={}", self.property, path);
        }
        println!(
            "{} {}: {} in {:.1}s {}",
            self.property,
            self.tier,
            if self.violations.is_empty() { "held" } else { "VIOLATED" },
            wall,
            serde_json::to_string(&self.tally).unwrap_or_default()
        );
        exit(if self.violations.is_empty() { 0 } else { 1 });
    }
}

/// Exit without running destructors of runtimes that may still hold threads.
pub fn exit(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

pub fn thorough() -> bool {
    std::env::args().any(|a| a == "--thorough")
}

/// A harness failure that is not a verdict about the property.
pub fn broken(msg: impl std::fmt::Display) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    exit(2)
}
