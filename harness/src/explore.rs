//! Stateless depth-first enumeration of a choice tree.
//!
//! `explore` runs a closure once per leaf of the tree. The closure asks the
//! `Chooser` for each nondeterministic choice; the chooser replays a recorded
//! prefix and then takes alternative 0, and the driver backtracks over the
//! last choice with an untried alternative until the tree is exhausted.

#[derive(Clone, Debug)]
pub struct Pick {
    pub taken: usize,
    pub of: usize,
    pub label: String,
}

#[derive(Default, Debug)]
pub struct Chooser {
    prefix: Vec<usize>,
    pub trail: Vec<Pick>,
    pub diverged: Option<String>,
    expect: Vec<(usize, String)>,
}

impl Chooser {
    pub fn replay(prefix: Vec<usize>) -> Self {
        Self { prefix, ..Default::default() }
    }
    /// Choose one of `of` alternatives (0..of).
    pub fn choose(&mut self, of: usize, label: impl Into<String>) -> usize {
        assert!(of > 0);
        let label = label.into();
        let i = self.trail.len();
        let mut taken = self.prefix.get(i).copied().unwrap_or(0);
        if let Some((eof, elabel)) = self.expect.get(i) {
            if *eof != of || *elabel != label {
                self.diverged.get_or_insert(format!(
                    "choice {i}: recorded {eof} alternatives at `{elabel}`, replay saw {of} at `{label}`"
                ));
            }
        }
        if taken >= of {
            self.diverged.get_or_insert(format!("choice {i}: {taken} out of {of} at `{label}`"));
            taken = 0;
        }
        self.trail.push(Pick { taken, of, label });
        taken
    }
    pub fn bool(&mut self, label: impl Into<String>) -> bool {
        self.choose(2, label) == 1
    }
    pub fn path(&self) -> Vec<usize> {
        self.trail.iter().map(|p| p.taken).collect()
    }
    pub fn describe(&self) -> Vec<String> {
        self.trail.iter().map(|p| format!("{} -> {}/{}", p.label, p.taken, p.of)).collect()
    }
}

#[derive(Default, Debug, Clone, serde::Serialize)]
pub struct Stats {
    /// complete executions
    pub leaves: u64,
    /// distinct choice points visited (nodes of the tree)
    pub nodes: u64,
    /// distinct (choice point, alternative) edges taken
    pub edges: u64,
    pub max_depth: usize,
    /// whether the tree was exhausted
    pub exhausted: bool,
    /// replays that had to be repeated because the system did not follow the recorded prefix
    pub diverged: u64,
    /// executions that kept diverging: the tree below them is not exhausted
    pub unfollowed: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.leaves += o.leaves;
        self.nodes += o.nodes;
        self.edges += o.edges;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.diverged += o.diverged;
        self.unfollowed += o.unfollowed;
        self.exhausted &= o.exhausted;
    }
}

/// Enumerates every leaf. `run` returns `false` to stop early.
/// With `strict`, a run that does not follow its recorded prefix is repeated
/// (up to 5 times) before the exploration gives up with an error.
pub fn explore(
    limit: u64,
    strict: bool,
    mut run: impl FnMut(&mut Chooser) -> bool,
) -> Stats {
    let mut stats = Stats::default();
    let mut prefix: Vec<usize> = vec![];
    let mut expect: Vec<(usize, String)> = vec![];
    loop {
        let mut tries = 0;
        let (chooser, go) = loop {
            let mut c = Chooser { prefix: prefix.clone(), expect: expect.clone(), ..Default::default() };
            let go = run(&mut c);
            if strict && c.diverged.is_some() {
                stats.diverged += 1;
                tries += 1;
                if tries <= 5 {
                    continue;
                }
                // explored as it came; the evidence says so
                stats.unfollowed += 1;
            }
            break (c, go);
        };
        stats.leaves += 1;
        let shared = prefix.len().min(chooser.trail.len());
        // the last element of the prefix is a new edge of an old node
        let new_nodes = chooser.trail.len() - shared;
        stats.nodes += new_nodes as u64;
        stats.edges += new_nodes as u64 + if prefix.is_empty() { 0 } else { 1 };
        stats.max_depth = stats.max_depth.max(chooser.trail.len());
        if !go {
            return stats;
        }
        let mut trail = chooser.trail;
        while let Some(last) = trail.last_mut() {
            if last.taken + 1 < last.of {
                last.taken += 1;
                break;
            }
            trail.pop();
        }
        if trail.is_empty() {
            stats.exhausted = true;
            return stats;
        }
        if stats.leaves >= limit {
            return stats;
        }
        prefix = trail.iter().map(|p| p.taken).collect();
        expect = trail.iter().map(|p| (p.of, p.label.clone())).collect();
    }
}
