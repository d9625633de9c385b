//! A controlled scheduler for concurrent clients of one simulated store.
//!
//! Every controlled request of every client stops at the gate. When all
//! unfinished clients are stopped, the scheduler lets exactly one request
//! through, chosen by the explorer. Sleep sets over the independence of
//! requests remove interleavings that only reorder independent requests.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use async_trait::async_trait;
use tokio::sync::oneshot;

use crate::store::*;

struct Pending {
    op: Op,
    go: oneshot::Sender<Act>,
}

#[derive(Default)]
struct Inner {
    pending: Vec<Pending>,
    free: bool,
    finished: BTreeSet<usize>,
    passed: Vec<(usize, Op)>,
    granted: Vec<Op>,
}

#[derive(Clone)]
pub struct Gate {
    inner: Arc<Mutex<Inner>>,
    filter: Arc<dyn Fn(&Op) -> bool + Send + Sync>,
}

impl fmt::Debug for Gate {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Gate")
    }
}

#[async_trait]
impl Control for Gate {
    async fn gate(&self, op: &Op) -> Act {
        if !(self.filter)(op) {
            let mut s = self.inner.lock().expect("lock");
            let at = s.granted.len();
            s.passed.push((at, op.clone()));
            return Act::Go;
        }
        let rx = {
            let mut s = self.inner.lock().expect("lock");
            if s.free {
                return Act::Go;
            }
            let (go, rx) = oneshot::channel();
            s.pending.push(Pending { op: op.clone(), go });
            rx
        };
        rx.await.unwrap_or(Act::Go)
    }
}

/// Whether the order of two requests of different clients can matter.
pub fn dependent(a: &Op, b: &Op) -> bool {
    if a.client == b.client {
        return true;
    }
    if !a.kind.mutates() && !b.kind.mutates() {
        return false;
    }
    let overlap = |l: &Op, x: &Op| match l.kind {
        Kind::List => x.path.starts_with(l.path.as_str()),
        _ => false,
    };
    a.path == b.path || overlap(a, b) || overlap(b, a)
}

#[derive(Debug, PartialEq, Eq)]
pub enum End {
    /// all clients finished under control
    Complete,
    /// the rest of this execution is a reordering of one explored elsewhere
    Redundant,
    /// no progress
    Stuck(String),
}

impl Gate {
    pub fn new(filter: impl Fn(&Op) -> bool + Send + Sync + 'static) -> Self {
        let gate = Gate { inner: Default::default(), filter: Arc::new(filter) };
        gate.inner.lock().expect("lock").free = true;
        gate
    }
    pub fn finished(&self, client: usize) {
        self.inner.lock().expect("lock").finished.insert(client);
    }
    /// From now on requests stop at the gate.
    pub fn arm(&self) {
        self.inner.lock().expect("lock").free = false;
    }
    pub fn release(&self) {
        let mut s = self.inner.lock().expect("lock");
        s.free = true;
        for p in s.pending.drain(..) {
            let _ = p.go.send(Act::Go);
        }
    }
    pub fn schedule(&self) -> Vec<Op> {
        self.inner.lock().expect("lock").granted.clone()
    }

    /// Requests that were not scheduled, with the number of scheduled ones before each.
    pub fn passed(&self) -> Vec<(usize, Op)> {
        self.inner.lock().expect("lock").passed.clone()
    }

    /// Drives the clients until all have finished, following `dpor`.
    pub async fn drive(&self, clients: &[usize], dpor: &mut Dpor) -> End {
        dpor.begin();
        loop {
            // wait until every unfinished client has stopped at the gate
            let start = Instant::now();
            let mut settled = 0;
            let mut spins = 0u32;
            while settled < 40 {
                tokio::task::yield_now().await;
                let ready = {
                    let s = self.inner.lock().expect("lock");
                    clients
                        .iter()
                        .filter(|c| !s.finished.contains(c))
                        .all(|c| s.pending.iter().any(|p| p.op.client == *c))
                };
                if ready {
                    settled += 1;
                } else {
                    settled = 0;
                    spins += 1;
                    if spins % 64 == 0 {
                        // work on blocking threads or timers
                        tokio::time::sleep(Duration::from_micros(50)).await;
                        if start.elapsed() > Duration::from_secs(60) {
                            self.release();
                            return End::Stuck("no request and no answer for 60 s".into());
                        }
                    }
                }
            }
            // the next request of each client
            let next: BTreeMap<usize, Op> = {
                let s = self.inner.lock().expect("lock");
                let mut m: BTreeMap<usize, Op> = BTreeMap::new();
                for p in &s.pending {
                    let e = m.entry(p.op.client).or_insert_with(|| p.op.clone());
                    if (p.op.kind, &p.op.path) < (e.kind, &e.path) {
                        *e = p.op.clone();
                    }
                }
                m
            };
            if next.is_empty() {
                return End::Complete;
            }
            let Some(op) = dpor.next(&next) else {
                return End::Redundant;
            };
            let mut s = self.inner.lock().expect("lock");
            if let Some(i) = s.pending.iter().position(|p| same(&p.op, &op)) {
                let p = s.pending.remove(i);
                s.granted.push(op);
                let _ = p.go.send(Act::Go);
            }
        }
    }
}

fn same(a: &Op, b: &Op) -> bool {
    a.client == b.client && a.kind == b.kind && a.path == b.path
}
/// The same request in different executions (random parts of names differ).
fn alike(a: &Op, b: &Op) -> bool {
    a.client == b.client && a.kind == b.kind && short(&a.path) == short(&b.path)
}

#[derive(Debug)]
struct Node {
    enabled: BTreeMap<usize, Op>,
    sleep: Vec<Op>,
    backtrack: BTreeSet<usize>,
    done: Vec<usize>,
    chosen: usize,
}

/// Dynamic partial-order reduction (backtrack sets from the races of each
/// execution) with sleep sets: explores at least one execution of every
/// class of executions that differ only in the order of independent requests.
#[derive(Debug, Default)]
pub struct Dpor {
    stack: Vec<Node>,
    /// number of nodes of the stack the current execution has reached
    at: usize,
    replay: usize,
    pub complete: u64,
    pub redundant: u64,
    pub diverged: u64,
    pub nodes: u64,
    pub transitions: u64,
    pub max_depth: usize,
    failed_follow: bool,
    retries: u32,
    /// executions that could not be replayed: the exploration is not exhaustive
    pub lost: u64,
    blocked: Option<BTreeMap<usize, Op>>,
}

impl Dpor {
    fn begin(&mut self) {
        self.replay = self.stack.len();
        self.at = 0;
        self.failed_follow = false;
        self.blocked = None;
    }
    pub fn choices(&self) -> Vec<usize> {
        self.stack.iter().map(|n| n.chosen).collect()
    }
    fn next(&mut self, enabled: &BTreeMap<usize, Op>) -> Option<Op> {
        self.transitions += 1;
        if self.at < self.replay && !self.failed_follow {
            let n = &mut self.stack[self.at];
            let follows = n.enabled.len() == enabled.len()
                && n.enabled.iter().zip(enabled.iter()).all(|(a, b)| a.0 == b.0 && alike(a.1, b.1));
            if follows {
                n.enabled = enabled.clone();
                self.at += 1;
                return enabled.get(&self.stack[self.at - 1].chosen).cloned();
            }
            self.failed_follow = true;
            return None;
        }
        let (sleep, last) = match self.stack.last() {
            None => (vec![], None),
            Some(p) => {
                let op = &p.enabled[&p.chosen];
                let mut z = p.sleep.clone();
                z.extend(p.done.iter().filter(|c| **c != p.chosen).map(|c| p.enabled[c].clone()));
                z.retain(|s| !dependent(s, op));
                (z, Some(p.chosen))
            }
        };
        let awake: Vec<usize> =
            enabled.iter().filter(|(_, o)| !sleep.iter().any(|s| alike(s, o))).map(|(c, _)| *c).collect();
        let Some(c) = last.filter(|l| awake.contains(l)).or(awake.first().copied()) else {
            self.blocked = Some(enabled.clone());
            return None;
        };
        self.nodes += 1;
        self.stack.push(Node {
            enabled: enabled.clone(),
            sleep,
            backtrack: [c].into_iter().collect(),
            done: vec![c],
            chosen: c,
        });
        self.at = self.stack.len();
        Some(enabled[&c].clone())
    }

    /// Whether the execution that just ended followed the plan; if not it is repeated.
    pub fn followed(&self) -> bool {
        !self.failed_follow
    }

    /// Ends an execution and prepares the next one; false when everything is explored.
    pub fn advance(&mut self, end: &End) -> bool {
        if self.failed_follow {
            self.diverged += 1;
            self.retries += 1;
            if self.retries <= 5 {
                return true;
            }
            self.lost += 1;
            self.stack.truncate(self.at + 1);
        } else {
            match end {
                End::Redundant => self.redundant += 1,
                _ => self.complete += 1,
            }
            self.races();
        }
        self.retries = 0;
        self.max_depth = self.max_depth.max(self.stack.len());
        while let Some(n) = self.stack.last_mut() {
            let next = n
                .backtrack
                .iter()
                .copied()
                .find(|c| !n.done.contains(c) && !n.sleep.iter().any(|s| alike(s, &n.enabled[c])));
            if let Some(c) = next {
                n.done.push(c);
                n.chosen = c;
                return true;
            }
            self.stack.pop();
        }
        false
    }

    fn races(&mut self) {
        let mut trace: Vec<Op> = self.stack.iter().map(|n| n.enabled[&n.chosen].clone()).collect();
        let executed = trace.len();
        // requests that were about to be made where a redundant execution was cut
        let pending: Vec<Op> = self.blocked.iter().flat_map(|b| b.values().cloned()).collect();
        let mut hb: Vec<BTreeSet<usize>> = vec![];
        let mut wanted: Vec<(usize, usize)> = vec![];
        let mut step = |trace: &Vec<Op>, hb: &mut Vec<BTreeSet<usize>>, i: usize, limit: usize| {
            let mut before: BTreeSet<usize> = BTreeSet::new();
            for j in (0..limit).rev() {
                if before.contains(&j) {
                    continue;
                }
                if dependent(&trace[j], &trace[i]) {
                    if trace[j].client != trace[i].client {
                        wanted.push((j, trace[i].client));
                    }
                    before.insert(j);
                    before.extend(hb[j].iter().copied());
                }
            }
            hb.push(before);
        };
        for i in 0..executed {
            step(&trace, &mut hb, i, i);
        }
        for p in pending {
            trace.push(p);
            let i = trace.len() - 1;
            step(&trace, &mut hb, i, executed);
            hb.pop();
            trace.pop();
        }
        for (j, c) in wanted {
            let n = &mut self.stack[j];
            if n.enabled.contains_key(&c) {
                n.backtrack.insert(c);
            } else {
                n.backtrack.extend(n.enabled.keys().copied());
            }
        }
    }
}

/// Object names without the random parts.
pub fn short(path: &str) -> String {
    let f = path.rsplit('/').next().unwrap_or(path);
    let mut out = String::new();
    let mut hex = String::new();
    for c in f.chars().chain(['\0']) {
        if c.is_ascii_hexdigit() || c == '-' {
            hex.push(c);
        } else {
            if hex.len() >= 25 {
                out.push('#');
            } else {
                out.push_str(&hex);
            }
            hex.clear();
            if c != '\0' {
                out.push(c);
            }
        }
    }
    out
}
