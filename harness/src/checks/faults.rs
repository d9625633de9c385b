//! E01: a statement running on a cluster in which any one storage operation of the planner, of a task or
//! of the exchange between tasks fails, once or for good, returns its rows or an error: never other rows,
//! never part of them. The cluster then still runs statements, and leaves no exchange data behind.
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use std::time::Duration;

use futures::{FutureExt, StreamExt};
use serde_json::{Value, json};

use crate::cluster::{Cluster, Faults, Point, points};
use crate::par::par;
use crate::report::{Report, broken, thorough};
use crate::rows::{self, Row};
use crate::sess::{Engine, Server, current_thread};
use crate::store::{Image, Kind, SimStore};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Shuffle {
    Flight,
    Storage,
}

/// Statements that prepare the tables every item uses.
const SETUP: &[&str] = &[
    "create table t (id int, g string, v int) using parquet location 'memory://sim/t'",
    "insert into t values (1, 'a', 10), (2, 'b', 20), (3, 'a', 30)",
    "insert into t values (4, 'c', 40), (5, null, 50)",
    "insert into t values (6, 'b', null), (7, 'a', 70), (8, 'b', 80)",
    "create table u (g string, w int) using parquet location 'memory://sim/u'",
    "insert into u values ('a', 1), ('b', 2)",
    "insert into u values ('b', 3), ('z', 4), (null, 5)",
];

const QUERIES: &[&str] = &[
    "select id, v from t where v > 15",
    "select g, count(*), sum(v) from t group by g",
    "select count(distinct g), max(v) from t",
    "select t.id, u.w from t join u on t.g = u.g",
    "select t.id, u.w from t left join u on t.g = u.g and u.w > 1",
    "select g, sum(w) from (select t.g, u.w from t join u on t.g = u.g) group by g having sum(w) > 1",
    "select id, v from t order by v desc nulls last, id",
    "select id, row_number() over (partition by g order by id) from t",
    "select g from t union select g from u",
    "select id from t where g not in (select g from u where g is not null)",
    "select distinct g from t",
    "select a.id, b.id from t a join t b on a.v < b.v and a.g = b.g",
    "select sum(v) from (select v from t order by v limit 3)",
    "select g, sum(v) from t group by rollup(g)",
    "select id from t where v > (select avg(v) from t)",
    "select g from t intersect select g from u",
];

/// Commands on a table `x` (id int, v int) with the rows (1, 10), (2, 20), (3, 30) in two files, and the
/// rows afterwards.
const WRITES: &[(&str, &str, &[(i64, i64)])] = &[
    ("insert", "insert into x select id + 10, v from t where id <= 4", &[
        (1, 10), (2, 20), (3, 30), (11, 10), (12, 20), (13, 30), (14, 40),
    ]),
    ("delete", "delete from x where v >= 20", &[(1, 10)]),
    (
        "merge",
        "merge into x using (select id, v from t where id in (2, 7)) s on x.id = s.id \
         when matched then update set v = s.v + 1 when not matched then insert (id, v) values (s.id, s.v)",
        &[(1, 10), (2, 21), (3, 30), (7, 70)],
    ),
];

const X_ROWS: &[(i64, i64)] = &[(1, 10), (2, 20), (3, 30)];

fn as_rows(v: &[(i64, i64)]) -> Vec<Row> {
    rows::sorted(v.iter().map(|(a, b)| vec![a.to_string(), b.to_string()]).collect())
}

#[derive(Clone, Debug)]
enum Item {
    Query(Shuffle, &'static str),
    Write(Shuffle, &'static str, usize, usize),
}

struct World {
    rt: tokio::runtime::Runtime,
    store: SimStore,
    faults: Arc<Faults>,
    cluster: Cluster,
    _local: Server,
}

const SHUFFLE_DIR: &str = "exchange";

fn world(shuffle: Shuffle) -> World {
    let rt = current_thread();
    let base = SimStore::new(Image::default());
    let faults = Arc::new(Faults::default());
    let store = base.client(1, faults.clone());
    let mut c = Engine { batch: 2, partitions: 2 }.config();
    c.cluster.worker_initial_count = 2;
    c.cluster.worker_max_count = 3;
    c.cluster.worker_task_slots = 4;
    c.cluster.task_max_attempts = 2;
    c.parquet.file_metadata_cache.r#type = sail_common::config::CacheType::None;
    c.parquet.file_statistics_cache.r#type = sail_common::config::CacheType::None;
    c.execution.file_listing_cache.r#type = sail_common::config::CacheType::None;
    if shuffle == Shuffle::Storage {
        c.cluster.shuffle_backend = sail_common::config::ShuffleBackend::Storage(
            serde_json::from_value(json!({
                "path": format!("memory://sim/{SHUFFLE_DIR}"), "max_file_size": 1, "compression": "none"
            }))
            .unwrap_or_else(|e| broken(format!("storage shuffle options: {e}"))),
        );
    }
    let (cluster, local) = rt.block_on(async {
        let cluster = Cluster::start(c, store.clone()).await;
        for q in SETUP {
            if let Err(e) = cluster.sess.sql(q).await {
                broken(format!("{q}: {e}"));
            }
        }
        (cluster, Server::start(Engine::default().config()))
    });
    World { rt, store, faults, cluster, _local: local }
}

type Out = Result<Vec<Row>, String>;

async fn limited<T>(f: impl Future<Output = Result<T, String>>) -> Result<T, String> {
    match tokio::time::timeout(Duration::from_secs(60), AssertUnwindSafe(f).catch_unwind()).await {
        Ok(Ok(r)) => r,
        Ok(Err(_)) => Err("PANIC".into()),
        Err(_) => Err("HANG".into()),
    }
}

impl World {
    fn run(&self, q: &str) -> Out {
        self.rt.block_on(limited(async { rows::bag(&self.cluster.sql(q).await?) }))
    }
    fn local(&self, q: &str) -> Out {
        self.rt.block_on(limited(self.cluster.sess.bag(q)))
    }
    /// Exchange data left in the store a while after a statement.
    fn leftovers(&self, limit: usize) -> Vec<String> {
        for i in 0..limit {
            let left: Vec<String> = self
                .store
                .image()
                .paths()
                .into_iter()
                .filter(|p| p.starts_with(SHUFFLE_DIR))
                .collect();
            if left.is_empty() || i + 1 == limit {
                return left;
            }
            self.rt.block_on(async {
                tokio::time::sleep(Duration::from_millis(if i < 100 { 1 } else { 5 })).await
            });
        }
        vec![]
    }
}

type Fails = Vec<(String, String, Value)>;

#[derive(Default)]
struct Tally {
    counts: BTreeMap<String, u64>,
    fails: Fails,
}

impl Tally {
    fn add(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    fn fail(&mut self, item: &str, kind: &str, point: Option<&Point>, what: String) {
        if std::env::var("SAILMC_TRACE").is_ok() {
            eprintln!("TRACE {item}:{kind} {point:?} {what}");
        }
        let at = point.map(|(k, p, n)| format!("{k:?} {p} #{n}")).unwrap_or_default();
        self.fails.push((
            format!("{item}:{kind}:{at}"),
            format!("{what} (failing {at})"),
            json!({"item": item, "point": at, "kind": kind}),
        ));
    }
}

fn modes(both: bool) -> &'static [bool] {
    if both { &[false, true] } else { &[false] }
}

/// The bookkeeping of the exchange itself: a failure to delete may leave data behind.
fn is_cleanup(p: &Point) -> bool {
    p.0 == Kind::Delete || p.0 == Kind::List
}

fn query_item(w: &World, shuffle: Shuffle, q: &str, t: &mut Tally) {
    let item = format!("{shuffle:?}:{q}");
    let expected = w.local(q).unwrap_or_else(|e| broken(format!("{q}: {e}")));
    let mut space = std::collections::BTreeSet::new();
    for _ in 0..2 {
        w.faults.arm("", None);
        let r = w.run(q);
        w.leftovers(700);
        let (log, _) = w.faults.disarm();
        space.extend(points(&log));
        if r.as_ref() != Ok(&expected) {
            return t.fail(&item, "clean", None, format!("{r:?}, expected {expected:?}"));
        }
    }
    let left = w.leftovers(700);
    if !left.is_empty() {
        t.fail(&item, "leftovers", None, format!("left behind {left:?}"));
        w.store.remove_tree(SHUFFLE_DIR);
    }
    for p in &space {
        for &forever in modes(thorough() || shuffle == Shuffle::Storage) {
            w.faults.arm("", Some((p.clone(), forever)));
            let r = w.run(q);
            let left = if is_cleanup(p) { vec![] } else { w.leftovers(700) };
            let (log, hit) = w.faults.disarm();
            if std::env::var("SAILMC_OPS").is_ok() {
                eprintln!("RUN {p:?} {forever} -> {r:?}");
                for l in &log {
                    eprintln!("   {l:?}");
                }
            }
            t.add("faulty-runs");
            if hit == 0 {
                t.add("fault-not-reached");
            }
            match &r {
                Ok(rows) if *rows == expected => t.add(if forever { "forever-ok" } else { "once-ok" }),
                Ok(rows) => t.fail(&item, "rows", Some(p), format!("{rows:?}, expected {expected:?}")),
                Err(e) if e == "HANG" || e == "PANIC" => t.fail(&item, e, Some(p), "no answer".into()),
                Err(_) => {
                    t.add(if forever { "forever-error" } else { "once-error" });
                    // a task that writes exchange files is tried again
                    if !forever && p.0 == Kind::Put && p.1.starts_with(SHUFFLE_DIR) {
                        t.fail(&item, "retry", Some(p), format!("not retried: {r:?}"));
                    }
                }
            }
            if !left.is_empty() {
                t.fail(&item, "leftovers", Some(p), format!("left behind {left:?}"));
            }
            w.store.remove_tree(SHUFFLE_DIR);
            let again = w.run(q);
            if again.as_ref() != Ok(&expected) {
                t.fail(&item, "after", Some(p), format!("afterwards {again:?}, expected {expected:?}"));
            }
        }
    }
    // the client goes away after any number of batches
    for n in 0..8 {
        let r = w.rt.block_on(limited(async {
            let mut s = w.cluster.submit(q).await?;
            for _ in 0..n {
                if s.next().await.is_none() {
                    return Ok(true);
                }
            }
            Ok(false)
        }));
        t.add("canceled-runs");
        // a canceled task may still be writing exchange data
        w.store.remove_tree(SHUFFLE_DIR);
        let again = w.run(q);
        if again.as_ref() != Ok(&expected) {
            t.fail(&item, &format!("after-canceled-{n}"), None, format!("{again:?}, expected {expected:?}"));
        }
        match r {
            Ok(true) => break,
            Ok(false) => {}
            Err(e) => t.fail(&item, &format!("canceled-{n}"), None, e),
        }
    }
}

fn write_item(w: &World, shuffle: Shuffle, format: &str, op: usize, part: usize, serial: &mut usize, t: &mut Tally) {
    let (name, q, after) = WRITES[op];
    let item = format!("{shuffle:?}:{format}:{name}");
    let (before, after) = (as_rows(X_ROWS), as_rows(after));
    let mut once = |fault: Option<(Point, bool)>| -> (Result<(), String>, Out, Vec<Point>, usize) {
        *serial += 1;
        let x = format!("x{serial}");
        let props = match format {
            "iceberg" => {
                "tblproperties ('write.delete.mode'='merge-on-read','write.merge.mode'='merge-on-read')"
            }
            _ => "",
        };
        for s in [
            format!("create table {x} (id int, v int) using {format} location 'memory://sim/{x}' {props}"),
            format!("insert into {x} values (1, 10), (2, 20)"),
            format!("insert into {x} values (3, 30)"),
        ] {
            if let Err(e) = w.local(&s) {
                broken(format!("{s}: {e}"));
            }
        }
        let q = q.replace(" x ", &format!(" {x} ")).replace("x.id", &format!("{x}.id"));
        w.faults.arm(&x, fault);
        let r = w.run(&q).map(|_| ());
        w.leftovers(20);
        w.store.remove_tree(SHUFFLE_DIR);
        let (log, hit) = w.faults.disarm();
        let rows = w.local(&format!("select id, v from {x}"));
        w.store.remove_tree(&x);
        (r, rows, log, hit)
    };
    let mut space = std::collections::BTreeSet::new();
    for _ in 0..2 {
        let (r, rows, log, _) = once(None);
        if r.is_err() || rows.as_ref() != Ok(&after) {
            return t.fail(&item, "clean", None, format!("{r:?} {rows:?}, expected {after:?}"));
        }
        space.extend(points(&log));
    }
    for p in space.iter().skip(part).step_by(PARTS) {
        for &forever in modes(thorough()) {
            let (r, rows, _, hit) = once(Some((p.clone(), forever)));
            t.add("faulty-writes");
            if hit == 0 {
                t.add("fault-not-reached");
            }
            if let Err(e) = &r && (e == "HANG" || e == "PANIC") {
                t.fail(&item, e, Some(p), "no answer".into());
            }
            let ok = match (&r, &rows) {
                (Ok(()), Ok(x)) => *x == after,
                (Err(_), Ok(x)) => *x == after || *x == before,
                _ => false,
            };
            t.add(match &r {
                Ok(()) => "write-ok",
                Err(_) => "write-error",
            });
            let dangling = matches!(&rows, Err(e) if r.is_ok() && e.contains("/data/") && e.contains("not found"));
            if dangling && !forever {
                // the number of the operation depends on the schedule
                let (kind, path, _) = p;
                let path = if path.starts_with(SHUFFLE_DIR) { "exchange" } else { path };
                t.fail(&item, &format!("dangling:{kind:?} {path}"), None, format!("{rows:?}"));
            } else if !ok {
                t.fail(&item, "rows", Some(p), format!("{r:?}: {rows:?}, before {before:?}, after {after:?}"));
            }
        }
    }
}

/// The faults of a command are explored in this number of parts.
const PARTS: usize = 4;

pub fn main(args: &[String]) {
    let property = args.first().cloned().unwrap_or_default();
    let mut report = Report::new(&property, "exhaustive over the failing operation");

    let only = args.iter().find_map(|a| a.strip_prefix("--only=")).unwrap_or_default().to_string();
    let mut items = vec![];
    for s in [Shuffle::Storage, Shuffle::Flight] {
        for format in ["delta", "iceberg"] {
            for (i, _) in WRITES.iter().enumerate() {
                items.extend((0..PARTS).map(|k| Item::Write(s, format, i, k)));
            }
        }
        for q in QUERIES {
            items.push(Item::Query(s, q));
        }
    }
    items.retain(|i| format!("{i:?}").contains(&only));
    let n = items.len();
    let results = par(
        items,
        |_| (None::<(Shuffle, World)>, 0usize),
        |(cache, serial), _, item| {
            let mut t = Tally::default();
            let shuffle = match item {
                Item::Query(s, _) | Item::Write(s, ..) => *s,
            };
            if cache.as_ref().is_none_or(|(s, _)| *s != shuffle) {
                *cache = Some((shuffle, world(shuffle)));
            }
            if let Some((_, w)) = cache {
                match item {
                    Item::Query(s, q) => query_item(w, *s, q, &mut t),
                    Item::Write(s, f, op, k) => write_item(w, *s, f, *op, *k, serial, &mut t),
                }
            }
            t
        },
    );
    for t in results {
        for (k, n) in t.counts {
            report.add(&k, n);
        }
        for (k, what, r) in t.fails {
            report.fail(&k, &what, r);
        }
    }
    report.set("statements", n as u64);
    report.finish()
}
