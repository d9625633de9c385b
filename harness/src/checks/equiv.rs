//! Q02 / E02: the result of a query does not depend on how it is executed.
//!
//! Every query of a corpus, as written and with its literals moved into a table (so that nothing is
//! computed by the planner and every expression is evaluated on columns of more than one row), runs under
//! every execution mode: batch sizes, partition counts, and (E02) clusters of workers exchanging data
//! over the network or through files, with every expression and operator encoded and decoded.
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::time::Duration;

use futures::FutureExt;
use serde::Deserialize;
use serde_json::{Value, json};

use crate::par::par;
use crate::report::{Report, broken, thorough};
use crate::rows::{self, Row};
use crate::sess::{Engine, Server, Sess, current_thread, parse, spec};

#[derive(Deserialize, Clone)]
struct Query {
    group: String,
    setup: Vec<String>,
    query: String,
}

const CORPUS: &str = include_str!("../../corpus/queries.json");

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
    Local(usize, usize),
    Flight(usize, usize),
    Storage(usize, usize),
}

impl Mode {
    fn name(self) -> String {
        format!("{self:?}").to_lowercase()
    }
}

struct World {
    rt: tokio::runtime::Runtime,
    sess: Vec<(Mode, Sess, Server)>,
    _dir: String,
}

fn modes(property: &str) -> Vec<Mode> {
    match property {
        "E02" => vec![Mode::Local(0, 4), Mode::Flight(0, 3), Mode::Storage(2, 2)],
        _ => vec![Mode::Local(0, 4), Mode::Local(1, 1), Mode::Local(2, 3)],
    }
}

fn world(w: usize, modes: &[Mode]) -> World {
    let rt = current_thread();
    let dir = format!("{}/sailmc-{}-{w}", std::env::temp_dir().display(), std::process::id());
    let mut sess = vec![];
    for (i, &m) in modes.iter().enumerate() {
        let (batch, partitions) = match m {
            Mode::Local(b, p) | Mode::Flight(b, p) | Mode::Storage(b, p) => (b, p),
        };
        let mut c = Engine { batch, partitions }.config();
        c.cluster.worker_initial_count = 2;
        c.cluster.worker_max_count = 4;
        c.cluster.worker_task_slots = 4;
        c.cluster.task_max_attempts = 1;
        let s = rt.block_on(async {
            let server = match m {
                Mode::Local(..) => Server::start(c),
                Mode::Flight(..) => Server::start_cluster(c).await,
                Mode::Storage(..) => {
                    let path = format!("{dir}/shuffle-{i}");
                    let _ = std::fs::create_dir_all(&path);
                    c.cluster.shuffle_backend = sail_common::config::ShuffleBackend::Storage(
                        storage(&format!("file://{path}")),
                    );
                    Server::start_cluster(c).await
                }
            };
            let s = server.session("s").await;
            (m, s, server)
        });
        sess.push(s);
    }
    World { rt, sess, _dir: dir }
}

fn storage(path: &str) -> sail_common::config::StorageShuffleBackend {
    serde_json::from_value(json!({"path": path, "max_file_size": 1 << 20, "compression": "none"}))
        .unwrap_or_else(|e| broken(format!("storage shuffle options: {e}")))
}

/// Moves the literals of a query without a table into a table of two equal rows.
fn lift(plan: &spec::Plan) -> Option<spec::Plan> {
    let mut v = serde_json::to_value(plan).ok()?;
    let query = v.get_mut("query")?;
    let project = query.get_mut("project")?;
    let input = project.get("input")?;
    let empty = input.get("empty")?;
    empty.get("produceOneRow").filter(|x| x.as_bool() == Some(true))?;
    let mut lits: Vec<Value> = vec![];
    fn walk(v: &mut Value, lits: &mut Vec<Value>) {
        match v {
            Value::Object(o) => {
                if o.len() == 1 && o.contains_key("literal") {
                    let name = format!("lit{}", lits.len());
                    lits.push(std::mem::take(v));
                    *v = json!({"unresolvedAttribute":
                        {"name": [name], "planId": null, "isMetadataColumn": false}});
                    return;
                }
                for x in o.values_mut() {
                    walk(x, lits);
                }
            }
            Value::Array(a) => a.iter_mut().for_each(|x| walk(x, lits)),
            _ => {}
        }
    }
    walk(project.get_mut("expressions")?, &mut lits);
    if lits.is_empty() {
        return None;
    }
    let names: Vec<String> = (0..lits.len()).map(|i| format!("lit{i}")).collect();
    *project.get_mut("input")? = json!({"tableAlias": {
        "input": {"values": [lits.clone(), lits.clone()], "planId": null},
        "name": "lits", "columns": names}, "planId": null});
    serde_json::from_value(v).ok()
}

/// Functions whose result legitimately depends on the moment, the session or the order of rows.
const VARY: &[&str] = &[
    "rand", "uuid", "now(", "current_", "localtime", "curdate", "monotonically", "spark_partition_id",
    "input_file", "shuffle(", "random", "collect_", "array_agg", "first", "last", "any_value", "unix_timestamp()",
    "listagg", "string_agg", "mode(", "version()", "session_user", "user()", "approx", "percentile", "tablesample",
    "sketch", "hll", "kll", "theta", "aes_encrypt(", "1e16",
];

/// The types of the columns (unknown without a batch) and the rows.
#[derive(Clone)]
struct Table {
    types: Option<String>,
    rows: Vec<Row>,
}

type Out = Result<Table, String>;

async fn table(s: &Sess, plan: spec::Plan) -> Out {
    let batches = s.run(plan).await?;
    let types = batches.first().map(|b| {
        let t: Vec<String> = b.schema().fields().iter().map(|f| f.data_type().to_string()).collect();
        t.join(" ")
    });
    Ok(Table { types, rows: rows::rows(&batches)? })
}

async fn guarded<T>(f: impl std::future::Future<Output = Result<T, String>>) -> Result<T, String> {
    match tokio::time::timeout(Duration::from_secs(60), AssertUnwindSafe(f).catch_unwind()).await {
        Err(_) => Err("HANG".to_string()),
        Ok(Err(_)) => Err("panic".to_string()),
        Ok(Ok(r)) => r,
    }
}

/// Equal up to the rounding of floating-point arithmetic (sums are not associative).
fn same(a: &[Row], b: &[Row]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.len() == y.len()
                && x.iter().zip(y).all(|(u, v)| {
                    u == v
                        || match (u.parse::<f64>(), v.parse::<f64>()) {
                            // the shortest form of a rounded result is long
                            (Ok(p), Ok(q)) if u.contains('.') && u.len().max(v.len()) >= 14 => {
                                (p - q).abs() <= 1e-9 * p.abs().max(q.abs())
                            }
                            _ => false,
                        }
                })
        })
}

fn run_all(w: &World, q: &Query, lifted: bool) -> Option<Vec<(Mode, Out)>> {
    let mut out = vec![];
    for (m, s, _) in &w.sess {
        let r: Result<Out, String> = w.rt.block_on(async {
            for st in &q.setup {
                guarded(s.sql(st)).await?;
            }
            let plan = parse(&q.query)?;
            let plan = if lifted { lift(&plan).ok_or("skip")? } else { plan };
            Ok(guarded(table(s, plan)).await)
        });
        match r {
            Err(e) if e == "skip" => return None,
            Err(e) => out.push((*m, Err(e))),
            Ok(r) => out.push((*m, r)),
        }
    }
    Some(out)
}

fn equal(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let sorted = |t: &Table| rows::sorted(t.rows.clone());
            same(&sorted(a), &sorted(b)) && (a.types.is_none() || b.types.is_none() || a.types == b.types)
        }
        (Err(a), Err(b)) => (a == "HANG") == (b == "HANG"),
        _ => false,
    }
}

fn show(r: &Out) -> String {
    let s = match r {
        Ok(t) => format!(
            "{} rows {:?} of {}",
            t.rows.len(),
            t.rows.iter().take(4).collect::<Vec<_>>(),
            t.types.as_deref().unwrap_or("?")
        ),
        Err(e) => format!("error {e}"),
    };
    s.chars().take(300).collect()
}

pub fn main(args: &[String]) {
    let property = args.first().cloned().unwrap_or_default();
    let mut report = Report::new(&property, "exhaustive over the corpus and modes");
    let mut corpus: Vec<Query> =
        serde_json::from_str(CORPUS).unwrap_or_else(|e| broken(format!("corpus: {e}")));
    corpus.retain(|q| {
        let l = q.query.to_lowercase();
        !VARY.iter().any(|v| l.contains(v))
    });
    if let Some(f) = args.iter().find_map(|a| a.strip_prefix("--only=")) {
        corpus.retain(|q| q.query.contains(f) || q.group.contains(f));
    }
    let modes = modes(&property);
    let _ = thorough();
    type Res = (BTreeMap<String, u64>, Vec<(String, String, Value)>);
    let results: Vec<Res> = par(
        corpus,
        |w| world(w, &modes),
        |w, _, q: &Query| {
            let mut tally = BTreeMap::new();
            let mut fails = vec![];
            let mut count = |k: &str| *tally.entry(k.to_string()).or_default() += 1;
            let mut base: Option<Out> = None;
            for lifted in [false, true] {
                if lifted && !q.setup.is_empty() {
                    continue;
                }
                let Some(rs) = run_all(w, q, lifted) else { continue };
                let reference = rs[0].1.clone();
                count(match &reference {
                    Ok(_) if lifted => "rows-lifted",
                    Ok(_) => "rows",
                    Err(_) => "error",
                });
                for (m, r) in rs.iter() {
                    if let Err(e) = r && e == "HANG" {
                        fails.push((m.name(), format!("{}: hangs", q.query), json!({"query": q.query})));
                    }
                    // rows that are equal under an ORDER BY may come in any order
                    if !equal(r, &reference) {
                        fails.push((
                            format!("{}{}", m.name(), if lifted { "-lifted" } else { "" }),
                            format!("{}\n   {}\n   reference {}", q.query, show(r), show(&reference)),
                            json!({"query": q.query, "setup": q.setup, "lifted": lifted, "mode": m.name()}),
                        ));
                    }
                }
                if !lifted {
                    base = Some(reference);
                } else if property == "E02" {
                    // compared by Q02
                } else if let (Some(Ok(a)), Ok(b)) = (&base, &reference) {
                    // generated field names follow the arguments; the type of `round(x, 1)` does too
                    let names = b.rows.iter().flatten().any(|x| x.contains("lit0")) || a.types != b.types;
                    let twice = a.rows.iter().chain(a.rows.iter()).cloned().collect();
                    if !names && !same(&rows::sorted(twice), &rows::sorted(b.rows.clone())) {
                        fails.push((
                            "lifted".into(),
                            format!("{}\n   {:?}\n   literal {:?}", q.query, b.rows, a.rows),
                            json!({"query": q.query, "lifted": true}),
                        ));
                    }
                }
            }
            let fails = fails
                .into_iter()
                .map(|(k, what, r)| (format!("{k}:{}", crate::checks::equiv::slug(&q.query)), what, r))
                .collect();
            (tally, fails)
        },
    );
    let mut cases = 0u64;
    for (i, (tally, fails)) in results.into_iter().enumerate() {
        cases += 1;
        for (k, n) in tally {
            report.add(&k, n);
        }
        for (k, what, r) in fails {
            report.fail(&k, &what, r);
        }
        let _ = i;
    }
    report.set("queries", cases);
    report.set("modes", json!(modes.iter().map(|m| m.name()).collect::<Vec<_>>()));
    for w in 0..64 {
        let _ = std::fs::remove_dir_all(format!(
            "{}/sailmc-{}-{w}",
            std::env::temp_dir().display(),
            std::process::id()
        ));
    }
    report.finish()
}

pub fn slug(q: &str) -> String {
    let s: String = q.split_whitespace().collect::<Vec<_>>().join(" ");
    let mut h: u64 = 1469598103934665603;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    let head: String = s.chars().filter(|c| c.is_alphanumeric() || "_(".contains(*c)).take(40).collect();
    format!("{head}-{:08x}", h as u32)
}
