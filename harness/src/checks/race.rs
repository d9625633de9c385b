//! Concurrent statements on one table, under every interleaving of their
//! requests to the table's log / metadata.
use std::collections::{BTreeMap, BTreeSet};

use serde_json::json;

use crate::par::par;
use crate::report::*;
use crate::sched::*;
use crate::sess::*;
use crate::store::*;
use crate::tables::*;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Job {
    Op(&'static str),
    Read,
}

struct Scenario {
    base: usize,
    jobs: Vec<Job>,
}

#[derive(Default, Clone)]
struct Out {
    complete: u64,
    redundant: u64,
    nodes: u64,
    diverged: u64,
    lost: u64,
    cut: bool,
    requests: u64,
    classes: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    fails: Vec<(String, String, serde_json::Value)>,
    sample: Option<serde_json::Value>,
}

fn controlled(format: &str) -> Box<dyn Fn(&Op) -> bool + Send + Sync> {
    if format == "delta" {
        // data files are immutable and uniquely named: their requests commute with everything
        Box::new(|o| o.path.contains("_delta_log") && !o.path.ends_with(".crc"))
    } else {
        Box::new(|o| {
            let f = o.path.rsplit('/').next().unwrap_or("");
            o.path.contains("/metadata") && !f.ends_with(".avro")
        })
    }
}

pub fn all_ops() -> Vec<OpDef> {
    vec![
        op_ins_v(), op_ins_n(), op_ins_sel(), op_del_id(), op_del_p(), op_del_pnull(), op_del_or(), op_del_v(),
        op_del_all(), op_mrg_up(), op_mrg_cond(), op_mrg_dup(), op_ovw(), op_ovw_self(), op_repl(),
        op_repl_v(), op_app_path(), op_props(), op_check(), op_ins_bad(), op_evolve(), op_ovw_schema(), op_mrg_del(),
    ]
}

fn run_scenario(base: &Base, jobs: &[Job], ops: &[OpDef], limit: u64) -> Out {
    let mut out = Out::default();
    let find = |n: &str| ops.iter().find(|o| o.name == n).unwrap_or_else(|| broken("no such operation"));
    let label = format!(
        "{}:{}",
        base.config.name,
        jobs.iter().map(|j| match j { Job::Op(n) => n, Job::Read => "read" }).collect::<Vec<_>>().join("|")
    );
    let n = names(&base.config);
    let mut bad_classes: BTreeSet<String> = BTreeSet::new();
    let mut dpor = Dpor::default();
    loop {
        if dpor.complete + dpor.redundant >= limit {
            out.cut = true;
            break;
        }
        let rt = current_thread();
        let store = SimStore::new(base.image.clone());
        let gate = Gate::new(controlled(base.config.format));
        let (end, results, servers) = rt.block_on(async {
            let mut servers = vec![];
            let mut handles = vec![];
            for (i, job) in jobs.iter().enumerate() {
                let client = store.client(i, std::sync::Arc::new(gate.clone()));
                let (server, sess) = process(&client).await;
                servers.push(server);
                if let Err(e) = attach(&base.config, &sess, &client).await {
                    return (End::Stuck(format!("cannot open the table: {e}")), vec![], servers);
                }
                handles.push((sess, *job));
            }
            gate.arm();
            let mut tasks = vec![];
            for (i, (sess, job)) in handles.into_iter().enumerate() {
                let stmt = match job {
                    Job::Op(o) => Some((find(o).stmt)(&n)),
                    Job::Read => None,
                };
                let gate = gate.clone();
                let cols = base.model.cols.join(", ");
                tasks.push(tokio::spawn(async move {
                    let r = match stmt {
                        Some(s) => exec(&sess, &s).await,
                        None => sess.bag(&format!("select {cols} from t")).await,
                    };
                    gate.finished(i);
                    r
                }));
            }
            let clients: Vec<usize> = (0..jobs.len()).collect();
            let end = gate.drive(&clients, &mut dpor).await;
            let mut results = vec![];
            if end == End::Redundant {
                return (end, results, servers);
            }
            for t in tasks {
                results.push(match tokio::time::timeout(std::time::Duration::from_secs(60), t).await {
                    Ok(Ok(r)) => r,
                    Ok(Err(e)) => Err(format!("PANIC: {e}")),
                    Err(_) => Err("HANG".into()),
                });
            }
            (end, results, servers)
        });
        out.requests += gate.schedule().len() as u64;
        let more = {
            let choices = dpor.choices();
            let followed = dpor.followed();
            let more = dpor.advance(&end);
            if end == End::Redundant || !followed {
                if more { continue } else { break }
            }
            (more, choices)
        };
        let verdict = match &end {
            End::Stuck(e) => Err(("stuck", e.clone())),
            _ => judge(base, jobs, ops, &results, &store, &rt),
        };
        drop(servers);
        let class: Vec<String> = results
            .iter()
            .map(|r| match r {
                Ok(_) => "ok".to_string(),
                Err(e) => classify(e),
            })
            .collect();
        *out.classes.entry(class.join("/")).or_default() += 1;
        out.states.insert(hash_of(&(&label, &class, contents_hash(&store))));
        let schedule = || gate.schedule().iter().map(|o| format!("{}:{:?} {}", o.client, o.kind, short(&o.path))).collect::<Vec<_>>();
        if out.sample.is_none() && end == End::Complete {
            out.sample = Some(json!({"scenario": label, "schedule": schedule(), "outcomes": class}));
        }
        if let Err((what, msg)) = verdict {
            let what = format!("{what}{}", constraint_order(&gate, jobs));
            if bad_classes.insert(what.clone()) {
                out.fails.push((
                    format!("{label}/{what}"),
                    msg,
                    json!({"scenario": label, "seed": base.seed, "choices": more.1, "schedule": schedule(),
                           "outcomes": results.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()}),
                ));
            }
        }
        if !more.0 {
            break;
        }
    }
    out.complete = dpor.complete;
    out.redundant = dpor.redundant;
    out.nodes = dpor.nodes;
    out.diverged = dpor.diverged;
    out.lost = dpor.lost;
    out
}

/// Tells apart how an INSERT and the commit of a constraint it violates were ordered: the
/// insert was committed first, or had written its data first, or neither.
fn constraint_order(gate: &Gate, jobs: &[Job]) -> &'static str {
    let client = |n: &'static str| jobs.iter().position(|j| *j == Job::Op(n));
    let (Some(c), Some(i)) = (client("check"), client("insNeg")) else { return "" };
    let commit = |k: usize| gate.schedule().iter().position(|o| o.client == k && o.kind.mutates() && o.path.ends_with(".json"));
    let (Some(checked), Some(inserted)) = (commit(c), commit(i)) else { return "" };
    let data = gate.passed().iter().find(|(_, o)| o.client == i && o.kind.mutates() && o.path.ends_with(".parquet")).map(|(at, _)| *at);
    if inserted < checked {
        "-insert-first"
    } else if data.is_some_and(|d| d <= checked) {
        "-late"
    } else {
        ""
    }
}

fn contents_hash(store: &SimStore) -> u64 {
    hash_of(&store.image().map.keys().map(|p| short(p.as_ref())).collect::<Vec<_>>())
}

pub fn classify(e: &str) -> String {
    let l = e.to_lowercase();
    if l.contains("hang") || l.contains("panic") {
        e.chars().take(60).collect()
    } else if l.contains("conflict") || l.contains("concurrent") || l.contains("max commit") || l.contains("attempts") || l.contains("already exists") {
        "conflict".into()
    } else {
        "error".into()
    }
}

/// Serializability of one finished execution.
fn judge(
    base: &Base,
    jobs: &[Job],
    ops: &[OpDef],
    results: &[Result<Vec<crate::rows::Row>, String>],
    store: &SimStore,
    rt: &tokio::runtime::Runtime,
) -> Result<(), (&'static str, String)> {
    let find = |n: &str| ops.iter().find(|o| o.name == n).unwrap_or_else(|| broken("no such operation"));
    for r in results {
        if let Err(e) = r {
            if e.starts_with("HANG") || e.starts_with("PANIC") {
                return Err(("hang", e.clone()));
            }
        }
    }
    let done: Vec<&OpDef> = jobs
        .iter()
        .zip(results)
        .filter_map(|(j, r)| match (j, r) {
            (Job::Op(o), Ok(_)) => Some(find(o)),
            _ => None,
        })
        .collect();
    let writers = jobs.iter().filter(|j| **j != Job::Read).count();
    // contents the table may have had, per number of applied statements
    let mut finals: Vec<Table> = vec![];
    let mut stages: Vec<Vec<Table>> = vec![vec![]; done.len() + 1];
    for p in permutations(done.len()) {
        let order: Vec<&OpDef> = p.iter().map(|i| done[*i]).collect();
        if base.config.format == "iceberg" {
            for run in stale_reads(&base.model, &order) {
                finals.extend(run.last().cloned());
                for (k, t) in run.into_iter().enumerate() {
                    stages[k].push(t);
                }
            }
        } else if let Some(t) = serial(&base.model, &order) {
            finals.push(t);
            for k in 0..=order.len() {
                if let Some(t) = serial(&base.model, &order[..k]) {
                    stages[k].push(t);
                }
            }
        }
    }
    rt.block_on(async {
        let free = SimStore::new(store.image());
        let (_server, sess) = process(&free).await;
        attach(&base.config, &sess, &free).await.map_err(|e| ("unreadable", format!("table cannot be opened: {e}")))?;
        let cols = match finals.first() {
            Some(t) => t.cols.join(", "),
            None => base.model.cols.join(", "),
        };
        let got = limited(sess.bag(&format!("select {cols} from t")))
            .await
            .map_err(|e| ("unreadable", format!("final table cannot be read: {e}")))?;
        if !finals.iter().any(|t| t.bag() == got) {
            return Err((
                "not-serializable",
                format!(
                    "outcomes {:?}; final contents {got:?} are not those of any order of {:?} on {:?}",
                    results.iter().map(|r| r.as_ref().map(|_| "ok")).collect::<Vec<_>>(),
                    done.iter().map(|o| o.name).collect::<Vec<_>>(),
                    base.model.bag()
                ),
            ));
        }
        if writers > 0 && done.is_empty() {
            return Err(("no-progress", format!("no statement succeeded: {results:?}")));
        }
        // committed versions
        let mut versions: Vec<Vec<crate::rows::Row>> = vec![];
        if base.config.format == "delta" {
            let v0 = delta_version(&base.image, "t").unwrap_or(-1);
            let v1 = delta_version(&free.image(), "t").unwrap_or(-1);
            let n = (v1 - v0) as usize;
            if n > done.len() {
                return Err(("extra-commit", format!("{n} commits for {} successful statements", done.len())));
            }
            for v in v0..=v1 {
                let rows = limited(sess.bag(&format!("select {cols} from t version as of {v}")))
                    .await
                    .map_err(|e| ("unreadable", format!("version {v} cannot be read: {e}")))?;
                let k = (v - v0) as usize;
                // statements may be committed in an order other than the serial one when they commute
                let subset_ok = stages[k.min(done.len())].iter().any(|t| t.bag() == rows)
                    || (n < done.len() && stages.iter().any(|s| s.iter().any(|t| t.bag() == rows)));
                if !subset_ok {
                    return Err(("bad-version", format!("version {v} holds {rows:?}, which no {k} statements produce")));
                }
                versions.push(rows);
            }
        } else {
            for s in &stages {
                versions.extend(s.iter().map(Table::bag));
            }
        }
        for (j, r) in jobs.iter().zip(results) {
            if let (Job::Read, r) = (j, r) {
                match r {
                    Ok(rows) if versions.contains(rows) => {}
                    Ok(rows) => {
                        return Err(("torn-read", format!("a reader saw {rows:?}, which is no committed version {versions:?}")));
                    }
                    Err(e) => return Err(("reader-failed", format!("a reader failed: {e}"))),
                }
            }
        }
        // the table is still writable
        let next = rows_v();
        if finals.iter().any(|t| t.bag() == got && t.cols.len() == 3) {
            limited(sess.sql(&format!("insert into t values {}", lit(&next))))
                .await
                .map_err(|e| ("not-writable", format!("append afterwards failed: {e}")))?;
            let after = limited(sess.bag(&format!("select {cols} from t")))
                .await
                .map_err(|e| ("unreadable", format!("table cannot be read after an append: {e}")))?;
            if after.len() != got.len() + next.len() {
                return Err(("not-writable", format!("append of {} rows to {got:?} gave {after:?}", next.len())));
            }
        }
        Ok(())
    })
}

fn cfg(name: &'static str, format: &'static str, partitioned: &'static str, props: &'static str) -> Config {
    Config { name, format, partitioned, props }
}

fn pairs(names: &[&'static str]) -> Vec<Vec<Job>> {
    let mut v = vec![];
    for i in 0..names.len() {
        for j in i..names.len() {
            v.push(vec![Job::Op(names[i]), Job::Op(names[j])]);
        }
    }
    for n in names {
        v.push(vec![Job::Op(n), Job::Read]);
    }
    v
}

pub fn main(args: &[String]) {
    let property = args.first().cloned().unwrap_or_else(|| broken("usage"));
    let th = thorough();
    let ops = all_ops();
    let mut plans: Vec<(Config, Vec<&'static str>, Vec<Vec<Job>>)> = vec![];
    let seed = vec!["insV", "insN"];
    match args.get(1).map(String::as_str) {
        Some("delta") => {
            let all = ["insV", "insSel", "delId", "delP", "mrgUp", "mrgCond", "ovw", "ovwSelf", "repl", "props", "check", "insNeg"];
            let some = ["insV", "insSel", "delP", "mrgUp", "ovwSelf", "repl", "check", "insNeg"];
            let few = ["insV", "insSel", "delId", "mrgUp", "ovwSelf", "check"];
            let ckpt = cfg("ckpt", "delta", "", "'delta.checkpointInterval'='1'");
            if th {
                // the longest scenarios first
                plans.push((ckpt, seed.clone(), pairs(&["insV", "delId", "props"])));
            } else {
                plans.push((ckpt, seed.clone(), vec![vec![Job::Op("insV"), Job::Op("props")], vec![Job::Op("delId"), Job::Op("props")]]));
            }
            let part = cfg("part", "delta", "partitioned by (p)", "");
            if th {
                plans.push((part, seed.clone(), pairs(&all)));
            } else {
                let mut jobs = pairs(&some);
                jobs.push(vec![Job::Op("insSel"), Job::Op("mrgCond")]);
                jobs.push(vec![Job::Op("insSel"), Job::Op("ovw")]);
                plans.push((part, seed.clone(), jobs));
            }
            plans.push((cfg("empty", "delta", "partitioned by (p)", ""), vec![], pairs(if th { &["insV", "insN", "ovw", "mrgUp", "check", "props"] } else { &["insV", "ovw"] })));
            plans.push((
                cfg("dv", "delta", "", "'delta.enableDeletionVectors'='true'"),
                seed.clone(),
                pairs(&["insV", "delId", "delV", "mrgDel", "ovw"]),
            ));
            plans.push((
                cfg("ict", "delta", "", "'delta.enableInCommitTimestamps'='true'"),
                seed.clone(),
                pairs(&["insV", "delId", "insSel"]),
            ));
            let mut three = vec![];
            for a in few {
                for b in few {
                    three.push(vec![Job::Op("insV"), Job::Op(a), Job::Op(b)]);
                }
            }
            if th {
                plans.push((cfg("three", "delta", "", ""), vec!["insV"], three));
            }
        }
        Some("iceberg") => {
            let mor = "'write.delete.mode'='merge-on-read','write.merge.mode'='merge-on-read'";
            let all = ["insV", "insSel", "delId", "delV", "mrgUp", "mrgCond", "ovw", "ovwSelf", "props"];
            let jobs = if th {
                pairs(&all)
            } else {
                let quick = [
                    "mrgUp mrgUp", "insV mrgUp", "insV insV", "delId mrgUp", "mrgUp ovw", "delId insV", "delId delId",
                    "insV ovw", "delV insSel", "insV props", "ovw ovwSelf", "delId props",
                ];
                let mut jobs: Vec<Vec<Job>> = quick.iter().map(|q| q.split(' ').map(Job::Op).collect()).collect();
                jobs.extend(all.iter().map(|o| vec![Job::Op(o), Job::Read]));
                jobs
            };
            plans.push((cfg("ice-plain", "iceberg", "", mor), seed.clone(), jobs));
            // the first statements after CREATE TABLE
            plans.push((cfg("ice-empty", "iceberg", "", mor), vec![], pairs(if th { &["insV", "insN", "ovw", "mrgUp", "props"] } else { &["insV", "ovw"] })));
            if th {
                plans.push((
                    cfg("ice-part", "iceberg", "partitioned by (v)", mor),
                    seed.clone(),
                    pairs(&["insV", "insSel", "mrgUp", "ovw"]),
                ));
            }
        }
        _ => broken("usage"),
    }
    if let Some(only) = args.iter().find_map(|a| a.strip_prefix("--only=")) {
        let (c, j) = only.split_once(':').unwrap_or((only, ""));
        plans.retain(|p| p.0.name == c);
        for p in &mut plans {
            p.2.retain(|jobs| {
                let l = jobs.iter().map(|j| match j { Job::Op(n) => n, Job::Read => "read" }).collect::<Vec<_>>().join("|");
                j.is_empty() || l == j
            });
        }
    }
    let mut report = Report::new(&property, "exploration");
    let mut bases = vec![];
    let mut items = vec![];
    for (c, s, jobs) in plans {
        match Base::new(c.clone(), &s, &ops) {
            Ok(b) => {
                for j in jobs {
                    items.push(Scenario { base: bases.len(), jobs: j });
                }
                bases.push(b);
            }
            Err(e) => {
                report.fail(&format!("{}:setup", c.name), &format!("cannot prepare the table: {e}"), json!(s));
            }
        }
    }
    let limit = if th { 20_000 } else { 400 };
    let outs = par(items, |_| (), |_, _, sc| {
        let t = std::time::Instant::now();
        let o = run_scenario(&bases[sc.base], &sc.jobs, &ops, limit);
        if std::env::var("SAILMC_V").is_ok() {
            eprintln!("{} {:?} {:?} complete {} redundant {} {:?} {:?}", bases[sc.base].config.name, sc.jobs, t.elapsed(), o.complete, o.redundant, o.classes, (o.nodes, o.diverged, o.lost, o.cut));
        }
        o
    });
    let (mut nodes, mut diverged, mut exhausted) = (0, 0, true);
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut complete, mut redundant, mut requests) = (0, 0, 0);
    let mut states = BTreeSet::new();
    let scenarios = outs.len();
    for o in outs {
        nodes += o.nodes;
        diverged += o.diverged;
        exhausted &= !o.cut && o.lost == 0;
        complete += o.complete;
        redundant += o.redundant;
        requests += o.requests;
        states.extend(o.states);
        for (k, v) in o.classes {
            *classes.entry(k).or_default() += v;
        }
        for (k, w, r) in o.fails {
            report.fail(&k, &w, r);
        }
        if let Some(s) = o.sample {
            report.sample(s);
        }
    }
    report.set("evaluations", complete);
    report.set("distinct_nontrivial", states.len());
    report.set("rule", "one evaluation is one complete schedule of the log/metadata requests of a scenario's statements; no two are equivalent under commutation of independent requests (sleep sets); distinct_nontrivial counts distinct (scenario, outcomes, final log) triples");
    report.set("scenarios", scenarios);
    report.set("schedules_cut_as_redundant", redundant);
    report.set("requests_scheduled", requests);
    report.set("choice_points", nodes);
    report.set("diverged_replays", diverged);
    report.set("outcome_classes", json!(classes));
    report.set("exhaustive", exhausted);
    report.finish()
}
