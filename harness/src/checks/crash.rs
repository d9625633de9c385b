//! One statement, with a crash or a storage failure at every request it makes.
//! usage: crash <property> (delta|iceberg) [--only=cfg[:stmt]] [--thorough]
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};

use serde_json::{Value, json};

use crate::checks::race::{all_ops, classify};
use crate::par::par;
use crate::report::*;
use crate::rows::Row;
use crate::sess::*;
use crate::store::*;
use crate::tables::*;
use crate::world::*;

/// A statement that creates the table.
struct Create {
    name: &'static str,
    stmt: fn(&Config) -> Stmt,
    rows: fn() -> Vec<Rec>,
}

fn cast(rows: &[Rec]) -> String {
    format!("select cast(id as int) id, p, cast(v as int) v from values {} as s(id,p,v)", lit(rows))
}

fn create_ops(format: &str) -> Vec<Create> {
    let mut v = vec![Create {
        name: "create",
        stmt: |c| {
            let lab = Lab { config: c.clone(), ops: vec![], seed: vec![], depth: 0, by_path: false, engine: Engine::default() };
            Stmt::Sql(lab.create_sql(&names(c)))
        },
        rows: Vec::new,
    }];
    v.push(Create {
        name: "ctas",
        stmt: |c| {
            let props = if c.props.is_empty() { String::new() } else { format!("tblproperties({})", c.props) };
            Stmt::Sql(format!(
                "create table t using {} {} location 'memory://sim/t' {props} as {}",
                c.format, c.partitioned, cast(&rows_n())
            ))
        },
        rows: rows_n,
    });
    if format == "delta" {
        for (name, mode) in [
            ("saveNew", spec::SaveMode::ErrorIfExists),
            ("overwriteNew", spec::SaveMode::Overwrite),
            ("appendNew", spec::SaveMode::Append),
        ] {
            let _ = mode;
            v.push(Create {
                name,
                stmt: match name {
                    "saveNew" => |c| save(c, spec::SaveMode::ErrorIfExists),
                    "overwriteNew" => |c| save(c, spec::SaveMode::Overwrite),
                    _ => |c| save(c, spec::SaveMode::Append),
                },
                rows: rows_n,
            });
        }
    }
    v
}

fn save(c: &Config, mode: spec::SaveMode) -> Stmt {
    Stmt::Write(
        cast(&rows_n()),
        WriteSpec {
            format: c.format.into(),
            target: Target::Path("memory://sim/t".into()),
            mode: Some(mode),
            partition_by: if c.partitioned.is_empty() { vec![] } else { vec!["p".into()] },
            options: vec![],
        },
    )
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    Op(&'static str),
    Create(usize),
    Select,
}

#[derive(Clone)]
struct Item {
    base: usize,
    what: What,
}

/// Faults are injected only while the statement under test runs.
struct Faults {
    armed: AtomicBool,
    plan: Arc<Plan>,
}
impl std::fmt::Debug for Faults {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Faults")
    }
}
#[async_trait::async_trait]
impl Control for Faults {
    async fn gate(&self, op: &Op) -> Act {
        if self.armed.load(Ordering::SeqCst) { self.plan.gate(op).await } else { Act::Go }
    }
}

#[derive(Default)]
struct Out {
    runs: u64,
    points: u64,
    pairs: u64,
    reads_checked: u64,
    hits: BTreeSet<String>,
    classes: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    missed: u64,
    fails: Vec<(String, String, Value)>,
}

struct Ctx<'a> {
    base: &'a Base,
    label: String,
    stmt: Box<dyn Fn() -> Stmt + 'a>,
    what: What,
    before: Option<Table>,
    after: Table,
}

fn kind(o: &Op) -> String {
    format!("{:?} {}", o.kind, short_name(&o.path))
}

/// The role of a file, without the parts of its name that differ between runs.
pub fn short_name(p: &str) -> String {
    let f = p.rsplit('/').next().unwrap_or("");
    if f.ends_with(".parquet") && !f.contains("checkpoint") {
        "data".into()
    } else if f.ends_with(".avro") {
        if f.starts_with("snap-") { "manifest-list".into() } else { "manifest".into() }
    } else if f.contains(".metadata.json") {
        "metadata".into()
    } else if f.contains("checkpoint") {
        if f.starts_with('_') { f.into() } else { "checkpoint".into() }
    } else if f.len() > 20 && f.ends_with(".json") {
        "commit".into()
    } else if f.ends_with(".crc") {
        "crc".into()
    } else if f.contains("deletion_vector") || f.ends_with(".bin") {
        "dv".into()
    } else {
        f.chars().filter(|c| !c.is_ascii_digit()).collect()
    }
}

struct Run {
    log: Vec<Op>,
    /// None: the process died
    result: Option<Result<Vec<Row>, String>>,
    image: Image,
    /// contents seen by the same session afterwards
    same: Option<Result<Vec<Row>, String>>,
}

fn run_once(cx: &Ctx, acts: &BTreeMap<usize, Act>) -> Result<Run, String> {
    let rt = current_thread();
    let store = SimStore::new(cx.base.image.clone());
    let plan = Plan::new(|_| true, acts.clone());
    let faults = Arc::new(Faults { armed: AtomicBool::new(false), plan: plan.clone() });
    let client = store.client(1, faults.clone());
    let cols = cx.after.cols.join(", ");
    let (result, same) = rt.block_on(async {
        let (server, sess) = process(&client).await;
        if cx.before.is_some() {
            attach(&cx.base.config, &sess, &client).await?;
        }
        faults.armed.store(true, Ordering::SeqCst);
        let stmt = (cx.stmt)();
        let result = tokio::select! {
            biased;
            _ = client.death() => None,
            r = async {
                match cx.what {
                    What::Select => limited(sess.bag(&format!("select {cols} from t where id < 100"))).await,
                    _ => exec(&sess, &stmt).await,
                }
            } => Some(r),
        };
        // tasks the statement left behind are faulted as well
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        faults.armed.store(false, Ordering::SeqCst);
        let result = if client.is_dead() && !matches!(result, Some(Ok(_))) { None } else { result };
        let same = match (&result, client.is_dead()) {
            (Some(_), false) if cx.before.is_some() => Some(limited(sess.bag(&format!("select {} from t", visible(cx)))).await),
            _ => None,
        };
        drop(server);
        Ok::<_, String>((result, same))
    })?;
    let image = store.image();
    drop(rt);
    Ok(Run { log: plan.ops(), result, image, same })
}

/// Columns every state of the table has.
fn visible(cx: &Ctx) -> String {
    match &cx.before {
        Some(b) if b.cols.len() < cx.after.cols.len() => b.cols.join(", "),
        _ => cx.after.cols.join(", "),
    }
}

fn cut(t: &Table, n: usize) -> Vec<Row> {
    crate::rows::sorted(t.bag().into_iter().map(|mut r| { r.truncate(n); r }).collect())
}

/// What a fresh process reads.
async fn contents(cx: &Ctx<'_>, store: &SimStore) -> Result<Vec<Row>, String> {
    let cols = visible(cx);
    let (_server, sess) = process(store).await;
    if cx.base.config.format == "delta" {
        limited(sess.bag(&format!("select {cols} from delta.`memory://sim/t`"))).await
    } else {
        attach(&cx.base.config, &sess, store).await?;
        limited(sess.bag(&format!("select {cols} from t"))).await
    }
}

/// Whether the image holds a table at all.
fn exists(cx: &Ctx, img: &Image) -> bool {
    if cx.base.config.format == "delta" {
        delta_version(img, "t").is_some()
    } else {
        img.map.keys().any(|p| p.as_ref().starts_with("t/metadata/") && p.as_ref().ends_with(".metadata.json"))
    }
}

/// Judges the state left behind; returns ("before" | "after").
fn judge(cx: &Ctx, run: &Run, acts: &BTreeMap<usize, Act>, reads: &mut u64) -> Result<&'static str, (&'static str, String)> {
    if let Some(Err(e)) = &run.result {
        if e.starts_with("HANG") || e.starts_with("PANIC") {
            return Err(("hang", e.clone()));
        }
    }
    let n = cx.before.as_ref().map(|b| b.cols.len().min(cx.after.cols.len())).unwrap_or(cx.after.cols.len());
    let before = cx.before.as_ref().map(|b| cut(b, n));
    let after = cut(&cx.after, n);
    if cx.what == What::Select {
        return match &run.result {
            Some(Ok(rows)) if *rows != after => Err(("wrong-read", format!("a query during which a request failed returned {rows:?}, the table holds {after:?}"))),
            _ => Ok("read"),
        };
    }
    let rt = current_thread();
    let store = SimStore::new(run.image.clone());
    let state = rt.block_on(async {
        *reads += 1;
        if !exists(cx, &run.image) {
            return if before.is_none() { Ok("before") } else { Err(("unreadable", "the table is gone".to_string())) };
        }
        let got = contents(cx, &store)
            .await
            .map_err(|e| ("unreadable", format!("the table cannot be read by a fresh process: {e}")))?;
        let is_before = before.as_ref() == Some(&got);
        let is_after = got == after;
        let state = match (is_before, is_after) {
            (true, true) => "same",
            (true, false) => "before",
            (false, true) => "after",
            _ => return Err(("torn", format!("a fresh process reads {got:?}; before the statement {before:?}, after it {after:?}"))),
        };
        Ok(state)
    })?;
    match (&run.result, state) {
        (Some(Ok(_)), "before") => return Err(("lost", "the statement reported success, its effect is not there".into())),
        (Some(Err(e)), "after") => {
            // the outcome of a request whose response is lost cannot be known
            let lost_response = acts.iter().any(|(i, a)| {
                run.log.get(*i).is_some_and(|o| {
                    let role = short_name(&o.path);
                    match a {
                        Act::GoFail => role == "commit" || role == "metadata",
                        // Iceberg lists the metadata files after writing its own, to detect a conflict
                        Act::Fail => o.kind == Kind::List && role == "metadata" && wrote_metadata(&run.log[..*i]),
                        _ => false,
                    }
                })
            });
            if !lost_response {
                return Err(("effect-of-failed", format!("the statement reported failure ({e}), its effect is there")));
            }
        }
        _ => {}
    }
    if let Some(same) = &run.same {
        let now = if state == "after" { &after } else { before.as_ref().unwrap_or(&after) };
        match same {
            Ok(rows) if rows == now => {}
            Ok(rows) => return Err(("stale-session", format!("the same session then reads {rows:?}, the table holds {now:?}"))),
            Err(e) => return Err(("stale-session", format!("the same session cannot read the table afterwards: {e}"))),
        }
    }
    // the statement can be repeated if it had no effect; the table stays writable
    rt.block_on(async {
        let (_server, sess) = process(&store).await;
        if cx.before.is_some() || exists(cx, &run.image) {
            if let (What::Create(_), true) = (cx.what, state == "before") {
                return Err(("half-created", "creation was interrupted and left a table with other contents".to_string()));
            }
        }
        let mut now = if state == "after" { cx.after.clone() } else { cx.before.clone().unwrap_or_else(|| cx.after.clone()) };
        if matches!(state, "before") {
            if cx.before.is_some() {
                attach(&cx.base.config, &sess, &store).await.map_err(|e| ("not-writable", e))?;
            }
            exec(&sess, &(cx.stmt)()).await.map_err(|e| ("not-repeatable", format!("the statement had no effect, and repeating it fails: {e}")))?;
            let got = contents(cx, &store).await.map_err(|e| ("not-repeatable", format!("after repeating the statement: {e}")))?;
            *reads += 1;
            if got != after {
                return Err(("not-repeatable", format!("repeating the statement gave {got:?} instead of {after:?}")));
            }
            now = cx.after.clone();
        }
        if now.cols.len() == 3 {
            let (_server, sess) = process(&store).await;
            attach(&cx.base.config, &sess, &store).await.map_err(|e| ("not-writable", e))?;
            limited(sess.sql(&format!("insert into t by name select * from values {} as s(id,p,v)", lit(&rows_v()))))
                .await
                .map_err(|e| ("not-writable", format!("an append afterwards failed: {e}")))?;
            now.push(&rows_v());
            let got = contents(cx, &store).await.map_err(|e| ("not-writable", format!("after an append: {e}")))?;
            *reads += 1;
            if got != cut(&now, n) {
                return Err(("not-writable", format!("an append gave {got:?} instead of {:?}", cut(&now, n))));
            }
        }
        if cx.base.config.format == "delta" && cx.before.is_some() {
            // earlier versions still read as they were
            let v = delta_version(&cx.base.image, "t").unwrap_or(0);
            let got = limited(sess.bag(&format!("select {} from delta.`memory://sim/t` version as of {v}", visible(cx))))
                .await
                .map_err(|e| ("history", format!("version {v} cannot be read: {e}")))?;
            *reads += 1;
            if Some(&got) != before.as_ref() {
                return Err(("history", format!("version {v} reads {got:?} instead of {before:?}")));
            }
        }
        Ok(())
    })?;
    Ok(state)
}

fn wrote_metadata(log: &[Op]) -> bool {
    log.iter().any(|o| o.kind.mutates() && short_name(&o.path) == "metadata")
}

fn acts_for(o: &Op) -> Vec<Act> {
    if o.kind.mutates() { vec![Act::Fail, Act::GoFail, Act::Die, Act::GoDie] } else { vec![Act::Fail] }
}

fn run_item(bases: &[Base], item: &Item, ops: &[OpDef], creates: &[Create], pairs: bool) -> Out {
    let mut out = Out::default();
    let base = &bases[item.base];
    let n = names(&base.config);
    let find = |n: &str| ops.iter().find(|o| o.name == n).unwrap_or_else(|| broken("no such operation"));
    let (name, before, after): (String, Option<Table>, Table) = match item.what {
        What::Op(o) => {
            let mut t = base.model.clone();
            if matches!((find(o).model)(&mut t), Expect::Reject) {
                t = base.model.clone();
            }
            (o.into(), Some(base.model.clone()), t)
        }
        What::Create(i) => {
            let mut t = Table::new(&["id", "p", "v"]);
            t.empty_is_null = base.model.empty_is_null;
            t.push(&(creates[i].rows)());
            (creates[i].name.into(), None, t)
        }
        What::Select => ("select".into(), Some(base.model.clone()), base.model.clone()),
    };
    let what = item.what;
    let cx = Ctx {
        base,
        label: format!("{}:{name}", base.config.name),
        stmt: Box::new(move || match what {
            What::Op(o) => (find(o).stmt)(&n),
            What::Create(i) => (creates[i].stmt)(&base.config),
            What::Select => Stmt::Sql(String::new()),
        }),
        what,
        before,
        after,
    };
    let mut bad: BTreeSet<String> = BTreeSet::new();
    let mut go = |out: &mut Out, acts: BTreeMap<usize, Act>| -> Option<Vec<Op>> {
        out.runs += 1;
        let run = match run_once(&cx, &acts) {
            Ok(r) => r,
            Err(e) => {
                out.fails.push((format!("{}/setup", cx.label), format!("cannot open the table: {e}"), json!(null)));
                return None;
            }
        };
        out.missed += acts.keys().filter(|i| **i >= run.log.len()).count() as u64;
        let at = acts
            .iter()
            .map(|(i, a)| format!("{a:?}@{}", run.log.get(*i).map(kind).unwrap_or("-".into())))
            .collect::<Vec<_>>()
            .join("+");
        out.hits.insert(at.clone());
        let class = match &run.result {
            None => "died".to_string(),
            Some(Ok(_)) => "ok".into(),
            Some(Err(e)) => classify(e),
        };
        match judge(&cx, &run, &acts, &mut out.reads_checked) {
            Ok(state) => {
                *out.classes.entry(format!("{class}/{state}")).or_default() += 1;
                out.states.insert(hash_of(&(&cx.label, &at, &class, state)));
                if acts.is_empty() && !matches!(what, What::Select) && state == "before" && class == "ok" {
                    return None;
                }
            }
            Err((k, msg)) => {
                let key = format!("{}/{at}/{k}", cx.label);
                if bad.insert(key.clone()) {
                    out.fails.push((
                        key,
                        msg,
                        json!({"statement": cx.label, "acts": format!("{acts:?}"),
                               "requests": run.log.iter().map(|o| format!("{:?} {}", o.kind, o.path)).collect::<Vec<_>>(),
                               "outcome": format!("{:?}", run.result)}),
                    ));
                }
            }
        }
        Some(run.log)
    };
    let Some(log) = go(&mut out, BTreeMap::new()) else { return out };
    for (i, o) in log.iter().enumerate() {
        for a in acts_for(o) {
            out.points += 1;
            let survives = matches!(a, Act::Fail | Act::GoFail);
            let then = go(&mut out, BTreeMap::from([(i, a.clone())]));
            if !pairs || !survives {
                continue;
            }
            // a second fault, while the statement copes with the first
            let Some(then) = then else { continue };
            for (j, o2) in then.iter().enumerate().skip(i + 1) {
                for b in acts_for(o2) {
                    out.pairs += 1;
                    go(&mut out, BTreeMap::from([(i, a.clone()), (j, b)]));
                }
            }
        }
    }
    out
}

fn cfg(name: &'static str, format: &'static str, partitioned: &'static str, props: &'static str) -> Config {
    Config { name, format, partitioned, props }
}

pub fn main(args: &[String]) {
    let property = args.first().cloned().unwrap_or_else(|| broken("usage"));
    let th = thorough();
    let ops = all_ops();
    let format = args.get(1).cloned().unwrap_or_default();
    let creates = create_ops(&format);
    let seed = vec!["insV", "insN"];
    let mut plans: Vec<(Config, Vec<&'static str>, Vec<What>)> = vec![];
    let op = |v: &[&'static str]| v.iter().map(|o| What::Op(o)).collect::<Vec<_>>();
    let news = (0..creates.len()).map(What::Create).collect::<Vec<_>>();
    match format.as_str() {
        "delta" => {
            let all = op(&[
                "insV", "insSel", "delId", "delOr", "mrgUp", "mrgCond", "ovw", "ovwSelf", "repl", "replV", "props", "check",
                "evolve", "ovwSchema",
            ]);
            let few = op(&["insV", "delId", "mrgUp", "ovw", "props"]);
            let part = "partitioned by (p)";
            plans.push((cfg("part", "delta", part, ""), seed.clone(), [all.clone(), vec![What::Select]].concat()));
            plans.push((cfg("ckpt", "delta", "", "'delta.checkpointInterval'='1'"), seed.clone(), [few.clone(), vec![What::Select]].concat()));
            plans.push((
                cfg("v2", "delta", part, "'delta.checkpointPolicy'='v2','delta.checkpointInterval'='1'"),
                seed.clone(),
                [op(&["insV", "delId", "mrgUp"]), vec![What::Select]].concat(),
            ));
            plans.push((
                cfg("dv", "delta", "", "'delta.enableDeletionVectors'='true'"),
                vec!["insV", "insN", "delId"],
                [op(&["insV", "delV", "mrgDel", "ovw"]), vec![What::Select]].concat(),
            ));
            plans.push((cfg("mad", "delta", part, "'option.metadataAsDataRead'='true','delta.checkpointInterval'='2'"), seed.clone(), [op(&["delOr"]), vec![What::Select]].concat()));
            plans.push((cfg("new", "delta", "", ""), vec!["EMPTY"], news.clone()));
            plans.push((cfg("newpart", "delta", part, "'delta.checkpointInterval'='1'"), vec!["EMPTY"], news));
        }
        "iceberg" => {
            let mor = "'write.delete.mode'='merge-on-read','write.merge.mode'='merge-on-read'";
            plans.push((
                cfg("ice-plain", "iceberg", "", mor),
                seed.clone(),
                [op(&["insV", "insSel", "delId", "delV", "mrgUp", "mrgCond", "ovw", "ovwSelf", "props"]), vec![What::Select]].concat(),
            ));
            plans.push((
                cfg("ice-del", "iceberg", "", mor),
                vec!["insV", "insN", "delId"],
                [op(&["insV", "delV", "mrgUp"]), vec![What::Select]].concat(),
            ));
            plans.push((
                cfg("ice-part", "iceberg", "partitioned by (p)", mor),
                seed.clone(),
                [op(&["insV", "mrgUp", "ovw", "ovwSelf"]), vec![What::Select]].concat(),
            ));
            plans.push((cfg("ice-new", "iceberg", "", mor), vec!["EMPTY"], news));
        }
        _ => broken("usage"),
    }
    if let Some(only) = args.iter().find_map(|a| a.strip_prefix("--only=")) {
        let (c, j) = only.split_once(':').unwrap_or((only, ""));
        plans.retain(|p| p.0.name == c);
        for p in &mut plans {
            p.2.retain(|w| j.is_empty() || format!("{w:?}").contains(j));
        }
    }
    let mut report = Report::new(&property, "fault_enumeration");
    let mut bases = vec![];
    let mut items = vec![];
    for (c, s, whats) in plans {
        let base = if s == ["EMPTY"] {
            let mut model = Table::new(&["id", "p", "v"]);
            model.empty_is_null = c.format == "delta" && !c.partitioned.is_empty();
            Ok(Base { config: c.clone(), image: Image::default(), model, seed: vec![] })
        } else {
            Base::new(c.clone(), &s, &ops)
        };
        match base {
            Ok(b) => {
                for w in whats {
                    items.push(Item { base: bases.len(), what: w });
                }
                bases.push(b);
            }
            Err(e) => {
                report.fail(&format!("{}:setup", c.name), &format!("cannot prepare the table: {e}"), json!(s));
            }
        }
    }
    let outs = par(items, |_| (), |_, _, it| {
        let t = std::time::Instant::now();
        let o = run_item(&bases, it, &ops, &creates, th);
        if std::env::var("SAILMC_V").is_ok() {
            eprintln!("{} {:?} {:?} runs {} points {} missed {} {:?} {:#?}", bases[it.base].config.name, it.what, t.elapsed(), o.runs, o.points, o.missed, o.classes, o.hits);
        }
        o
    });
    let mut states = BTreeSet::new();
    let (mut runs, mut points, mut pairs, mut reads, mut missed) = (0, 0, 0, 0, 0);
    let mut hits = BTreeSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let scenarios = outs.len();
    for o in outs {
        runs += o.runs;
        points += o.points;
        pairs += o.pairs;
        reads += o.reads_checked;
        missed += o.missed;
        states.extend(o.states);
        hits.extend(o.hits);
        for (k, v) in o.classes {
            *classes.entry(k).or_default() += v;
        }
        for (k, w, r) in o.fails {
            report.fail(&k, &w, r);
        }
    }
    report.set("evaluations", runs);
    report.set("distinct_nontrivial", states.len());
    report.set("rule", "one evaluation runs one statement with one fault plan: each request of the statement fails without effect, fails after its effect, or is the last thing the process does (before or after its effect); distinct_nontrivial counts distinct (statement, faulted request kind, outcome, resulting state)");
    report.set("statements", scenarios);
    report.set("fault_points", points);
    report.set("fault_pairs", pairs);
    report.set("faults_not_reached", missed);
    report.set("tables_reopened_and_compared", reads);
    report.set("distinct_fault_kinds", hits.len());
    report.set("outcome_classes", json!(classes));
    report.set("exhaustive", true);
    report.sample(json!(hits.iter().take(12).collect::<Vec<_>>()));
    report.finish()
}
