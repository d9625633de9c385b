//! Statement sequences on lakehouse tables against a reference model.
//! usage: tables <property> (delta|iceberg) [--thorough]
use crate::par::par;
use crate::report::*;
use crate::sess::*;
use crate::tables::*;
use serde_json::json;

fn all_delta() -> Vec<OpDef> {
    vec![
        op_ins_v(), op_ins_n(), op_ins_sel(), op_del_id(), op_del_p(), op_del_pnull(), op_del_or(), op_del_v(),
        op_del_all(), op_mrg_up(), op_mrg_cond(), op_mrg_dup(), op_ovw(), op_ovw_self(), op_repl(), op_repl_null(),
        op_repl_v(), op_app_path(), op_props(), op_check(), op_ins_bad(), op_evolve(), op_ovw_schema(),
    ]
}
fn pick(names: &[&str]) -> Vec<OpDef> {
    let mut all = all_delta();
    all.push(op_mrg_del());
    all.retain(|o| names.contains(&o.name));
    assert_eq!(all.len(), names.len());
    all
}
fn lab(name: &'static str, format: &'static str, partitioned: &'static str, props: &'static str, ops: Vec<OpDef>, depth: usize) -> Lab {
    Lab { config: Config { name, format, partitioned, props }, ops, depth, seed: vec![], by_path: false, engine: Engine::default() }
}
/// Every sequence starts with these operations.
fn seeded(mut l: Lab, ops: &[&str]) -> Lab {
    l.seed = ops.iter().map(|o| l.op(o)).collect();
    l
}
/// Rows arrive in batches of two; with one partition, files hold several batches.
fn small(mut l: Lab, partitions: usize) -> Lab {
    l.engine = Engine { batch: 2, partitions };
    l
}
fn by_path(mut l: Lab) -> Lab {
    l.by_path = true;
    l
}

const PART: &str = "partitioned by (p)";

fn delta_labs(th: bool) -> Vec<Lab> {
    let d = if th { 3 } else { 2 };
    let all: Vec<&str> = vec![
        "insV", "insN", "insSel", "delId", "delP", "delPNull", "delOr", "delV", "delAll", "mrgUp", "mrgCond",
        "mrgDup", "ovw", "ovwSelf", "repl", "replV", "props", "check", "insNeg",
    ];
    let core: Vec<&str> = vec!["insV", "insN", "delId", "delOr", "delV", "mrgUp", "mrgCond", "ovw", "repl"];
    let path: Vec<&str> = vec!["insV", "appPath", "evolve", "ovwSchema", "replV"];
    let rows = &["insV", "insN"];
    let mut v = vec![
        lab("part", "delta", PART, "", pick(&core), d + 1),
        seeded(lab("plain", "delta", "", "", pick(&all), d), rows),
        seeded(lab("part-all", "delta", PART, "", pick(&all), d), rows),
        by_path(lab("path", "delta", PART, "", pick(&path), d + 1)),
        by_path(lab("path-map", "delta", "", "'delta.columnMapping.mode'='name'", pick(&path), d + 1)),
    ];
    v.push(seeded(lab("replace", "delta", "", "", pick(&["insV", "insN", "replNull"]), 1), rows));
    if th {
        v.push(lab("part-deep", "delta", PART, "'delta.checkpointInterval'='2'", pick(&["insV", "insN", "delId", "mrgUp", "ovw"]), 5));
    }
    v
}

fn delta_feature_labs(th: bool) -> Vec<Lab> {
    let d = if th { 3 } else { 2 };
    let core: Vec<&str> = vec!["insV", "insN", "delId", "delOr", "delV", "mrgUp", "mrgCond", "ovw", "repl"];
    let dv: Vec<&str> = vec![
        "insV", "insN", "insSel", "delId", "delP", "delPNull", "delOr", "delV", "delAll", "mrgDel", "ovw",
        "ovwSelf", "repl", "props", "check", "insNeg",
    ];
    let rows = &["insV", "insN"];
    vec![
        seeded(lab("dv", "delta", PART, "'delta.enableDeletionVectors'='true','delta.checkpointInterval'='2'", pick(&["insV", "insN", "delId", "delPNull", "delOr", "delV", "mrgDel", "repl"]), d), rows),
        small(seeded(lab("dv-plain", "delta", "", "'delta.enableDeletionVectors'='true'", pick(&dv), d), rows), 1),
        seeded(lab("map-name", "delta", PART, "'delta.columnMapping.mode'='name','delta.checkpointInterval'='1'", pick(&core), d), rows),
        small(seeded(lab("map-id", "delta", "", "'delta.columnMapping.mode'='id','delta.enableDeletionVectors'='true'", pick(&["insV", "insN", "insSel", "delId", "delV", "mrgDel", "ovw", "repl"]), d), rows), 1),
        seeded(lab("v2ckpt", "delta", PART, "'delta.checkpointPolicy'='v2','delta.checkpointInterval'='2'", pick(&core), d), rows),
        small(seeded(lab("mad", "delta", PART, "'option.metadataAsDataRead'='true','delta.checkpointInterval'='2'", pick(&core), d), rows), 0),
        small(seeded(lab("ict", "delta", PART, "'delta.enableInCommitTimestamps'='true','delta.checkpointInterval'='3','option.targetFileSize'='1','option.writeBatchSize'='1'", pick(&core), d), rows), 1),
    ]
}

fn iceberg_labs(th: bool) -> Vec<Lab> {
    let d = if th { 4 } else { 3 };
    let mor = "'write.delete.mode'='merge-on-read','write.merge.mode'='merge-on-read'";
    let ops = || pick(&["insV", "insN", "insSel", "mrgUp", "mrgCond", "mrgDup", "ovw", "ovwSelf", "props"]);
    vec![
        lab("ice-part", "iceberg", PART, mor, ops(), d),
        small(lab("ice-plain", "iceberg", "", mor, pick(&["insV", "insN", "insSel", "delId", "delPNull", "delOr", "delV", "mrgUp", "mrgCond", "ovw"]), d), 1),
    ]
}

pub fn main(args: &[String]) {
    let property = args.first().cloned().unwrap_or_else(|| broken("usage"));
    let th = thorough();
    let mut labs: Vec<Lab> = match args.get(1).map(String::as_str) {
        Some("delta") => delta_labs(th),
        Some("delta-features") => delta_feature_labs(th),
        Some("iceberg") => iceberg_labs(th),
        _ => broken("usage"),
    };
    if let Some(only) = args.iter().find_map(|a| a.strip_prefix("--only=")) {
        labs.retain(|l| l.config.name == only);
    }
    let mut report = Report::new(&property, "exploration");
    let mut items = vec![];
    for (l, lab) in labs.iter().enumerate() {
        for a in 0..lab.ops.len() {
            let mut seq = lab.seed.clone();
            seq.push(a);
            if lab.depth <= 2 {
                items.push((l, seq));
            } else {
                for b in 0..lab.ops.len() {
                    items.push((l, [seq.clone(), vec![b]].concat()));
                }
            }
        }
    }
    let out = par(items, Bench::new, |bench, _, (l, prefix)| (*l, labs[*l].run_prefix(bench, prefix)));
    let mut total = Tally::default();
    let mut per = serde_json::Map::new();
    for (l, lab) in labs.iter().enumerate() {
        let mut t = Tally::default();
        for o in out.iter().filter(|o| o.0 == l) {
            t.merge(o.1.clone());
        }
        per.insert(
            lab.config.name.to_string(),
            json!({"config": format!("{:?}", lab.config), "alphabet": lab.ops.iter().map(|o| o.name).collect::<Vec<_>>(),
                   "depth": lab.depth, "after": lab.seed.iter().map(|o| lab.ops[*o].name).collect::<Vec<_>>(), "sequences": t.sequences, "prefixes_verified": t.nodes,
                   "model_states": t.states.len(), "pruned_after_failure": t.pruned}),
        );
        total.merge(t);
    }
    let subsets = super::subsets::explore(if args.iter().any(|a| a.starts_with("--only=")) { "" } else { &args[1] }, th);
    for (key, what, replay) in &subsets.fails {
        report.fail(key, what, replay.clone());
    }
    report.set("row_subset_sequences", subsets.sequences);
    report.set("row_subset_deletes", subsets.statements);
    for (key, what, replay) in &total.fails {
        report.fail(key, what, replay.clone());
    }
    report.set("evaluations", total.sequences);
    report.set("distinct_nontrivial", total.states.len());
    report.set("rule", "every sequence of statements of the configuration's alphabet up to its depth; distinct_nontrivial counts distinct (model contents, length) pairs verified");
    report.set("exhaustive", total.pruned == 0);
    report.set("prefixes_verified", total.nodes);
    report.set("statements_executed", total.statements);
    report.set("queries_compared", total.queries);
    report.set("historic_versions_compared", total.versions_checked);
    report.set("statements_rejected_as_required", total.rejected);
    report.set("configurations", per);
    report.sample(json!({"sequence": "create; insV; delV; select"}));
    report.finish()
}
