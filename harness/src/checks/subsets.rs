//! Deletes of every subset of the rows of a file that holds several batches.
use crate::par::par;
use crate::sess::*;
use crate::store::*;
use crate::tables::{Stmt, exec};
use serde_json::json;
use std::sync::Arc;

#[derive(Clone, Copy)]
pub struct Kind {
    pub name: &'static str,
    pub format: &'static str,
    pub props: &'static str,
    pub statement: fn(&str, &str) -> String,
}

fn delete(t: &str, ids: &str) -> String {
    format!("delete from {t} where id in ({ids})")
}
fn delete_other(t: &str, ids: &str) -> String {
    let not = (1..=20).filter(|i| !ids.split(',').any(|x| x == i.to_string())).map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    format!("delete from {t} where not (id in ({not}))")
}
fn merge(t: &str, ids: &str) -> String {
    let rows = ids.split(',').map(|i| format!("({i})")).collect::<Vec<_>>().join(",");
    format!("merge into {t} t using (select * from values {rows} as s(id)) s on t.id = s.id when matched then delete")
}

pub fn kinds(which: &str) -> Vec<Kind> {
    let dv = "'delta.enableDeletionVectors'='true'";
    let mor = "'write.delete.mode'='merge-on-read','write.merge.mode'='merge-on-read'";
    let k = |name, format, props, statement| Kind { name, format, props, statement };
    match which {
        "delta" => vec![k("rewrite", "delta", "", delete as fn(&str, &str) -> String), k("rewrite-merge", "delta", "", merge)],
        "delta-features" => vec![
            k("dv", "delta", dv, delete as fn(&str, &str) -> String),
            k("dv-merge", "delta", dv, merge),
            k("dv-map", "delta", "'delta.enableDeletionVectors'='true','delta.columnMapping.mode'='name','delta.checkpointInterval'='2'", delete_other),
        ],
        "iceberg" => vec![k("mor", "iceberg", mor, delete as fn(&str, &str) -> String), k("mor-merge", "iceberg", mor, merge)],
        _ => vec![],
    }
}

#[derive(Default)]
pub struct Out {
    pub fails: Vec<(String, String, serde_json::Value)>,
    pub sequences: u64,
    pub statements: u64,
}

/// Row i of the first file has id i + 1; a second file holds three more rows.
const SECOND: &str = "(11, 110), (12, 120), (13, 130)";

async fn one(kind: Kind, rows: u32, set: u32, out: &mut Out) -> Result<(), String> {
    let store = SimStore::new(Image::default());
    let server = Server::start(Engine { batch: 2, partitions: 1 }.config());
    let sess = server.session("s").await.with_store("memory://sim", Arc::new(store.clone()));
    let run = |sql: String| {
        let sess = sess.clone();
        async move { exec(&sess, &Stmt::Sql(sql.clone())).await.map_err(|e| format!("{sql}: {e}")) }
    };
    let props = if kind.props.is_empty() { String::new() } else { format!("tblproperties({})", kind.props) };
    run(format!("create table t (id int, v int) using {} location 'memory://sim/t' {props}", kind.format)).await?;
    let first: Vec<String> = (1..=rows).map(|i| format!("({i}, {})", i * 10)).collect();
    run(format!("insert into t values {}", first.join(", "))).await?;
    run(format!("insert into t values {SECOND}")).await?;
    let mut left: Vec<u32> = (1..=rows).chain([11, 12, 13]).collect();
    let mut steps: Vec<Vec<u32>> = vec![(1..=rows).filter(|i| set >> (i - 1) & 1 == 1).collect()];
    // then the rest: the last row of each file first, two at a time at the end
    let mut rest: Vec<u32> = left.iter().copied().filter(|i| !steps[0].contains(i)).collect();
    while let Some(x) = rest.pop() {
        let mut step = vec![x];
        if rest.len() == 2 {
            step.push(rest.remove(0));
        }
        steps.push(step);
    }
    steps.retain(|s| !s.is_empty());
    let mut done = vec![];
    for step in steps {
        let ids = step.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
        let sql = (kind.statement)("t", &ids);
        run(sql.clone()).await?;
        done.push(sql);
        left.retain(|i| !step.contains(i));
        let got = run("select id, v from t order by id".into()).await?;
        let want: Vec<Vec<String>> = left.iter().map(|i| vec![i.to_string(), (i * 10).to_string()]).collect();
        let count = run("select count(*) from t".into()).await?;
        out.statements += 1;
        if got != want || count != vec![vec![left.len().to_string()]] {
            return Err(format!("after {}: rows {got:?}, count {count:?}, expected {want:?}", done.join("; ")));
        }
    }
    Ok(())
}

pub fn explore(which: &str, thorough: bool) -> Out {
    let rows = if thorough { 8 } else { 5 };
    let items: Vec<(Kind, u32)> = kinds(which).into_iter().flat_map(|k| (0..1u32 << rows).map(move |s| (k, s))).collect();
    let outs = par(items, |_| (), |_, _, (kind, set)| {
        let mut out = Out { sequences: 1, ..Default::default() };
        let rt = current_thread();
        let result = rt.block_on(one(*kind, rows, *set, &mut out));
        std::mem::forget(rt);
        if let Err(e) = result {
            out.fails.push((format!("{}:subsets:{set}", kind.name), e, json!({"kind": kind.name, "set": set, "rows": rows})));
        }
        out
    });
    let mut total = Out::default();
    for o in outs {
        total.fails.extend(o.fails);
        total.sequences += o.sequences;
        total.statements += o.statements;
    }
    total
}
