//! Reference model of a lakehouse table and a bounded exploration of statement
//! sequences against the real engine.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

use futures::FutureExt;
use serde_json::json;

use crate::rows::Row;
use crate::sess::*;
use crate::store::*;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Cell {
    Null,
    Int(i64),
    Str(String),
}
pub use Cell::*;

impl Cell {
    pub fn s(x: &str) -> Cell {
        Str(x.to_string())
    }
    pub fn show(&self) -> String {
        match self {
            Null => "NULL".into(),
            Int(i) => i.to_string(),
            Str(s) => s.clone(),
        }
    }
    pub fn sql(&self) -> String {
        match self {
            Null => "NULL".into(),
            Int(i) => i.to_string(),
            Str(s) => format!("'{s}'"),
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            Int(i) => Some(*i),
            _ => None,
        }
    }
}

/// Three-valued comparison.
pub fn cmp3(a: &Cell, b: &Cell, f: impl Fn(std::cmp::Ordering) -> bool) -> Option<bool> {
    match (a, b) {
        (Null, _) | (_, Null) => None,
        _ => Some(f(a.cmp(b))),
    }
}
pub fn eq3(a: &Cell, b: &Cell) -> Option<bool> {
    cmp3(a, b, |o| o.is_eq())
}
pub fn is_true(x: Option<bool>) -> bool {
    x == Some(true)
}

pub type Rec = Vec<Cell>;

/// Contents of a table: rows over (id, p, v) and, after schema evolution, w.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Table {
    pub cols: Vec<String>,
    pub rows: Vec<Rec>,
    /// CHECK (id > 0) has been added
    pub check: bool,
    /// Delta Lake stores an empty-string partition value as NULL (its protocol says so)
    pub empty_is_null: bool,
}

impl Table {
    pub fn new(cols: &[&str]) -> Self {
        Table { cols: cols.iter().map(|s| s.to_string()).collect(), ..Default::default() }
    }
    pub fn bag(&self) -> Vec<Row> {
        crate::rows::sorted(self.rows.iter().map(|r| r.iter().map(Cell::show).collect()).collect())
    }
    pub fn push(&mut self, rows: &[Rec]) {
        for r in rows {
            let mut r = r.clone();
            r.resize(self.cols.len(), Null);
            if self.empty_is_null && r[P] == Str(String::new()) {
                r[P] = Null;
            }
            self.rows.push(r);
        }
    }
}

pub const ID: usize = 0;
pub const P: usize = 1;
pub const V: usize = 2;

/// What the reference says about a statement.
pub enum Expect {
    /// succeeds; number of affected rows if the statement reports it
    Ok(Option<u64>),
    /// must be rejected and leave the table as it was
    Reject,
}

pub enum Stmt {
    Sql(String),
    Write(String, WriteSpec),
}

pub struct OpDef {
    pub name: &'static str,
    pub stmt: fn(&Names) -> Stmt,
    pub model: fn(&mut Table) -> Expect,
}

/// Names a statement may refer to.
pub struct Names {
    pub table: String,
    pub path: String,
    pub format: String,
}

pub fn lit(rows: &[Rec]) -> String {
    rows.iter()
        .map(|r| format!("({})", r.iter().map(Cell::sql).collect::<Vec<_>>().join(",")))
        .collect::<Vec<_>>()
        .join(",")
}

fn r3(id: Cell, p: Cell, v: Cell) -> Rec {
    vec![id, p, v]
}

pub fn rows_v() -> Vec<Rec> {
    vec![
        r3(Int(1), Cell::s("a"), Int(10)),
        r3(Int(2), Cell::s("b"), Int(20)),
        r3(Int(6), Cell::s("a"), Int(5)),
    ]
}
pub fn rows_n() -> Vec<Rec> {
    vec![
        r3(Int(3), Null, Int(30)),
        r3(Int(4), Cell::s("x/y=z %"), Null),
        r3(Int(7), Cell::s(""), Int(-7)),
        r3(Int(8), Null, Null),
    ]
}
fn src_up() -> Vec<Rec> {
    vec![r3(Int(1), Cell::s("b"), Int(11)), r3(Int(5), Null, Int(50)), r3(Int(3), Cell::s("a"), Null)]
}
fn src_cond() -> Vec<Rec> {
    vec![
        r3(Int(1), Cell::s("a"), Int(9)),
        r3(Int(2), Cell::s("b"), Int(99)),
        r3(Int(6), Cell::s("q"), Int(6)),
        r3(Int(9), Cell::s("c"), Int(90)),
        r3(Int(-1), Cell::s("c"), Int(1)),
    ]
}
fn ovw_rows() -> Vec<Rec> {
    vec![r3(Int(7), Cell::s("q"), Int(70)), r3(Int(1), Cell::s("b"), Null)]
}
fn repl_rows() -> Vec<Rec> {
    vec![r3(Int(10), Cell::s("a"), Int(100))]
}
fn evo_rows() -> Vec<Rec> {
    vec![vec![Int(12), Cell::s("a"), Int(12), Int(7)], vec![Int(13), Null, Int(13), Null]]
}

fn insert(t: &mut Table, rows: &[Rec]) -> Expect {
    if t.cols.len() > rows[0].len() && rows[0].len() == 3 {
        // INSERT ... VALUES must match the number of columns
        return Expect::Reject;
    }
    if t.check && rows.iter().any(|r| matches!(r[ID], Int(i) if i <= 0)) {
        return Expect::Reject;
    }
    t.push(rows);
    Expect::Ok(Some(rows.len() as u64))
}

/// Row counts reported by DELETE, MERGE and replacing writes count rewritten rows: not specified.
fn uncounted(e: Expect) -> Expect {
    match e {
        Expect::Ok(_) => Expect::Ok(None),
        e => e,
    }
}

fn delete(t: &mut Table, f: impl Fn(&Rec) -> Option<bool>) -> Expect {
    t.rows.retain(|r| !is_true(f(r)));
    Expect::Ok(None)
}

pub fn op_ins_v() -> OpDef {
    OpDef {
        name: "insV",
        stmt: |n| Stmt::Sql(format!("insert into {} values {}", n.table, lit(&rows_v()))),
        model: |t| insert(t, &rows_v()),
    }
}
pub fn op_ins_n() -> OpDef {
    OpDef {
        name: "insN",
        stmt: |n| Stmt::Sql(format!("insert into {} values {}", n.table, lit(&rows_n()))),
        model: |t| insert(t, &rows_n()),
    }
}
pub fn op_ins_sel() -> OpDef {
    OpDef {
        name: "insSel",
        stmt: |n| {
            Stmt::Sql(format!(
                "insert into {0} by name select v+1 as v, p, id+10 as id from {0} where id < 4",
                n.table
            ))
        },
        model: |t| {
            if t.cols.len() > 3 {
                return Expect::Reject;
            }
            let new: Vec<Rec> = t
                .rows
                .iter()
                .filter(|r| is_true(cmp3(&r[ID], &Int(4), |o| o.is_lt())))
                .map(|r| {
                    r3(
                        r[ID].int().map(|i| Int(i + 10)).unwrap_or(Null),
                        r[P].clone(),
                        r[V].int().map(|i| Int(i + 1)).unwrap_or(Null),
                    )
                })
                .collect();
            t.push(&new);
            Expect::Ok(Some(new.len() as u64))
        },
    }
}
pub fn op_del_id() -> OpDef {
    OpDef {
        name: "delId",
        stmt: |n| Stmt::Sql(format!("delete from {} where id = 1", n.table)),
        model: |t| delete(t, |r| eq3(&r[ID], &Int(1))),
    }
}
pub fn op_del_p() -> OpDef {
    OpDef {
        name: "delP",
        stmt: |n| Stmt::Sql(format!("delete from {} where p = 'a'", n.table)),
        model: |t| delete(t, |r| eq3(&r[P], &Cell::s("a"))),
    }
}
pub fn op_del_or() -> OpDef {
    OpDef {
        name: "delOr",
        stmt: |n| Stmt::Sql(format!("delete from {} where p is null or p > 'a' or id = 1", n.table)),
        model: |t| {
            delete(t, |r| {
                Some(
                    r[P] == Null
                        || is_true(cmp3(&r[P], &Cell::s("a"), |o| o.is_gt()))
                        || is_true(eq3(&r[ID], &Int(1))),
                )
            })
        },
    }
}
pub fn op_del_pnull() -> OpDef {
    OpDef {
        name: "delPNull",
        stmt: |n| Stmt::Sql(format!("delete from {} where p is null and id < 5", n.table)),
        model: |t| {
            delete(t, |r| Some(r[P] == Null && is_true(cmp3(&r[ID], &Int(5), |o| o.is_lt()))))
        },
    }
}
pub fn op_del_v() -> OpDef {
    OpDef {
        name: "delV",
        stmt: |n| Stmt::Sql(format!("delete from {} where v <> 20", n.table)),
        model: |t| delete(t, |r| cmp3(&r[V], &Int(20), |o| o.is_ne())),
    }
}
pub fn op_del_all() -> OpDef {
    OpDef {
        name: "delAll",
        stmt: |n| Stmt::Sql(format!("delete from {} where true", n.table)),
        model: |t| delete(t, |_| Some(true)),
    }
}
fn using(rows: &[Rec]) -> String {
    format!("using (select * from values {} as s(id,p,v)) s on t.id = s.id", lit(rows))
}
pub fn op_mrg_up() -> OpDef {
    OpDef {
        name: "mrgUp",
        stmt: |n| {
            Stmt::Sql(format!(
                "merge into {} t {} when matched then update set * when not matched then insert *",
                n.table,
                using(&src_up())
            ))
        },
        model: |t| {
            if t.cols.len() > 3 {
                return Expect::Reject;
            }
            let mut ins = vec![];
            let old = t.rows.clone();
            for s in src_up() {
                if !old.iter().any(|r| is_true(eq3(&r[ID], &s[ID]))) {
                    ins.push(s);
                }
            }
            for r in &mut t.rows {
                if let Some(s) = src_up().into_iter().find(|s| is_true(eq3(&r[ID], &s[ID]))) {
                    *r = s;
                }
            }
            t.push(&ins);
            Expect::Ok(None)
        },
    }
}
pub fn op_mrg_cond() -> OpDef {
    OpDef {
        name: "mrgCond",
        stmt: |n| {
            Stmt::Sql(format!(
                "merge into {} t {} \
                 when matched and t.v < s.v then update set v = s.v + 1, p = 'm' \
                 when matched and s.v = 9 then delete \
                 when not matched and s.id > 5 then insert (id, p, v) values (s.id, s.p, s.v - 1) \
                 when not matched by source and t.p = 'b' then update set v = t.v + 100 \
                 when not matched by source and t.v is null then delete",
                n.table,
                using(&src_cond())
            ))
        },
        model: |t| {
            let src = src_cond();
            let mut ins: Vec<Rec> = vec![];
            for s in &src {
                let matched = t.rows.iter().any(|r| is_true(eq3(&r[ID], &s[ID])));
                if !matched && is_true(cmp3(&s[ID], &Int(5), |o| o.is_gt())) {
                    ins.push(r3(s[ID].clone(), s[P].clone(), Int(s[V].int().unwrap_or(0) - 1)));
                }
            }
            let mut out = vec![];
            for r in &t.rows {
                let mut r = r.clone();
                match src.iter().find(|s| is_true(eq3(&r[ID], &s[ID]))) {
                    Some(s) => {
                        if is_true(cmp3(&r[V], &s[V], |o| o.is_lt())) {
                            r[V] = Int(s[V].int().unwrap_or(0) + 1);
                            r[P] = Cell::s("m");
                        } else if is_true(eq3(&s[V], &Int(9))) {
                            continue;
                        }
                    }
                    None => {
                        if is_true(eq3(&r[P], &Cell::s("b"))) {
                            r[V] = r[V].int().map(|v| Int(v + 100)).unwrap_or(Null);
                        } else if r[V] == Null {
                            continue;
                        }
                    }
                }
                out.push(r);
            }
            t.rows = out;
            t.push(&ins);
            Expect::Ok(None)
        },
    }
}
pub fn op_mrg_del() -> OpDef {
    OpDef {
        name: "mrgDel",
        stmt: |n| {
            Stmt::Sql(format!(
                "merge into {} t {} when matched and t.v = 10 then delete",
                n.table,
                using(&src_up())
            ))
        },
        model: |t| {
            delete(t, |r| {
                Some(
                    src_up().iter().any(|s| is_true(eq3(&r[ID], &s[ID])))
                        && is_true(eq3(&r[V], &Int(10))),
                )
            })
        },
    }
}
/// Several source rows match one target row: the statement must be refused.
pub fn op_mrg_dup() -> OpDef {
    OpDef {
        name: "mrgDup",
        stmt: |n| {
            Stmt::Sql(format!(
                "merge into {} t {} when matched then update set v = s.v",
                n.table,
                using(&[
                    r3(Int(2), Cell::s("b"), Int(1)),
                    r3(Int(2), Cell::s("b"), Int(2)),
                    r3(Int(7), Cell::s("b"), Int(3)),
                ])
            ))
        },
        model: |t| {
            if t.rows.iter().any(|r| r[ID] == Int(2)) {
                return Expect::Reject;
            }
            for r in &mut t.rows {
                if r[ID] == Int(7) {
                    r[V] = Int(3);
                }
            }
            Expect::Ok(None)
        },
    }
}
pub fn op_ovw() -> OpDef {
    OpDef {
        name: "ovw",
        stmt: |n| Stmt::Sql(format!("insert overwrite {} values {}", n.table, lit(&ovw_rows()))),
        model: |t| {
            if t.cols.len() > 3 {
                return Expect::Reject;
            }
            t.rows = vec![];
            insert(t, &ovw_rows())
        },
    }
}
pub fn op_ovw_self() -> OpDef {
    OpDef {
        name: "ovwSelf",
        stmt: |n| {
            Stmt::Sql(format!(
                "insert overwrite {0} by name select id, p, v * 2 as v from {0} where v is not null",
                n.table
            ))
        },
        model: |t| {
            if t.cols.len() > 3 {
                return Expect::Reject;
            }
            t.rows.retain(|r| r[V] != Null);
            for r in &mut t.rows {
                r[V] = Int(r[V].int().unwrap_or(0) * 2);
            }
            Expect::Ok(Some(t.rows.len() as u64))
        },
    }
}
pub fn op_repl() -> OpDef {
    OpDef {
        name: "repl",
        stmt: |n| {
            Stmt::Sql(format!(
                "insert into {} replace where p <=> 'a' select * from values {} as s(id,p,v)",
                n.table,
                lit(&repl_rows())
            ))
        },
        model: |t| {
            if t.cols.len() > 3 {
                return Expect::Reject;
            }
            t.rows.retain(|r| !is_true(eq3(&r[P], &Cell::s("a"))));
            uncounted(insert(t, &repl_rows()))
        },
    }
}
pub fn op_repl_v() -> OpDef {
    OpDef {
        name: "replV",
        stmt: |n| {
            Stmt::Write(
                format!("select * from values {} as s(id,p,v)", lit(&repl_rows())),
                WriteSpec {
                    format: n.format.clone(),
                    target: Target::Path(n.path.clone()),
                    mode: Some(spec::SaveMode::Overwrite),
                    partition_by: vec![],
                    options: vec![("replaceWhere".into(), "id >= 3".into())],
                },
            )
        },
        model: |t| {
            if t.cols.len() > 3 {
                // fewer columns than the table: covered by schema evolution checks only
                return Expect::Reject;
            }
            t.rows.retain(|r| !is_true(cmp3(&r[ID], &Int(3), |o| o.is_ge())));
            uncounted(insert(t, &repl_rows()))
        },
    }
}
/// The predicate is NULL for some rows of the table: these are not replaced.
pub fn op_repl_null() -> OpDef {
    OpDef {
        name: "replNull",
        stmt: |n| {
            Stmt::Sql(format!(
                "insert into {} replace where v >= 20 select * from values (10, 'a', 100L) as s(id,p,v)",
                n.table
            ))
        },
        model: |t| {
            t.rows.retain(|r| !is_true(cmp3(&r[V], &Int(20), |o| o.is_ge())));
            uncounted(insert(t, &[vec![Int(10), Cell::s("a"), Int(100)]]))
        },
    }
}
pub fn op_props() -> OpDef {
    OpDef {
        name: "props",
        stmt: |n| Stmt::Sql(format!("alter table {} set tblproperties('foo'='bar')", n.table)),
        model: |_| Expect::Ok(None),
    }
}
pub fn op_check() -> OpDef {
    OpDef {
        name: "check",
        stmt: |n| Stmt::Sql(format!("alter table {} add constraint c check (id > 0)", n.table)),
        model: |t| {
            if t.check || t.rows.iter().any(|r| matches!(r[ID], Int(i) if i <= 0)) {
                return Expect::Reject;
            }
            t.check = true;
            Expect::Ok(None)
        },
    }
}
pub fn op_ins_bad() -> OpDef {
    OpDef {
        name: "insNeg",
        stmt: |n| Stmt::Sql(format!("insert into {} values (20,'a',1),(-1,'b',2)", n.table)),
        model: |t| {
            insert(
                t,
                &[r3(Int(20), Cell::s("a"), Int(1)), r3(Int(-1), Cell::s("b"), Int(2))],
            )
        },
    }
}
pub fn op_app_path() -> OpDef {
    OpDef {
        name: "appPath",
        stmt: |n| {
            Stmt::Write(
                format!("select cast(id as int) id, p, cast(v as int) v from values {} as s(id,p,v)", lit(&rows_n())),
                WriteSpec {
                    format: n.format.clone(),
                    target: Target::Path(n.path.clone()),
                    mode: Some(spec::SaveMode::Append),
                    partition_by: vec![],
                    options: vec![],
                },
            )
        },
        model: |t| {
            t.push(&rows_n());
            Expect::Ok(Some(4))
        },
    }
}
pub fn op_evolve() -> OpDef {
    OpDef {
        name: "evolve",
        stmt: |n| {
            Stmt::Write(
                format!(
                    "select cast(id as int) id, p, cast(v as int) v, cast(w as int) w from values {} as s(id,p,v,w)",
                    lit(&evo_rows())
                ),
                WriteSpec {
                    format: n.format.clone(),
                    target: Target::Path(n.path.clone()),
                    mode: Some(spec::SaveMode::Append),
                    partition_by: vec![],
                    options: vec![("mergeSchema".into(), "true".into())],
                },
            )
        },
        model: |t| {
            if t.cols.len() == 3 {
                t.cols.push("w".into());
                for r in &mut t.rows {
                    r.push(Null);
                }
            }
            t.push(&evo_rows());
            Expect::Ok(Some(2))
        },
    }
}
pub fn op_ovw_schema() -> OpDef {
    OpDef {
        name: "ovwSchema",
        stmt: |n| {
            Stmt::Write(
                format!(
                    "select cast(id as int) id, p, cast(v as int) v, cast(w as int) w from values {} as s(id,p,v,w)",
                    lit(&evo_rows())
                ),
                WriteSpec {
                    format: n.format.clone(),
                    target: Target::Path(n.path.clone()),
                    mode: Some(spec::SaveMode::Overwrite),
                    partition_by: vec![],
                    options: vec![("overwriteSchema".into(), "true".into())],
                },
            )
        },
        model: |t| {
            t.cols = ["id", "p", "v", "w"].map(String::from).to_vec();
            t.rows = vec![];
            // written without partition columns
            t.empty_is_null = false;
            t.push(&evo_rows());
            Expect::Ok(Some(2))
        },
    }
}

/// How a table is created.
#[derive(Clone, Debug)]
pub struct Config {
    pub name: &'static str,
    pub format: &'static str,
    pub partitioned: &'static str,
    pub props: &'static str,
}

pub struct Lab {
    pub config: Config,
    pub ops: Vec<OpDef>,
    /// operations every sequence starts with (indices into `ops`)
    pub seed: Vec<usize>,
    /// length of the explored sequences, after the seed
    pub depth: usize,
    /// read the table by its location rather than through the catalog, which keeps
    /// the schema it was created with
    pub by_path: bool,
    pub engine: Engine,
}

impl Lab {
    pub fn op(&self, name: &str) -> usize {
        self.ops
            .iter()
            .position(|o| o.name == name)
            .unwrap_or_else(|| crate::report::broken(&format!("no operation {name}")))
    }
    fn source(&self, n: &Names) -> String {
        if self.by_path { format!("{}.`{}`", self.config.format, n.path) } else { n.table.clone() }
    }
}

/// A worker's server, session and store.
pub struct Bench {
    pub rt: tokio::runtime::Runtime,
    pub server: Option<Server>,
    pub sess: Option<Sess>,
    pub store: SimStore,
    pub worker: usize,
    pub uses: usize,
    pub serial: usize,
    pub engine: Engine,
}

impl Bench {
    pub fn new(worker: usize) -> Self {
        let mut b = Bench {
            rt: current_thread(),
            server: None,
            sess: None,
            store: SimStore::new(Image::default()),
            worker,
            uses: 0,
            serial: 0,
            engine: Engine::default(),
        };
        b.restart(true);
        b
    }
    /// A fresh server process; with `wipe`, over an empty store.
    pub fn restart(&mut self, wipe: bool) {
        if wipe {
            self.store = SimStore::new(Image::default());
        }
        let store = self.store.clone();
        let engine = self.engine;
        let (server, sess) = self.rt.block_on(async move {
            let server = Server::start(engine.config());
            let sess = server.session("s").await.with_store("memory://sim", Arc::new(store));
            (server, sess)
        });
        self.server = Some(server);
        self.sess = Some(sess);
    }
    pub fn fresh_names(&mut self, format: &str) -> Names {
        self.uses += 1;
        self.serial += 1;
        if self.uses > 150 {
            self.uses = 0;
            self.restart(true);
        }
        let n = format!("t{}", self.serial);
        Names { path: format!("memory://sim/{n}"), table: n, format: format.to_string() }
    }
}

pub async fn limited<T>(f: impl Future<Output = Result<T, String>>) -> Result<T, String> {
    let f = std::panic::AssertUnwindSafe(f).catch_unwind();
    match tokio::time::timeout(Duration::from_secs(120), f).await {
        Ok(Ok(r)) => r,
        Ok(Err(_)) => Err("PANIC: the statement panicked".into()),
        Err(_) => Err("HANG: no answer within 120 s".into()),
    }
}

pub async fn exec(sess: &Sess, stmt: &Stmt) -> Result<Vec<Row>, String> {
    limited(async {
        let b = match stmt {
            Stmt::Sql(q) => sess.sql(q).await?,
            Stmt::Write(q, w) => sess.write(q, w).await?,
        };
        crate::rows::rows(&b)
    })
    .await
}

/// Latest committed version of a Delta table according to the log files.
pub fn delta_version(img: &Image, dir: &str) -> Option<i64> {
    let prefix = format!("{dir}/_delta_log/");
    img.map
        .keys()
        .filter_map(|p| {
            let s = p.to_string();
            let f = s.strip_prefix(&prefix)?.strip_suffix(".json")?.to_string();
            if f.len() == 20 { f.parse::<i64>().ok() } else { None }
        })
        .max()
}

/// Snapshot ids in commit order of an Iceberg table, from the latest metadata file.
pub fn iceberg_snapshots(img: &Image, dir: &str) -> Vec<i64> {
    let prefix = format!("{dir}/metadata/");
    let mut best: Option<(i64, serde_json::Value)> = None;
    for (p, e) in &img.map {
        let s = p.to_string();
        let Some(f) = s.strip_prefix(&prefix).and_then(|f| f.strip_suffix(".metadata.json")) else { continue };
        let Ok(v) = f.trim_start_matches('v').split('-').next().unwrap_or("").parse::<i64>() else { continue };
        if best.as_ref().is_none_or(|b| v > b.0) {
            if let Ok(j) = serde_json::from_slice(&e.data) {
                best = Some((v, j));
            }
        }
    }
    let Some((_, j)) = best else { return vec![] };
    let mut s: Vec<(i64, i64)> = j["snapshots"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| (x["sequence-number"].as_i64().unwrap_or(0), x["snapshot-id"].as_i64().unwrap_or(0)))
                .collect()
        })
        .unwrap_or_default();
    s.sort();
    s.into_iter().map(|x| x.1).collect()
}

#[derive(Default, Debug, Clone)]
pub struct Tally {
    pub sequences: u64,
    pub nodes: u64,
    pub statements: u64,
    pub queries: u64,
    pub versions_checked: u64,
    pub rejected: u64,
    pub pruned: u64,
    pub states: BTreeSet<u64>,
    pub fails: Vec<(String, String, serde_json::Value)>,
}

impl Tally {
    pub fn merge(&mut self, o: Tally) {
        self.sequences += o.sequences;
        self.nodes += o.nodes;
        self.statements += o.statements;
        self.queries += o.queries;
        self.versions_checked += o.versions_checked;
        self.rejected += o.rejected;
        self.pruned += o.pruned;
        self.states.extend(o.states);
        self.fails.extend(o.fails);
    }
}

pub fn hash_of(x: &impl std::fmt::Debug) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{x:?}").hash(&mut h);
    h.finish()
}

fn diff(expected: &[Row], got: &[Row]) -> String {
    let miss: Vec<_> = {
        let mut g = got.to_vec();
        expected
            .iter()
            .filter(|r| match g.iter().position(|x| x == *r) {
                Some(i) => {
                    g.remove(i);
                    false
                }
                None => true,
            })
            .cloned()
            .collect()
    };
    let extra: Vec<_> = {
        let mut e = expected.to_vec();
        got.iter()
            .filter(|r| match e.iter().position(|x| x == *r) {
                Some(i) => {
                    e.remove(i);
                    false
                }
                None => true,
            })
            .cloned()
            .collect()
    };
    format!("missing rows {miss:?}, unexpected rows {extra:?}")
}

pub fn select(t: &Table, from: &str) -> String {
    format!("select {} from {from}", t.cols.join(", "))
}

/// The queries compared with the reference after every new prefix.
pub fn probes(t: &Table, from: &str) -> Vec<(&'static str, String, Vec<Row>)> {
    let cols = t.cols.join(", ");
    let filt = |f: &dyn Fn(&Rec) -> Option<bool>| -> Vec<Row> {
        crate::rows::sorted(
            t.rows
                .iter()
                .filter(|r| is_true(f(r)))
                .map(|r| r.iter().map(Cell::show).collect())
                .collect(),
        )
    };
    let ints = |i: usize| t.rows.iter().filter_map(move |r| r[i].int());
    let show = |o: Option<i64>| o.map(|i| i.to_string()).unwrap_or("NULL".into());
    let pmin = t.rows.iter().filter(|r| r[P] != Null).map(|r| r[P].show()).min();
    let n = t.rows.len();
    let some = n.min(2);
    vec![
        ("select", select(t, from), t.bag()),
        (
            "limit",
            format!("select (select count(*) from (select id from {from} limit 2)), (select count(*) from (select {cols} from {from} limit {n})), (select count(v) from (select v from {from} where v is not null limit 2))"),
            vec![vec![some.to_string(), n.to_string(), t.rows.iter().filter(|r| r[V] != Null).count().min(2).to_string()]],
        ),
        (
            "aggregates",
            format!("select count(*), count(p), count(v), min(id), max(id), min(v), max(v), min(p) from {from}"),
            vec![vec![
                t.rows.len().to_string(),
                t.rows.iter().filter(|r| r[P] != Null).count().to_string(),
                t.rows.iter().filter(|r| r[V] != Null).count().to_string(),
                show(ints(ID).min()),
                show(ints(ID).max()),
                show(ints(V).min()),
                show(ints(V).max()),
                pmin.unwrap_or("NULL".into()),
            ]],
        ),
        (
            "filter-null",
            format!("select {cols} from {from} where v is null or p is null"),
            filt(&|r| Some(r[V] == Null || r[P] == Null)),
        ),
        (
            "filter-partition",
            format!("select {cols} from {from} where p = 'a' and id < 100"),
            filt(&|r| Some(is_true(eq3(&r[P], &Cell::s("a"))) && is_true(cmp3(&r[ID], &Int(100), |o| o.is_lt())))),
        ),
        (
            "filter-range",
            format!("select {cols} from {from} where v > 10 and p <> 'b'"),
            filt(&|r| {
                Some(
                    is_true(cmp3(&r[V], &Int(10), |o| o.is_gt()))
                        && is_true(cmp3(&r[P], &Cell::s("b"), |o| o.is_ne())),
                )
            }),
        ),
    ]
}

/// One execution's view of committed history: version or snapshot id -> contents.
pub type History = BTreeMap<i64, (usize, Table)>;

impl Lab {
    pub fn create_sql(&self, n: &Names) -> String {
        format!(
            "create table {} (id int, p string, v int) using {} {} location '{}' {}",
            n.table,
            self.config.format,
            self.config.partitioned,
            n.path,
            if self.config.props.is_empty() { String::new() } else { format!("tblproperties({})", self.config.props) }
        )
    }

    /// Explores every sequence that starts with `prefix`.
    pub fn run_prefix(&self, bench: &mut Bench, prefix: &[usize]) -> Tally {
        if bench.engine != self.engine {
            bench.engine = self.engine;
            bench.restart(true);
        }
        let mut tally = Tally::default();
        let mut verified: BTreeSet<Vec<usize>> = BTreeSet::new();
        let mut bad: BTreeSet<Vec<usize>> = BTreeSet::new();
        let free = self.seed.len() + self.depth - prefix.len();
        let mut suffix = vec![0usize; free];
        loop {
            let seq: Vec<usize> = prefix.iter().copied().chain(suffix.iter().copied()).collect();
            if (1..=seq.len()).any(|k| bad.contains(&seq[..k])) {
                tally.pruned += 1;
            } else {
                self.run_sequence(bench, &seq, prefix, &mut verified, &mut bad, &mut tally);
            }
            // next suffix
            let mut i = free;
            loop {
                if i == 0 {
                    return tally;
                }
                i -= 1;
                suffix[i] += 1;
                if suffix[i] < self.ops.len() {
                    break;
                }
                suffix[i] = 0;
            }
        }
    }

    fn run_sequence(
        &self,
        bench: &mut Bench,
        seq: &[usize],
        prefix: &[usize],
        verified: &mut BTreeSet<Vec<usize>>,
        bad: &mut BTreeSet<Vec<usize>>,
        tally: &mut Tally,
    ) {
        tally.sequences += 1;
        let names = bench.fresh_names(self.config.format);
        let dir = names.table.clone();
        let sess = bench.sess.clone().unwrap_or_else(|| crate::report::broken("no session"));
        let store = bench.store.clone();
        let label = |k: usize| {
            format!(
                "{}:{}",
                self.config.name,
                seq[..k].iter().map(|o| self.ops[*o].name).collect::<Vec<_>>().join(",")
            )
        };
        let ended = bench.rt.block_on(async {
            let mut log: Vec<String> = vec![];
            let mut model = Table::new(&["id", "p", "v"]);
            model.empty_is_null = self.config.format == "delta" && !self.config.partitioned.is_empty();
            let mut history = History::new();
            let create = self.create_sql(&names);
            log.push(create.clone());
            tally.statements += 1;
            if let Err(e) = exec(&sess, &Stmt::Sql(create)).await {
                tally.fails.push((
                    format!("{}:create", self.config.name),
                    format!("CREATE TABLE failed: {e}"),
                    json!(log),
                ));
                bad.insert(seq[..1].to_vec());
                return Err(());
            }
            self.note(&mut history, &store, &dir, 0, &model);
            for k in 1..=seq.len() {
                let op = &self.ops[seq[k - 1]];
                let stmt = (op.stmt)(&names);
                log.push(match &stmt {
                    Stmt::Sql(q) => q.clone(),
                    Stmt::Write(q, w) => format!("{w:?} <- {q}"),
                });
                // replays of an already verified prefix only rebuild its state
                let new = !verified.contains(&seq[..k]);
                let judge = new && (k >= prefix.len() || seq[k..].iter().all(|o| *o == 0));
                let before = model.clone();
                let expect = (op.model)(&mut model);
                if matches!(expect, Expect::Reject) {
                    model = before;
                    tally.rejected += 1;
                }
                tally.statements += 1;
                let got = exec(&sess, &stmt).await;
                let mut problem = None;
                match (&expect, &got) {
                    (Expect::Ok(n), Ok(rows)) => {
                        if let Some(n) = n {
                            if rows.len() == 1 && rows[0].len() == 1 && rows[0][0] != n.to_string() {
                                problem = Some(("count", format!("reported {} affected rows, expected {n}", rows[0][0])));
                            }
                        }
                    }
                    (Expect::Ok(_), Err(e)) => problem = Some(("error", format!("statement failed: {e}"))),
                    (Expect::Reject, Err(_)) => {}
                    (Expect::Reject, Ok(_)) => {
                        problem = Some(("accepted", "statement accepted, must be rejected".to_string()))
                    }
                }
                if problem.is_none() {
                    if let Some(e) = self.note(&mut history, &store, &dir, k, &model) {
                        problem = Some(("history", e));
                    }
                }
                if problem.is_none() && judge {
                    verified.insert(seq[..k].to_vec());
                    tally.nodes += 1;
                    tally.states.insert(hash_of(&(&model, k)));
                    for (what, q, want) in probes(&model, &self.source(&names)) {
                        tally.queries += 1;
                        match limited(sess.bag(&q)).await {
                            Ok(rows) if rows == want => {}
                            Ok(rows) => {
                                problem = Some((what, format!("`{q}`: {}", diff(&want, &rows))));
                                break;
                            }
                            Err(e) => {
                                problem = Some((what, format!("`{q}` failed: {e}")));
                                break;
                            }
                        }
                    }
                    // every committed version stays readable as it was committed
                    if problem.is_none() {
                        for (ver, (_, t)) in &history {
                            tally.queries += 1;
                            tally.versions_checked += 1;
                            let q = select(t, &format!("{} version as of {ver}", self.source(&names)));
                            match limited(sess.bag(&q)).await {
                                Ok(rows) if rows == t.bag() => {}
                                Ok(rows) => {
                                    problem = Some(("time-travel", format!("`{q}`: {}", diff(&t.bag(), &rows))));
                                    break;
                                }
                                Err(e) => {
                                    problem = Some(("time-travel", format!("`{q}` failed: {e}")));
                                    break;
                                }
                            }
                        }
                    }
                    // a reader that has never seen the table (moved, so nothing is cached)
                    if problem.is_none() && self.config.format == "delta" {
                        let moved = format!("{dir}m{k}");
                        store.copy_tree(&dir, &moved);
                        let from = format!("delta.`memory://sim/{moved}`");
                        let q = select(&model, &from);
                        tally.queries += 1;
                        match limited(sess.bag(&q)).await {
                            Ok(rows) if rows == model.bag() => {}
                            Ok(rows) => problem = Some(("cold", format!("cold `{q}`: {}", diff(&model.bag(), &rows)))),
                            Err(e) => problem = Some(("cold", format!("cold `{q}` failed: {e}"))),
                        }
                        store.remove_tree(&moved);
                    }
                }
                if let Some((what, msg)) = problem {
                    bad.insert(seq[..k].to_vec());
                    tally.fails.push((
                        format!("{}/{what}", label(k)),
                        msg,
                        json!({"statements": log, "expected": model.bag()}),
                    ));
                    return Err(());
                }
            }
            Ok(())
        });
        let _ = ended;
        store.remove_tree(&dir);
    }

    /// Records the version committed by the last statement; complains if it committed several.
    fn note(&self, h: &mut History, store: &SimStore, dir: &str, step: usize, t: &Table) -> Option<String> {
        let img = store.image();
        if self.config.format == "delta" {
            let Some(v) = delta_version(&img, dir) else {
                return if step == 0 { Some("CREATE TABLE left no log entry".into()) } else { None };
            };
            let last = h.keys().next_back().copied();
            match last {
                Some(l) if v > l + 1 => return Some(format!("one statement committed versions {} to {v}", l + 1)),
                Some(l) if v < l => return Some(format!("version went back from {l} to {v}")),
                Some(l) if v == l => {
                    if h[&l].1.rows != t.rows && h[&l].1.bag() != t.bag() {
                        return Some("statement succeeded without committing".into());
                    }
                    return None;
                }
                _ => {}
            }
            h.insert(v, (step, t.clone()));
        } else {
            let snaps = iceberg_snapshots(&img, dir);
            let new: Vec<i64> = snaps.iter().copied().filter(|s| !h.contains_key(s)).collect();
            if snaps.len() < h.len() {
                return Some("snapshots disappeared".into());
            }
            if new.len() > 1 {
                return Some(format!("one statement committed {} snapshots", new.len()));
            }
            for s in new {
                h.insert(s, (step, t.clone()));
            }
        }
        None
    }
}
