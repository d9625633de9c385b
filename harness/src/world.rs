//! A table in a store image, and fresh processes that open it.
use std::sync::Arc;

use crate::sess::*;
use crate::store::*;
use crate::tables::*;

/// An initial table: the store image and its contents.
pub struct Base {
    pub config: Config,
    pub image: Image,
    pub model: Table,
    pub seed: Vec<&'static str>,
}

pub fn names(config: &Config) -> Names {
    Names { table: "t".into(), path: "memory://sim/t".into(), format: config.format.into() }
}

/// A fresh server process over the store.
pub async fn process(store: &SimStore) -> (Server, Sess) {
    let server = Server::start(config());
    let sess = server.session("s").await.with_store("memory://sim", Arc::new(store.clone()));
    (server, sess)
}

/// Makes the existing table known to a session.
///
/// An Iceberg table that exists cannot be created with columns, and one registered without
/// columns has no schema for row-level statements: the session registers it over an empty
/// location first, and gets its store afterwards.
pub async fn attach(config: &Config, sess: &Sess, store: &SimStore) -> Result<(), String> {
    if config.format != "iceberg" {
        return limited(sess.sql(&format!("create table t using {} location 'memory://sim/t'", config.format))).await.map(|_| ());
    }
    sess.set_store("memory://sim", Arc::new(SimStore::new(Image::default())));
    let lab = Lab { config: config.clone(), ops: vec![], seed: vec![], depth: 0, by_path: false, engine: Engine::default() };
    let r = limited(sess.sql(&lab.create_sql(&names(config)))).await.map(|_| ());
    sess.set_store("memory://sim", Arc::new(store.clone()));
    r
}

impl Base {
    pub fn new(config: Config, seed: &[&'static str], ops: &[OpDef]) -> Result<Base, String> {
        let lab = Lab { config: config.clone(), ops: vec![], seed: vec![], depth: 0, by_path: false, engine: Engine::default() };
        let rt = current_thread();
        let store = SimStore::new(Image::default());
        let mut model = Table::new(&["id", "p", "v"]);
        model.empty_is_null = config.format == "delta" && !config.partitioned.is_empty();
        let n = names(&config);
        rt.block_on(async {
            let (server, sess) = process(&store).await;
            limited(sess.sql(&lab.create_sql(&n))).await?;
            for s in seed {
                let op = ops.iter().find(|o| o.name == *s).ok_or("no such operation")?;
                exec(&sess, &(op.stmt)(&n)).await?;
                (op.model)(&mut model);
            }
            drop(server);
            Ok::<(), String>(())
        })?;
        Ok(Base { config, image: store.image(), model, seed: seed.to_vec() })
    }
}

/// The contents after applying operations in order, or None if one of them must be rejected.
pub fn serial(base: &Table, ops: &[&OpDef]) -> Option<Table> {
    let mut t = base.clone();
    for o in ops {
        if let Expect::Reject = (o.model)(&mut t) {
            return None;
        }
    }
    Some(t)
}

/// The contents each order of the operations can leave when a statement may read its
/// source rows from any earlier committed state (snapshot reads), with all intermediate
/// contents by number of applied operations.
pub fn stale_reads(base: &Table, ops: &[&OpDef]) -> Vec<Vec<Table>> {
    let mut runs = vec![vec![base.clone()]];
    for o in ops {
        let mut next = vec![];
        for run in &runs {
            let now = &run[run.len() - 1];
            for from in run {
                let t = match o.name {
                    "insSel" => {
                        let mut made = from.clone();
                        (o.model)(&mut made);
                        let mut t = now.clone();
                        t.rows.extend(made.rows[from.rows.len()..].iter().cloned());
                        t
                    }
                    "ovwSelf" => {
                        let mut made = from.clone();
                        (o.model)(&mut made);
                        made
                    }
                    _ => {
                        let mut t = now.clone();
                        if let Expect::Reject = (o.model)(&mut t) {
                            continue;
                        }
                        t
                    }
                };
                let mut r = run.clone();
                r.push(t);
                next.push(r);
            }
        }
        runs = next;
    }
    runs
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
