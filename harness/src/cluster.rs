//! A cluster in one process: the real driver and real workers over the loopback network, sharing a
//! simulated object store whose operations can be made to fail.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use arrow::array::RecordBatch;
use async_trait::async_trait;
use datafusion::execution::SendableRecordBatchStream;
use futures::StreamExt;
use sail_common::actor::ActorSystem;
use sail_common::config::AppConfig;
use sail_common::runtime::RuntimeHandle;
use sail_common_datafusion::session::job::JobRunner;
use sail_execution::DriverId;
use sail_execution::driver::{
    DriverComponents, DriverGateway, DriverGatewayOptions, DriverHandle, DriverOptions,
    DriverRegistryAccessor,
};
use sail_execution::job_runner::ClusterJobRunner;
use sail_execution::worker_manager::LocalWorkerManager;
use sail_plan::resolve_and_execute_plan;
use sail_session::session_factory::{SessionFactory, WorkerSessionFactory};
use sail_telemetry::telemetry::global_system_event_reporter;
use tokio::runtime::Handle;
use url::Url;

use crate::sess::{Server, Sess, parse};
use crate::store::{Act, Control, Op, SimStore};

struct One(DriverHandle);

#[async_trait]
impl DriverRegistryAccessor for One {
    async fn get(&self, _: DriverId) -> Result<DriverHandle, sail_execution::error::ExecutionError> {
        Ok(self.0.clone())
    }
}

pub struct Cluster {
    pub sess: Sess,
    pub runner: ClusterJobRunner,
    _server: Server,
    _system: ActorSystem,
    _gateway: DriverGateway,
}

impl Cluster {
    /// `store` backs `memory://sim` in the session and in every worker.
    pub async fn start(config: AppConfig, store: SimStore) -> Self {
        let server = Server::start(config.clone());
        let sess = server.session("s").await.with_store("memory://sim", Arc::new(store.clone()));
        let h = Handle::current();
        let runtime = RuntimeHandle::new(h.clone(), h);
        let worker = WorkerSessionFactory::new(Arc::new(config.clone()), runtime.clone())
            .create(())
            .expect("worker session");
        let url = Url::parse("memory://sim").expect("url");
        worker.runtime_env().register_object_store(&url, Arc::new(store));
        let mut gateway =
            DriverGateway::try_new(DriverGatewayOptions::new(&config)).await.expect("gateway");
        let options = DriverOptions::new(
            &config,
            runtime.clone(),
            "s".to_string(),
            DriverId::from(1u64),
            gateway.port(),
        );
        let components = DriverComponents {
            worker_manager: Box::new(LocalWorkerManager::new(runtime, worker)),
            event_reporter: global_system_event_reporter().expect("event reporter"),
        };
        let mut system = ActorSystem::new();
        let runner = ClusterJobRunner::new(&mut system, options, components);
        gateway.start(Arc::new(One(runner.driver())));
        runner.driver().activate().await.expect("activate");
        Self { sess, runner, _server: server, _system: system, _gateway: gateway }
    }

    /// Plans a statement in the session and starts it on the cluster.
    pub async fn submit(&self, q: &str) -> Result<SendableRecordBatchStream, String> {
        let (plan, _) =
            resolve_and_execute_plan(&self.sess.ctx, self.sess.plan_config.clone(), parse(q)?)
                .await
                .map_err(|e| format!("plan: {e}"))?;
        self.runner.execute(&self.sess.ctx, plan).await.map_err(|e| format!("execute: {e}"))
    }

    pub async fn sql(&self, q: &str) -> Result<Vec<RecordBatch>, String> {
        let mut s = self.submit(q).await?;
        let mut out = vec![];
        while let Some(b) = s.next().await {
            out.push(b.map_err(|e| format!("run: {e}"))?);
        }
        Ok(out)
    }
}

/// One operation of a run, independent of job numbers and generated names: the n-th one of its kind on
/// its path.
pub type Point = (crate::store::Kind, String, usize);

fn plain(path: &str) -> String {
    let mut out = String::new();
    for part in path.split('/') {
        if !out.is_empty() {
            out.push('/');
        }
        let digits = part.chars().filter(|c| c.is_ascii_hexdigit()).count();
        if part.starts_with("job-") {
            out.push_str("job");
        } else if digits >= 30 {
            // a generated file name
            let ext = part.split_once('.').map(|x| x.1).unwrap_or("");
            let head = part.split('-').next().unwrap_or("");
            out.push_str(&format!("{}*.{ext}", if head.len() < 8 { head } else { "" }));
        } else {
            out.push_str(part);
        }
    }
    out
}

#[derive(Default, Debug)]
struct FaultState {
    on: bool,
    /// a directory that goes by the name `X`
    alias: String,
    seen: BTreeMap<(crate::store::Kind, String), usize>,
    log: Vec<Point>,
    fault: Option<(Point, bool)>,
    hit: usize,
}

/// Numbers the operations and fails one of them, or it and all later ones on its path.
#[derive(Default, Debug)]
pub struct Faults(Mutex<FaultState>);

impl Faults {
    /// Starts a run; `fault` fails from the point on if the flag is set.
    pub fn arm(&self, alias: &str, fault: Option<(Point, bool)>) {
        let alias = alias.to_string();
        *self.0.lock().expect("lock") = FaultState { on: true, alias, fault, ..Default::default() };
    }
    /// Ends a run: its operations and the number of injected failures.
    pub fn disarm(&self) -> (Vec<Point>, usize) {
        let s = std::mem::take(&mut *self.0.lock().expect("lock"));
        (s.log, s.hit)
    }
}

#[async_trait]
impl Control for Faults {
    async fn gate(&self, op: &Op) -> Act {
        let mut s = self.0.lock().expect("lock");
        if !s.on {
            return Act::Go;
        }
        let path = match op.path.strip_prefix(&s.alias) {
            Some(rest) if !s.alias.is_empty() => format!("X{rest}"),
            _ => op.path.clone(),
        };
        let key = (op.kind, plain(&path));
        let n = s.seen.entry(key.clone()).or_default();
        *n += 1;
        let point = (key.0, key.1, *n);
        s.log.push(point.clone());
        let fail = match &s.fault {
            Some((p, false)) => *p == point,
            Some((p, true)) => (p.0, &p.1) == (point.0, &point.1) && point.2 >= p.2,
            None => false,
        };
        if fail {
            s.hit += 1;
            Act::Fail
        } else {
            Act::Go
        }
    }
}

pub fn points(log: &[Point]) -> BTreeSet<Point> {
    log.iter().cloned().collect()
}
