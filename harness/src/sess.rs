//! In-process sessions of the system under test.
use std::sync::{Arc, OnceLock};
use std::time::Duration;

use arrow::array::RecordBatch;
use datafusion::common::Result as DfResult;
use datafusion::execution::SessionStateBuilder;
use datafusion::execution::runtime_env::RuntimeEnvBuilder;
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::StreamExt;
use object_store::ObjectStore;
use sail_common::actor::ActorSystem;
use sail_common::config::AppConfig;
pub use sail_common::spec;
use sail_common::runtime::RuntimeHandle;
use sail_common_datafusion::catalog::display::DefaultCatalogDisplay;
use sail_common_datafusion::extension::SessionExtensionAccessor;
use sail_common_datafusion::session::job::JobService;
use sail_common_datafusion::session::plan::PlanService;
use sail_plan::catalog::SparkCatalogObjectDisplay;
use sail_plan::config::PlanConfig;
use sail_plan::formatter::SparkPlanFormatter;
use sail_plan::resolve_and_execute_plan;
use sail_session::session_factory::{
    ServerSessionFactory, ServerSessionInfo, ServerSessionJobRunnerFactory, ServerSessionMutator,
};
use sail_session::session_manager::{
    SessionManager, SessionManagerComponents, SessionManagerOptions,
};
use sail_sql_analyzer::parser::parse_one_statement;
use sail_sql_analyzer::statement::from_ast_statement;
use sail_telemetry::telemetry::{ResourceOptions, global_system_event_reporter, init_telemetry};
use tokio::runtime::{Handle, Runtime};
use url::Url;

static TELEMETRY: OnceLock<Runtime> = OnceLock::new();

/// Process-wide initialisation (telemetry owns background tasks of its own).
pub fn init() {
    TELEMETRY.get_or_init(|| {
        // the harness environment must not leak into the configuration
        for (k, _) in std::env::vars() {
            if k.starts_with("SAIL_") {
                // SAFETY: called once before any other thread is started
                unsafe { std::env::remove_var(k) };
            }
        }
        if std::env::var("RUST_LOG").is_err() {
            unsafe { std::env::set_var("RUST_LOG", "off") };
        }
        pyo3::Python::initialize();
        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(1)
            .enable_all()
            .build()
            .expect("telemetry runtime");
        let config = config();
        rt.block_on(async {
            init_telemetry(&config.telemetry, ResourceOptions { kind: "server" })
        })
        .expect("telemetry");
        rt
    });
}

pub fn config() -> AppConfig {
    AppConfig::load().expect("config")
}

/// How a server executes plans: rows per batch and number of partitions (0: the default).
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Engine {
    pub batch: usize,
    pub partitions: usize,
}

impl Engine {
    pub fn config(self) -> AppConfig {
        let mut c = config();
        if self.batch > 0 {
            c.execution.batch_size = self.batch;
        }
        if self.partitions > 0 {
            c.execution.default_parallelism = self.partitions;
        }
        c
    }
}

struct Mutator;

impl ServerSessionMutator for Mutator {
    fn mutate_config(&self, config: SessionConfig, _: &ServerSessionInfo) -> DfResult<SessionConfig> {
        Ok(config.with_extension(Arc::new(PlanService::new(
            Box::new(DefaultCatalogDisplay::<SparkCatalogObjectDisplay>::default()),
            Box::new(SparkPlanFormatter),
        ))))
    }
    fn mutate_state(&self, b: SessionStateBuilder, _: &ServerSessionInfo) -> DfResult<SessionStateBuilder> {
        Ok(b)
    }
    fn mutate_runtime_env(&self, b: RuntimeEnvBuilder, _: &ServerSessionInfo) -> DfResult<RuntimeEnvBuilder> {
        Ok(b)
    }
}

/// One server "process": session manager plus sessions.
pub struct Server {
    pub manager: SessionManager,
    pub config: Arc<AppConfig>,
    _system: ActorSystem,
}

impl Server {
    /// Must be called inside a tokio runtime; everything runs on that runtime.
    pub fn start(config: AppConfig) -> Self {
        Self::start_with(config, None)
    }

    /// A server that runs jobs on an in-process cluster (driver, workers, loopback network).
    pub async fn start_cluster(mut config: AppConfig) -> Self {
        config.mode = sail_common::config::ExecutionMode::LocalCluster;
        let gateway = sail_execution::driver::DriverGateway::try_new(
            sail_execution::driver::DriverGatewayOptions::new(&config),
        )
        .await
        .expect("driver gateway");
        Self::start_with(config, Some(gateway))
    }

    fn start_with(
        config: AppConfig,
        driver_gateway: Option<sail_execution::driver::DriverGateway>,
    ) -> Self {
        init();
        let config = Arc::new(config);
        let h = Handle::current();
        let runtime = RuntimeHandle::new(h.clone(), h);
        let mut system = ActorSystem::new();
        let components = SessionManagerComponents {
            session_factory: Box::new(ServerSessionFactory::new(
                config.clone(),
                runtime.clone(),
                Box::new(Mutator),
            )),
            job_runner_factory: Box::new(ServerSessionJobRunnerFactory::new(
                config.clone(),
                runtime.clone(),
            )),
            driver_gateway,
            event_reporter: global_system_event_reporter().expect("event reporter"),
        };
        let options = SessionManagerOptions::new(runtime)
            .with_session_timeout(Duration::from_secs(100_000_000));
        let manager =
            SessionManager::try_new(options, components, &mut system).expect("session manager");
        Self { manager, config, _system: system }
    }

    pub async fn session(&self, id: &str) -> Sess {
        let ctx = self
            .manager
            .get_or_create_session_context(id.to_string(), "user".to_string())
            .await
            .expect("session");
        Sess { ctx, plan_config: Arc::new(plan_config()) }
    }
}

pub fn plan_config() -> PlanConfig {
    let mut c = PlanConfig::new().expect("plan config");
    c.default_warehouse_directory = "memory://sim/warehouse".to_string();
    c
}

pub fn parse(q: &str) -> Result<spec::Plan, String> {
    parse_one_statement(q).and_then(from_ast_statement).map_err(|e| format!("parse: {e}"))
}

#[derive(Clone, Debug)]
pub enum Target {
    Path(String),
    Table(String),
    InsertInto(String),
}

#[derive(Clone, Debug)]
pub struct WriteSpec {
    pub format: String,
    pub target: Target,
    pub mode: Option<spec::SaveMode>,
    pub partition_by: Vec<String>,
    pub options: Vec<(String, String)>,
}

#[derive(Clone)]
pub struct Sess {
    pub ctx: SessionContext,
    pub plan_config: Arc<PlanConfig>,
}

impl Sess {
    pub fn with_store(self, url: &str, store: Arc<dyn ObjectStore>) -> Self {
        let url = Url::parse(url).expect("url");
        self.ctx.runtime_env().register_object_store(&url, store);
        self
    }

    pub fn set_store(&self, url: &str, store: Arc<dyn ObjectStore>) {
        let url = Url::parse(url).expect("url");
        self.ctx.runtime_env().register_object_store(&url, store);
    }

    pub async fn sql(&self, q: &str) -> Result<Vec<RecordBatch>, String> {
        self.run(parse(q)?).await
    }

    pub async fn run(&self, plan: spec::Plan) -> Result<Vec<RecordBatch>, String> {
        let (plan, _) = resolve_and_execute_plan(&self.ctx, self.plan_config.clone(), plan)
            .await
            .map_err(|e| format!("plan: {e}"))?;
        let service = self.ctx.extension::<JobService>().map_err(|e| e.to_string())?;
        let mut stream =
            service.runner().execute(&self.ctx, plan).await.map_err(|e| format!("execute: {e}"))?;
        let mut out = vec![];
        while let Some(b) = stream.next().await {
            out.push(b.map_err(|e| format!("run: {e}"))?);
        }
        Ok(out)
    }

    /// `DataFrame.write` of the result of a query.
    pub async fn write(&self, q: &str, w: &WriteSpec) -> Result<Vec<RecordBatch>, String> {
        let spec::Plan::Query(input) = parse(q)? else { return Err("not a query".into()) };
        let plan = spec::Plan::Command(spec::CommandPlan::new(spec::CommandNode::Write(spec::Write {
            input: Box::new(input),
            source: Some(w.format.clone()),
            save_type: match &w.target {
                Target::Path(p) => spec::SaveType::Path(p.clone()),
                Target::Table(t) => spec::SaveType::Table {
                    table: spec::ObjectName::from(vec![t.clone()]),
                    save_method: spec::TableSaveMethod::SaveAsTable,
                },
                Target::InsertInto(t) => spec::SaveType::Table {
                    table: spec::ObjectName::from(vec![t.clone()]),
                    save_method: spec::TableSaveMethod::InsertInto,
                },
            },
            mode: w.mode.clone(),
            sort_columns: vec![],
            partitioning_columns: w
                .partition_by
                .iter()
                .map(|c| spec::Expr::UnresolvedAttribute {
                    name: spec::ObjectName::from(vec![c.clone()]),
                    plan_id: None,
                    is_metadata_column: false,
                })
                .collect(),
            clustering_columns: vec![],
            bucket_by: None,
            options: w.options.clone(),
        })));
        self.run(plan).await
    }

    /// Sorted rows.
    pub async fn bag(&self, q: &str) -> Result<Vec<crate::rows::Row>, String> {
        crate::rows::bag(&self.sql(q).await?)
    }

    pub async fn rows(&self, q: &str) -> Result<Vec<crate::rows::Row>, String> {
        crate::rows::rows(&self.sql(q).await?)
    }
}

/// A single-threaded runtime: together with the simulated store everything a
/// run does is a deterministic function of the choices made by the harness.
pub fn current_thread() -> Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .thread_stack_size(16 << 20)
        .build()
        .expect("runtime")
}

/// Run a closure on a thread with a stack large enough for unoptimised planners.
pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(f)
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| crate::report::broken("harness thread panicked"))
}
