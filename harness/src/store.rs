//! A simulated object store with a shared state, one client per simulated
//! process, and a controller that sees (and can delay, fail or cut off) every
//! operation.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::ops::Range;
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use bytes::Bytes;
use chrono::{DateTime, TimeDelta, Utc};
use futures::StreamExt;
use futures::stream::BoxStream;
use object_store::path::Path;
use object_store::{
    Attributes, CopyMode, CopyOptions, Error, GetOptions, GetRange, GetResult, GetResultPayload,
    ListResult, MultipartUpload, ObjectMeta, ObjectStore, PutMode, PutMultipartOptions, PutOptions,
    PutPayload, PutResult, Result, UploadPart,
};

#[derive(Clone, Debug)]
pub struct Entry {
    pub data: Bytes,
    pub mtime: DateTime<Utc>,
    pub etag: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Image {
    pub map: BTreeMap<Path, Entry>,
    pub next: u64,
    /// added to the wall clock for new objects
    pub skew: TimeDelta,
}

impl Image {
    fn put(&mut self, p: &Path, data: Bytes) -> u64 {
        let e = self.next;
        self.next += 1;
        self.map.insert(p.clone(), Entry { data, mtime: Utc::now() + self.skew, etag: e });
        e
    }
    pub fn paths(&self) -> Vec<String> {
        self.map.keys().map(|p| p.to_string()).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Put,
    PutCreate,
    Get,
    Head,
    List,
    Delete,
    Copy,
    MultipartDone,
}

impl Kind {
    pub fn mutates(self) -> bool {
        matches!(self, Kind::Put | Kind::PutCreate | Kind::Delete | Kind::Copy | Kind::MultipartDone)
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub client: usize,
    pub kind: Kind,
    pub path: String,
}

/// What the controller decided for one operation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    /// perform it
    Go,
    /// do not perform it, report a failure
    Fail,
    /// perform it, but report a failure (the response was lost)
    GoFail,
    /// do not perform it and stop the process
    Die,
    /// perform it and stop the process before it learns the outcome
    GoDie,
}

#[async_trait]
pub trait Control: Send + Sync + fmt::Debug {
    async fn gate(&self, op: &Op) -> Act;
}

/// Performs every operation, recording nothing.
#[derive(Debug)]
pub struct Free;
#[async_trait]
impl Control for Free {
    async fn gate(&self, _: &Op) -> Act {
        Act::Go
    }
}

#[derive(Debug, Clone)]
pub struct SimStore {
    pub img: Arc<Mutex<Image>>,
    pub ctl: Arc<dyn Control>,
    pub client: usize,
    dead: Arc<tokio::sync::watch::Sender<bool>>,
}

impl fmt::Display for SimStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimStore")
    }
}

fn generic(msg: &str) -> Error {
    Error::Generic { store: "SimStore", source: msg.to_string().into() }
}

fn not_found(p: &Path) -> Error {
    Error::NotFound { path: p.to_string(), source: "no such object".into() }
}

impl SimStore {
    pub fn new(img: Image) -> Self {
        Self {
            img: Arc::new(Mutex::new(img)),
            ctl: Arc::new(Free),
            client: 0,
            dead: Arc::new(tokio::sync::watch::channel(false).0),
        }
    }
    /// A client of the same object store with its own controller.
    pub fn client(&self, client: usize, ctl: Arc<dyn Control>) -> Self {
        Self {
            img: self.img.clone(),
            ctl,
            client,
            dead: Arc::new(tokio::sync::watch::channel(false).0),
        }
    }
    pub fn image(&self) -> Image {
        self.img.lock().unwrap().clone()
    }
    /// Copies every object under one directory to another, keeping times.
    pub fn copy_tree(&self, from: &str, to: &str) {
        let mut s = self.img.lock().expect("lock");
        let new: Vec<(Path, Entry)> = s
            .map
            .iter()
            .filter_map(|(p, e)| {
                let rest = p.to_string().strip_prefix(&format!("{from}/"))?.to_string();
                Some((Path::parse(format!("{to}/{rest}")).ok()?, e.clone()))
            })
            .collect();
        s.map.extend(new);
    }
    pub fn remove_tree(&self, dir: &str) {
        let mut s = self.img.lock().expect("lock");
        let prefix = format!("{dir}/");
        s.map.retain(|p, _| !p.as_ref().starts_with(&prefix));
    }
    pub fn edit<T>(&self, f: impl FnOnce(&mut Image) -> T) -> T {
        f(&mut self.img.lock().expect("lock"))
    }
    pub fn is_dead(&self) -> bool {
        *self.dead.borrow()
    }
    /// Completes when the process using this client has been stopped.
    pub async fn death(&self) {
        let mut rx = self.dead.subscribe();
        let _ = rx.wait_for(|d| *d).await;
    }

    async fn enter(&self, kind: Kind, path: &Path) -> Act {
        if self.is_dead() {
            return std::future::pending().await;
        }
        let act =
            self.ctl.gate(&Op { client: self.client, kind, path: path.to_string() }).await;
        if self.is_dead() {
            return std::future::pending().await;
        }
        if act == Act::Die {
            self.dead.send_replace(true);
            return std::future::pending().await;
        }
        act
    }

    async fn leave<T>(&self, act: Act, r: Result<T>) -> Result<T> {
        match act {
            Act::GoDie => {
                self.dead.send_replace(true);
                std::future::pending().await
            }
            Act::GoFail => Err(generic("injected: response lost")),
            _ => r,
        }
    }

    fn do_put(&self, location: &Path, data: Bytes, mode: &PutMode) -> Result<PutResult> {
        let mut g = self.img.lock().unwrap();
        match mode {
            PutMode::Overwrite => {}
            PutMode::Create => {
                if g.map.contains_key(location) {
                    return Err(Error::AlreadyExists {
                        path: location.to_string(),
                        source: "exists".into(),
                    });
                }
            }
            PutMode::Update(v) => {
                let cur = g.map.get(location).map(|e| e.etag.to_string());
                if cur.is_none() || cur != v.e_tag {
                    return Err(Error::Precondition {
                        path: location.to_string(),
                        source: "etag mismatch".into(),
                    });
                }
            }
        }
        let e = g.put(location, data);
        Ok(PutResult { e_tag: Some(e.to_string()), version: None })
    }

    fn metas(&self, prefix: Option<&Path>, offset: Option<&Path>) -> Vec<ObjectMeta> {
        let g = self.img.lock().unwrap();
        let root = Path::default();
        let prefix = prefix.unwrap_or(&root);
        g.map
            .iter()
            .filter(|(k, _)| {
                k.prefix_match(prefix).map(|mut x| x.next().is_some()).unwrap_or(false)
            })
            .filter(|(k, _)| offset.is_none_or(|o| *k > o))
            .map(|(k, e)| meta(k, e))
            .collect()
    }
}

fn meta(k: &Path, e: &Entry) -> ObjectMeta {
    ObjectMeta {
        location: k.clone(),
        last_modified: e.mtime,
        size: e.data.len() as u64,
        e_tag: Some(e.etag.to_string()),
        version: None,
    }
}

fn to_bytes(payload: PutPayload) -> Bytes {
    payload.into()
}

#[async_trait]
impl ObjectStore for SimStore {
    async fn put_opts(&self, location: &Path, payload: PutPayload, opts: PutOptions) -> Result<PutResult> {
        let kind = if opts.mode == PutMode::Create { Kind::PutCreate } else { Kind::Put };
        let act = self.enter(kind, location).await;
        if act == Act::Fail {
            return Err(generic("injected failure"));
        }
        let r = self.do_put(location, to_bytes(payload), &opts.mode);
        self.leave(act, r).await
    }

    async fn put_multipart_opts(
        &self,
        location: &Path,
        _opts: PutMultipartOptions,
    ) -> Result<Box<dyn MultipartUpload>> {
        Ok(Box::new(Upload { store: self.clone(), location: location.clone(), parts: vec![] }))
    }

    async fn get_opts(&self, location: &Path, options: GetOptions) -> Result<GetResult> {
        let kind = if options.head { Kind::Head } else { Kind::Get };
        let act = self.enter(kind, location).await;
        if act == Act::Fail {
            return Err(generic("injected failure"));
        }
        let r = (|| {
            let g = self.img.lock().unwrap();
            let e = g.map.get(location).ok_or_else(|| not_found(location))?;
            let m = meta(location, e);
            options.check_preconditions(&m)?;
            let len = e.data.len() as u64;
            let range = match &options.range {
                Some(r) => range_of(r, len)?,
                None => 0..len,
            };
            let data = e.data.slice(range.start as usize..range.end as usize);
            Ok(GetResult {
                payload: GetResultPayload::Stream(
                    futures::stream::once(futures::future::ready(Ok(data))).boxed(),
                ),
                attributes: Attributes::default(),
                meta: m,
                range,
            })
        })();
        self.leave(act, r).await
    }

    async fn get_ranges(&self, location: &Path, ranges: &[Range<u64>]) -> Result<Vec<Bytes>> {
        let act = self.enter(Kind::Get, location).await;
        if act == Act::Fail {
            return Err(generic("injected failure"));
        }
        let r = (|| {
            let g = self.img.lock().unwrap();
            let e = g.map.get(location).ok_or_else(|| not_found(location))?;
            ranges
                .iter()
                .map(|r| {
                    let r = range_of(&GetRange::Bounded(r.clone()), e.data.len() as u64)?;
                    Ok(e.data.slice(r.start as usize..r.end as usize))
                })
                .collect()
        })();
        self.leave(act, r).await
    }

    fn delete_stream(
        &self,
        locations: BoxStream<'static, Result<Path>>,
    ) -> BoxStream<'static, Result<Path>> {
        let this = self.clone();
        locations
            .then(move |p| {
                let this = this.clone();
                async move {
                    let p = p?;
                    let act = this.enter(Kind::Delete, &p).await;
                    if act == Act::Fail {
                        return Err(generic("injected failure"));
                    }
                    let r = match this.img.lock().unwrap().map.remove(&p) {
                        Some(_) => Ok(p.clone()),
                        None => Err(not_found(&p)),
                    };
                    this.leave(act, r).await
                }
            })
            .boxed()
    }

    fn list(&self, prefix: Option<&Path>) -> BoxStream<'static, Result<ObjectMeta>> {
        let this = self.clone();
        let prefix = prefix.cloned();
        futures::stream::once(async move {
            let act = this.enter(Kind::List, prefix.as_ref().unwrap_or(&Path::default())).await;
            let r = if act == Act::Fail {
                Err(generic("injected failure"))
            } else {
                Ok(this.metas(prefix.as_ref(), None))
            };
            match this.leave(act, r).await {
                Ok(v) => futures::stream::iter(v.into_iter().map(Ok)).left_stream(),
                Err(e) => futures::stream::iter(vec![Err(e)]).right_stream(),
            }
        })
        .flatten()
        .boxed()
    }

    fn list_with_offset(
        &self,
        prefix: Option<&Path>,
        offset: &Path,
    ) -> BoxStream<'static, Result<ObjectMeta>> {
        let this = self.clone();
        let prefix = prefix.cloned();
        let offset = offset.clone();
        futures::stream::once(async move {
            let act = this.enter(Kind::List, prefix.as_ref().unwrap_or(&Path::default())).await;
            let r = if act == Act::Fail {
                Err(generic("injected failure"))
            } else {
                Ok(this.metas(prefix.as_ref(), Some(&offset)))
            };
            match this.leave(act, r).await {
                Ok(v) => futures::stream::iter(v.into_iter().map(Ok)).left_stream(),
                Err(e) => futures::stream::iter(vec![Err(e)]).right_stream(),
            }
        })
        .flatten()
        .boxed()
    }

    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> Result<ListResult> {
        let root = Path::default();
        let prefix = prefix.unwrap_or(&root);
        let act = self.enter(Kind::List, prefix).await;
        if act == Act::Fail {
            return Err(generic("injected failure"));
        }
        let r = {
            let g = self.img.lock().unwrap();
            let mut dirs = BTreeSet::new();
            let mut objects = vec![];
            for (k, e) in &g.map {
                let Some(mut parts) = k.prefix_match(prefix) else { continue };
                let Some(first) = parts.next() else { continue };
                if parts.next().is_some() {
                    dirs.insert(prefix.clone().join(first));
                } else {
                    objects.push(meta(k, e));
                }
            }
            Ok(ListResult { objects, common_prefixes: dirs.into_iter().collect() })
        };
        self.leave(act, r).await
    }

    async fn copy_opts(&self, from: &Path, to: &Path, options: CopyOptions) -> Result<()> {
        let act = self.enter(Kind::Copy, to).await;
        if act == Act::Fail {
            return Err(generic("injected failure"));
        }
        let data = self.img.lock().unwrap().map.get(from).map(|e| e.data.clone());
        let r = match data {
            None => Err(not_found(from)),
            Some(d) => {
                let mode = match options.mode {
                    CopyMode::Create => PutMode::Create,
                    _ => PutMode::Overwrite,
                };
                self.do_put(to, d, &mode).map(|_| ())
            }
        };
        self.leave(act, r).await
    }
}

fn range_of(r: &GetRange, len: u64) -> Result<Range<u64>> {
    r.as_range(len).map_err(|e| generic(&e.to_string()))
}

#[derive(Debug)]
struct Upload {
    store: SimStore,
    location: Path,
    parts: Vec<Bytes>,
}

#[async_trait]
impl MultipartUpload for Upload {
    fn put_part(&mut self, data: PutPayload) -> UploadPart {
        self.parts.push(to_bytes(data));
        Box::pin(async { Ok(()) })
    }
    async fn complete(&mut self) -> Result<PutResult> {
        let act = self.store.enter(Kind::MultipartDone, &self.location).await;
        if act == Act::Fail {
            return Err(generic("injected failure"));
        }
        let mut data = vec![];
        for p in self.parts.drain(..) {
            data.extend_from_slice(&p);
        }
        let r = self.store.do_put(&self.location, data.into(), &PutMode::Overwrite);
        self.store.leave(act, r).await
    }
    async fn abort(&mut self) -> Result<()> {
        self.parts.clear();
        Ok(())
    }
}

/// Records every gated operation; injects the given acts at the given indices
/// of the operations selected by `filter`.
pub struct Plan {
    pub filter: Box<dyn Fn(&Op) -> bool + Send + Sync>,
    pub acts: Mutex<BTreeMap<usize, Act>>,
    pub log: Mutex<Vec<Op>>,
}

impl fmt::Debug for Plan {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Plan")
    }
}

impl Plan {
    pub fn new(filter: impl Fn(&Op) -> bool + Send + Sync + 'static, acts: BTreeMap<usize, Act>) -> Arc<Self> {
        Arc::new(Self { filter: Box::new(filter), acts: Mutex::new(acts), log: Mutex::default() })
    }
    pub fn ops(&self) -> Vec<Op> {
        self.log.lock().unwrap().clone()
    }
}

#[async_trait]
impl Control for Plan {
    async fn gate(&self, op: &Op) -> Act {
        if !(self.filter)(op) {
            return Act::Go;
        }
        let mut log = self.log.lock().unwrap();
        let i = log.len();
        log.push(op.clone());
        self.acts.lock().unwrap().get(&i).cloned().unwrap_or(Act::Go)
    }
}
