//! Remote runners: real gRPC servers and clients over loopback, with an RPC-level recorder and fault injector
//! wrapped around the real server.
use crate::engine::*;
use crate::frame::*;
use crate::core::Mix;
use crate::gen::{self, Profile};
use crate::monitors::Tr;
use crate::rng::{hash_str, Rng};
use astro_run::*;
use astro_run_protocol::remote_runner::{RemoteRunnerExt, RemoteRunnerServer};
use astro_run_protocol::tonic;
use astro_run_protocol::{Empty, ProtocolEvent, RunResponse as Item, RunnerMetadata};
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer};
use astro_run_scheduler::{DefaultScheduler, Scheduler};
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc as smpsc, Arc};
use std::time::Duration;
use tokio_stream::wrappers::ReceiverStream;
use tokio_stream::StreamExt;

pub const REMOTE: usize = 101; // runner observers 101..
pub const RPC: usize = 500; // rpc level of server i
pub const SCHED: usize = 600;
pub const RPLUGIN: usize = 1000; // 1000 + 10 * server + plugin
const PROBE: &str = "vh-probe";

static NEXT_PORT: AtomicUsize = AtomicUsize::new(0);

/// An address nobody else uses: the host part depends on this process.
pub fn address() -> String {
  let pid = std::process::id();
  let ip = format!("127.{}.{}.{}", 1 + (pid >> 16) % 200, (pid >> 8) & 255, 1 + (pid & 255) % 254);
  loop {
    let n = NEXT_PORT.fetch_add(1, Ordering::Relaxed);
    let port = 10000 + n % 22000;
    // leave the address only once it is known to be free
    if let Ok(l) = std::net::TcpListener::bind((ip.as_str(), port as u16)) {
      drop(l);
      return format!("{}:{}", ip, port);
    }
  }
}

pub fn listening(addr: &str) -> bool {
  for _ in 0..400 {
    if std::net::TcpStream::connect(addr).is_ok() {
      return true;
    }
    std::thread::sleep(Duration::from_millis(5));
  }
  false
}

// ------------------------------------------------------------------ scheduler

pub enum Pick {
  Default,
  /// any offered runner, by hash
  Spread(u64),
}

pub struct RecSched {
  pub w: Arc<World>,
  pub inner: DefaultScheduler,
  pub pick: Pick,
  pub deny: HashSet<SKey>,
}

fn ids(id: &StepId) -> (String, Option<String>, Option<usize>) {
  (id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()))
}

#[async_trait]
impl Scheduler for RecSched {
  fn on_run_workflow(&self, x: Workflow) {
    self.w.rec.push(SCHED, false, K::RunWorkflow, &x.id.inner(), None, None, "", json!(x));
    self.inner.on_run_workflow(x)
  }
  fn on_run_job(&self, x: Job) {
    self.w.rec.push(SCHED, false, K::RunJob, &x.id.workflow_id().inner(), Some(x.id.job_key()), None, "", json!(x));
    self.inner.on_run_job(x)
  }
  fn on_run_step(&self, x: Step) {
    let (a, b, c) = ids(&x.id);
    self.w.rec.push(SCHED, false, K::RunStep, &a, b, c, "", json!(x));
    self.inner.on_run_step(x)
  }
  fn on_step_completed(&self, x: StepRunResult) {
    let (a, b, c) = ids(&x.id);
    self.w.rec.push(SCHED, false, K::StepDone, &a, b, c, sname(&x.state), json!(x));
    self.inner.on_step_completed(x)
  }
  fn on_job_completed(&self, x: JobRunResult) {
    self.w.rec.push(SCHED, false, K::JobDone, &x.id.workflow_id().inner(), Some(x.id.job_key()), None, sname(&x.state), json!(x));
    self.inner.on_job_completed(x)
  }
  fn on_workflow_completed(&self, x: WorkflowRunResult) {
    self.w.rec.push(SCHED, false, K::WorkflowDone, &x.id.inner(), None, None, sname(&x.state), json!(x));
    self.inner.on_workflow_completed(x)
  }
  async fn schedule<'a, 'b: 'a>(&'b self, runners: &'a [RunnerMetadata], ctx: &Context) -> Option<&'a RunnerMetadata> {
    let (a, b, c) = ids(&ctx.command.id);
    let key = (a.clone(), b.clone().unwrap(), c.unwrap());
    let got = if self.deny.contains(&key) {
      None
    } else {
      match self.pick {
        Pick::Default => self.inner.schedule(runners, ctx).await,
        Pick::Spread(seed) => {
          let mut s: Vec<&RunnerMetadata> = runners.iter().collect();
          s.sort_by(|x, y| x.id.cmp(&y.id));
          if s.is_empty() {
            None
          } else {
            let i = hash_str(seed, &format!("{:?}", key)) as usize % s.len();
            runners.iter().find(|r| r.id == s[i].id)
          }
        }
      }
    };
    let offered: Vec<Value> = runners.iter().map(|r| json!(r)).collect();
    self.w.rec.push(SCHED, false, K::Custom, &a, b, c, "schedule", json!({"offered": offered, "chosen": got.map(|g| g.id.clone()), "command": ctx.command}));
    got
  }
}

// ------------------------------------------------------------------ wrapped server

#[derive(Clone, Debug, PartialEq)]
pub enum RunFault {
  /// answer the request with an error
  Status,
  /// deliver this many items, then an error
  ErrAfter(u64),
  /// deliver this many items, then close the stream
  CloseAfter(u64),
  /// deliver this many items, then the whole remote side dies
  KillAfter(u64),
}

#[derive(Clone, Default)]
pub struct WrapCfg {
  pub faults: HashMap<SKey, RunFault>,
  /// per mille of events refused
  pub refuse: u64,
  /// per mille of before-run-step calls refused
  pub refuse_hook: u64,
  pub version: Option<String>,
  pub metadata_error: bool,
}

pub struct WrapServer {
  pub inner: AstroRunRemoteRunnerServer,
  pub w: Arc<World>,
  pub idx: usize,
  pub cfg: WrapCfg,
  pub kill: Mutex<smpsc::Sender<()>>,
  n: AtomicU64,
}

fn event_parts(e: &ProtocolEvent) -> Option<(K, String, Option<String>, Option<usize>, String, Value)> {
  let step = |id: &StepId| (id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()));
  Some(match e {
    ProtocolEvent::RunWorkflow(e) => {
      (K::RunWorkflow, e.source.id.inner(), None, None, "".into(), json!({"event": e.trigger_event, "payload": pv(&e.payload), "source": e.source}))
    }
    ProtocolEvent::RunJob(e) => (
      K::RunJob,
      e.source.id.workflow_id().inner(),
      Some(e.source.id.job_key()),
      None,
      "".into(),
      json!({"event": e.trigger_event, "payload": pv(&e.payload), "source": e.source}),
    ),
    ProtocolEvent::RunStep(e) => {
      let (a, b, c) = step(&e.source.id);
      (K::RunStep, a, b, c, "".into(), json!({"event": e.trigger_event, "payload": pv(&e.payload), "source": e.source}))
    }
    ProtocolEvent::StepCompleted(r) => {
      let (a, b, c) = step(&r.id);
      (K::StepDone, a, b, c, sname(&r.state), json!(r))
    }
    ProtocolEvent::JobCompleted(r) => (K::JobDone, r.id.workflow_id().inner(), Some(r.id.job_key()), None, sname(&r.state), json!(r)),
    ProtocolEvent::WorkflowCompleted(r) => (K::WorkflowDone, r.id.inner(), None, None, sname(&r.state), json!(r)),
    ProtocolEvent::StepLog(l) => {
      let (a, b, c) = step(&l.step_id);
      (K::Log, a, b, c, l.log_type.to_string(), json!(l.message))
    }
    ProtocolEvent::StateChange(e) => {
      let (a, b, c, s) = state_ids(e);
      (K::State, a, b, c, s, Value::Null)
    }
    ProtocolEvent::Signal(_) => return None,
  })
}

#[tonic::async_trait]
impl RemoteRunnerExt for WrapServer {
  type RunStream = ReceiverStream<tonic::Result<Item>>;

  async fn get_runner_metadata(&self, r: tonic::Request<Empty>) -> std::result::Result<tonic::Response<RunnerMetadata>, tonic::Status> {
    if self.cfg.metadata_error {
      return Err(tonic::Status::unavailable("scripted"));
    }
    let mut m = RemoteRunnerExt::get_runner_metadata(&self.inner, r).await?;
    if let Some(v) = &self.cfg.version {
      m.get_mut().version = v.clone();
    }
    Ok(m)
  }

  async fn run(&self, r: tonic::Request<Context>) -> std::result::Result<tonic::Response<Self::RunStream>, tonic::Status> {
    let id = r.get_ref().id.clone();
    let (wf, job, n) = ids(&id);
    let key = (wf.clone(), job.clone().unwrap(), n.unwrap());
    self.w.rec.push(RPC + self.idx, false, K::Custom, &wf, job.clone(), n, "run", Value::Null);
    let fault = self.cfg.faults.get(&key).cloned();
    if fault == Some(RunFault::Status) {
      return Err(tonic::Status::resource_exhausted("scripted refusal"));
    }
    let res = RemoteRunnerExt::run(&self.inner, r).await?;
    let Some(fault) = fault else { return Ok(res) };
    let mut s = res.into_inner();
    let (tx, rx) = tokio::sync::mpsc::channel(4);
    let w = self.w.clone();
    let idx = self.idx;
    let kill = self.kill.lock().clone();
    tokio::spawn(async move {
      let limit = match fault {
        RunFault::ErrAfter(k) | RunFault::CloseAfter(k) | RunFault::KillAfter(k) => k,
        RunFault::Status => 0,
      };
      let (mut lines, mut done) = (vec![], false);
      let mut i = 0;
      while i < limit {
        match s.next().await {
          Some(x) => {
            match &x {
              Ok(Item::Log { log, .. }) => lines.push(json!([log.log_type.to_string(), log.message])),
              Ok(Item::Result { .. }) => done = true,
              Err(_) => {}
            }
            tx.send(x).await.ok();
          }
          None => break,
        }
        i += 1;
      }
      w.rec.push(RPC + idx, false, K::Custom, &wf, job.clone(), n, "cut", json!({"lines": lines, "result": done}));
      match fault {
        RunFault::ErrAfter(_) => {
          tx.send(Err(tonic::Status::aborted("scripted"))).await.ok();
        }
        RunFault::KillAfter(k) => {
          if k % 2 == 0 {
            tokio::time::sleep(Duration::from_micros(500)).await;
          }
          kill.send(()).ok();
          // the stream stays open until everything here dies
          std::future::pending::<()>().await;
        }
        _ => {}
      }
    });
    Ok(tonic::Response::new(ReceiverStream::new(rx)))
  }

  async fn send_event(&self, r: tonic::Request<ProtocolEvent>) -> std::result::Result<tonic::Response<Empty>, tonic::Status> {
    let o = RPC + self.idx;
    match event_parts(r.get_ref()) {
      None => {
        if let ProtocolEvent::Signal(s) = r.get_ref() {
          let (a, b, c) = ids(&s.step_id);
          self.w.rec.push(o, false, K::Custom, &a, b, c, format!("signal:{}", s.signal), Value::Null);
        }
        RemoteRunnerExt::send_event(&self.inner, r).await
      }
      Some((k, wf, job, step, s, d)) => {
        self.w.rec.push(o, false, k, &wf, job.clone(), step, s.clone(), d);
        let n = self.n.fetch_add(1, Ordering::Relaxed);
        let refuse = self.cfg.refuse > 0 && hash_str(self.w.seed ^ self.idx as u64, &format!("{}", n)) % 1000 < self.cfg.refuse;
        let out = if refuse { Err(tonic::Status::unavailable("scripted")) } else { RemoteRunnerExt::send_event(&self.inner, r).await };
        self.w.rec.push(o, true, k, &wf, job, step, if refuse { "err" } else { "ok" }, Value::Null);
        out
      }
    }
  }

  async fn call_before_run_step_hook(&self, r: tonic::Request<Command>) -> std::result::Result<tonic::Response<Command>, tonic::Status> {
    let (a, b, c) = ids(&r.get_ref().id);
    if a == PROBE {
      self.w.rec.push(RPC + self.idx, false, K::Custom, &a, b, c, "probe", Value::Null);
      return Ok(tonic::Response::new(r.into_inner()));
    }
    self.w.rec.push(RPC + self.idx, false, K::Custom, &a, b.clone(), c, "before", json!(r.get_ref()));
    let refuse = self.cfg.refuse_hook > 0 && hash_str(self.w.seed ^ self.idx as u64, &format!("h{:?}{:?}", b, c)) % 1000 < self.cfg.refuse_hook;
    let out = if refuse { Err(tonic::Status::unavailable("scripted")) } else { RemoteRunnerExt::call_before_run_step_hook(&self.inner, r).await };
    let d = match &out {
      Ok(x) => json!(x.get_ref()),
      Err(_) => Value::Null,
    };
    self.w.rec.push(RPC + self.idx, true, K::Custom, &a, b, c, if out.is_ok() { "ok" } else { "err" }, d);
    out
  }
}

pub struct Remote {
  pub idx: usize,
  pub id: String,
  pub addr: String,
  pub plugins: usize,
  pub wrapped: bool,
  pub refuse: bool,
  pub rt: Arc<Mutex<Option<tokio::runtime::Runtime>>>,
}

impl Remote {
  pub fn url(&self) -> String {
    format!("http://{}", self.addr)
  }
  pub fn stop(&self) {
    if let Some(rt) = self.rt.lock().take() {
      rt.shutdown_background();
    }
  }
  pub fn dead(&self) -> bool {
    self.rt.lock().is_none()
  }
}

pub struct RemoteCfg {
  pub id: String,
  pub plugins: usize,
  pub host: bool,
  pub docker: bool,
  pub max_runs: i32,
  /// None: serve with the product's own `serve`
  pub wrap: Option<WrapCfg>,
}

pub fn start_remote(w: &Arc<World>, idx: usize, c: RemoteCfg) -> Remote {
  let addr = address();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let mut b = AstroRunRemoteRunnerServer::builder()
    .id(c.id.clone())
    .runner(ScriptRunner { w: w.clone(), obs: REMOTE + idx })
    .support_docker(c.docker)
    .support_host(c.host)
    .max_runs(c.max_runs);
  for p in 0..c.plugins {
    let obs = RPLUGIN + 10 * idx + p;
    b = if p % 2 == 0 { b.plugin(ObsPlugin { w: w.clone(), obs }) } else { b.plugin(built_plugin(w.clone(), obs)) };
  }
  let server = b.build().unwrap();
  let a = addr.clone();
  let (ktx, krx) = smpsc::channel();
  let wrapped = c.wrap.is_some();
  let refuse = c.wrap.as_ref().is_some_and(|x| x.refuse > 0);
  match c.wrap {
    None => {
      rt.spawn(async move {
        if let Err(e) = server.serve(&a).await {
          eprintln!("serve: {}", e);
        }
      });
    }
    Some(cfg) => {
      let s = WrapServer { inner: server, w: w.clone(), idx, cfg, kill: Mutex::new(ktx), n: AtomicU64::new(0) };
      rt.spawn(async move {
        let r = tonic::transport::Server::builder().add_service(RemoteRunnerServer::new(s)).serve(a.parse().unwrap()).await;
        if let Err(e) = r {
          eprintln!("serve: {}", e);
        }
      });
    }
  }
  let rt = Arc::new(Mutex::new(Some(rt)));
  let rt2 = rt.clone();
  let w2 = w.clone();
  std::thread::spawn(move || {
    if krx.recv().is_ok() {
      if let Some(rt) = rt2.lock().take() {
        w2.rec.push(RPC + idx, false, K::Custom, "", None, None, "kill", Value::Null);
        rt.shutdown_background();
      }
    }
  });
  listening(&addr);
  Remote { idx, id: c.id, addr, plugins: c.plugins, wrapped, refuse, rt }
}

fn probe_step(n: usize) -> Step {
  Step { id: StepId::new(PROBE, "j", n), run: "x".into(), ..Default::default() }
}

/// Connect, drop the call that forwards the events, and connect again.
async fn connect_again(w: &Arc<World>, client: &AstroRunRemoteRunnerClient, urls: &[String], expect: &[usize]) -> bool {
  let start = || {
    let (mut c, urls) = (client.clone(), urls.to_vec());
    tokio::spawn(async move {
      c.start(urls).await.ok();
    })
  };
  let first = start();
  for n in 0..600 {
    client.on_before_run_step(probe_step(n)).await.ok();
    if expect.iter().all(|i| w.rec.any(|e| e.wf == PROBE && e.step == Some(n) && (e.obs == RPC + i || e.obs == REMOTE + i))) {
      break;
    }
    tokio::time::sleep(Duration::from_millis(10)).await;
  }
  first.abort();
  first.await.ok();
  tokio::time::sleep(Duration::from_millis(30)).await;
  // (what was left of the first call may still have been there)
  for attempt in 0..4 {
    let again = start();
    for n in 0..500 {
      let n = 1000 * (attempt + 1) + n;
      let log = WorkflowLog { step_id: StepId::new(PROBE, "j", n), log_type: WorkflowLogType::Log, message: "probe".into(), time: chrono::Utc::now() };
      client.on_log(log).await.ok();
      tokio::time::sleep(Duration::from_millis(10)).await;
      progress();
      if expect.iter().all(|i| w.rec.any(|e| e.wf == PROBE && e.k == K::Log && e.step.is_some_and(|s| s >= 1000 * (attempt + 1)) && e.obs == REMOTE + i)) {
        return true;
      }
    }
    again.abort();
    again.await.ok();
  }
  false
}

/// The i-th id, alike the others.
fn runner_id(i: usize, r: &mut crate::rng::Rng) -> String {
  const ALIKE: [&str; 8] = ["node", "Node", "node ", "node-1", "1-node", "nod", "node1", " node"];
  match ALIKE.get(i) {
    Some(a) => a.to_string(),
    None => format!("{}{}", r.ident(4), i),
  }
}

/// Start the client on these lists of urls (one `start` call each) and wait until the given servers answer through it.
pub async fn connect(w: &Arc<World>, client: &AstroRunRemoteRunnerClient, lists: Vec<Vec<String>>, expect: &[usize]) -> bool {
  for l in lists {
    let mut c = client.clone();
    tokio::spawn(async move {
      c.start(l).await.ok();
    });
  }
  for n in 0..600 {
    client.on_before_run_step(probe_step(n)).await.ok();
    let all = expect.iter().all(|i| {
      w.rec.any(|e| e.wf == PROBE && e.step == Some(n) && (e.obs == RPC + i || e.obs == REMOTE + i))
    });
    if all {
      return true;
    }
    tokio::time::sleep(Duration::from_millis(10)).await;
  }
  false
}

// ------------------------------------------------------------------ driver

#[derive(Clone)]
pub struct ROpts {
  pub p: Profile,
  pub remotes: (u64, u64),
  pub remote_plugins: u64,
  pub local_plugins: u64,
  pub plain: bool,
  pub hook_err: bool,
  pub hook_delay: bool,
  pub rewrite: bool,
  pub refuse: bool,
  pub refuse_hook: bool,
  pub faults: bool,
  pub holds: bool,
  pub workflows: (u64, u64),
  pub context: bool,
  pub decorate: bool,
  pub rerun: bool,
  pub default_sched: bool,
  pub two_starts: bool,
  pub settle: bool,
  /// sometimes jobs and steps have conditions
  pub conditions: bool,
  pub mix: Mix,
}

impl Default for ROpts {
  fn default() -> Self {
    ROpts {
      p: Profile::default(),
      remotes: (1, 3),
      remote_plugins: 1,
      local_plugins: 1,
      plain: false,
      hook_err: false,
      hook_delay: false,
      rewrite: false,
      refuse: false,
      refuse_hook: false,
      faults: false,
      holds: false,
      workflows: (1, 2),
      context: false,
      decorate: false,
      rerun: false,
      default_sched: false,
      two_starts: false,
      settle: false,
      conditions: false,
      mix: Mix::All,
    }
  }
}

pub struct Hold {
  pub key: SKey,
  pub cancel_us: Option<u64>,
  pub timeout: bool,
}

pub struct RInfo<'a> {
  pub remotes: &'a [Remote],
  pub holds: &'a [Hold],
  pub event: Value,
  pub payload: Value,
  pub sched: &'a DefaultScheduler,
  pub faults: &'a HashMap<SKey, RunFault>,
  pub killed: &'a [usize],
  pub last_run: bool,
}

impl RInfo<'_> {
  /// What has to be told like a local observer: the server's calls, and its plugins and runner.
  pub fn observers(&self, r: &Remote) -> Vec<Vec<usize>> {
    let mut v = vec![];
    if r.wrapped {
      v.push(vec![0, RPC + r.idx]);
    }
    if !r.refuse {
      let mut o = vec![0];
      o.extend((0..r.plugins).map(|p| RPLUGIN + 10 * r.idx + p));
      o.push(REMOTE + r.idx);
      v.push(o);
    }
    v
  }
}

type RCheck = dyn Fn(&mut Case, &Tr, &RInfo) -> Vec<String>;

/// The same workload with a few of the other features in it.
fn mix(r: &mut Rng, o: &ROpts) -> ROpts {
  let mut o = o.clone();
  if o.mix == Mix::No {
    return o;
  }
  o.p.hostile |= r.chance(1, 4);
  o.p.producers |= r.chance(1, 4);
  o.p.second_end |= r.chance(1, 4);
  o.hook_err |= r.chance(1, 4);
  o.hook_delay |= r.chance(1, 4);
  o.context |= r.chance(1, 3);
  o.decorate |= r.chance(1, 4);
  o.rerun |= !o.settle && r.chance(1, 6);
  if r.chance(1, 4) && o.remotes.1 > 0 {
    o.remotes.1 += 3;
  }
  if r.chance(1, 3) {
    o.local_plugins += 2;
    o.remote_plugins += 1;
  }
  if o.holds {
    return o;
  }
  o.p.timeouts |= r.chance(1, 2);
  if o.mix == Mix::All && r.chance(1, 2) {
    o.p.cancels = o.p.cancels.max(2);
  }
  o
}

pub fn drive(case: &mut Case, o: &ROpts, check: &RCheck) {
  let mut r = case.rng.fork();
  let mixed;
  let o = if (case.idx / 8) % 4 == 2 {
    mixed = mix(&mut r, o);
    case.count("mixed_workloads", 1);
    &mixed
  } else {
    o
  };
  let mut hooks = HookCfg { delay_max: 3, ..Default::default() };
  if o.hook_err && r.chance(2, 3) {
    hooks.err = *r.pick(&[60, 300, 1000]);
  }
  if o.hook_delay && r.chance(2, 3) {
    hooks.delay = *r.pick(&[50, 300, 1000]);
  }
  if hooks.delay > 50 && o.p.logs > 20 {
    hooks.delay = 10;
  }
  if o.rewrite {
    hooks.rewrite = *r.pick(&[300, 700, 1000]);
  }
  let nwf = r.range(o.workflows.0, o.workflows.1);
  let shared = r.ident(5);
  let alike = r.chance(1, 2);
  let mut specs: Vec<WfSpec> = (0..nwf)
    .map(|i| {
      let mut s = gen::spec(&mut r, &gen::workflow_id(&shared, i, alike), &o.p, false);
      if o.decorate {
        gen::decorate(&mut r, &mut s);
      }
      s
    })
    .collect();
  // held steps
  let mut holds = vec![];
  if o.holds {
    for s in specs.iter_mut() {
      let id = s.id.clone();
      for j in s.jobs.iter_mut() {
        let mut cancelled = false;
        for (i, st) in j.steps.iter_mut().enumerate() {
          if !r.chance(2, 3) {
            continue;
          }
          st.script.ret = Ret::Ok;
          st.script.inline = false;
          st.script.acts.push(Act::Sleep(3_600_000));
          if r.chance(1, 3) {
            st.script.acts.push(Act::Log("after".into()));
          }
          st.script.react = match r.below(4) {
            0 | 1 => React::Standard,
            2 => React::End(r.pick(&[Fin::Succeeded, Fin::Failed(7), Fin::Cancelled]).clone()),
            _ => React::After(r.range(1, 5), r.pick(&[Fin::Succeeded, Fin::Failed(9), Fin::Cancelled]).clone()),
          };
          let cancel = !cancelled && r.chance(1, 2);
          let timeout = !cancel || cancelled || r.chance(1, 4);
          cancelled |= cancel;
          if timeout {
            st.timeout_ms = Some(if cancel { r.range(1, 8) } else { r.range(1, 60) });
          }
          holds.push(Hold {
            key: (id.clone(), j.key.clone(), i),
            cancel_us: if cancel { Some(*r.pick(&[0, 0, 100, 500, 2000, 5000])) } else { None },
            timeout,
          });
        }
      }
    }
  }
  let seed = r.next();
  let w = World::new(seed, false, hooks);
  // remote sides
  let nr = r.range(o.remotes.0, o.remotes.1) as usize;
  let alike_ids = r.chance(1, 4);
  let mut faults = HashMap::new();
  let mut deny = HashSet::new();
  if o.faults {
    let kills = r.chance(1, 3);
    for s in &specs {
      for j in &s.jobs {
        for i in 0..j.steps.len() {
          let key = (s.id.clone(), j.key.clone(), i);
          match r.below(12) {
            0 => drop(deny.insert(key)),
            1 => drop(faults.insert(key, RunFault::Status)),
            2 | 3 => drop(faults.insert(key, RunFault::ErrAfter(r.below(8)))),
            4 | 5 => drop(faults.insert(key, RunFault::CloseAfter(r.below(8)))),
            6 if kills => drop(faults.insert(key, RunFault::KillAfter(r.below(6)))),
            _ => {}
          }
        }
      }
    }
  }
  let mut remotes = vec![];
  for i in 0..nr {
    let wrap = if o.plain && r.chance(1, 3) {
      None
    } else {
      Some(WrapCfg {
        faults: faults.clone(),
        refuse: if o.refuse && r.chance(1, 2) { *r.pick(&[50, 500, 1000]) } else { 0 },
        refuse_hook: if o.refuse_hook && r.chance(1, 3) { *r.pick(&[200, 1000]) } else { 0 },
        ..Default::default()
      })
    };
    remotes.push(start_remote(
      &w,
      i,
      RemoteCfg { id: if alike_ids { runner_id(i, &mut r) } else { format!("{}-{}", r.ident(4), i) }, plugins: r.below(o.remote_plugins + 1) as usize, host: r.chance(1, 2), docker: i == 0 || r.chance(2, 3), max_runs: 5, wrap },
    ));
  }
  let inner = DefaultScheduler::new();
  let pick = if o.default_sched || r.chance(1, 2) { Pick::Default } else { Pick::Spread(seed) };
  let client = AstroRunRemoteRunnerClient::builder().scheduler(RecSched { w: w.clone(), inner: inner.clone(), pick, deny: deny.clone() }).build().unwrap();
  let nplugins = r.range(1, o.local_plugins.max(1));
  let plan = PluginPlan { plugins: (0..nplugins).map(|_| r.chance(1, 3)).collect() };
  let rt = rt_real(*r.pick(&[2, 3, 4]));
  let runs = if o.rerun && r.chance(1, 2) { 2 } else { 1 };
  let mut ctxs: Vec<(Option<TriggerEvent>, Option<Payload>)> = (0..nwf)
    .map(|_| {
      let e = if o.context && r.chance(2, 3) { Some(crate::core::event(&mut r)) } else { None };
      let p = if o.context && r.chance(2, 3) { Some(crate::core::payload(&mut r)) } else { None };
      (e, p)
    })
    .collect();
  let conditions = o.conditions && case.idx % 10 == 7;
  if conditions {
    crate::core::add_conditions(case, &mut r, &w, &mut specs, &mut ctxs);
  }
  let mut lists = vec![remotes.iter().map(|x| x.url()).collect::<Vec<_>>()];
  if o.two_starts && r.chance(1, 3) {
    let at = r.us(nr + 1);
    let tail = lists[0].split_off(at);
    lists.push(tail);
    if r.chance(1, 2) && !lists[0].is_empty() {
      let again = lists[0][0].clone();
      lists[1].push(again);
    }
  }
  case.describe(format!("remote run of {}", specs[0].id));
  let expect: Vec<usize> = (0..nr).collect();
  let np = plan.plugins.len();
  let rs = &remotes;
  let out = rt.block_on(async {
    if !connect(&w, &client, lists, &expect).await {
      return None;
    }
    let astro = build_astro(&w, &plan, client.clone());
    let mut outs = vec![];
    let mut marks = vec![];
    let mut built: Vec<Option<Workflow>> = vec![None; specs.len()];
    for _ in 0..runs {
      w.signals.lock().clear();
      marks.push(w.rec.len());
      let from = w.rec.len();
      let mut watch = vec![];
      for h in holds.iter() {
        if let Some(us) = h.cancel_us {
          let (w, key) = (w.clone(), h.key.clone());
          watch.push(tokio::spawn(async move {
            loop {
              let seen = w.rec.any_from(from, |e| e.k == K::Run && !e.exit && e.wf == key.0 && e.job.as_deref() == Some(&key.1) && e.step == Some(key.2));
              if seen {
                break;
              }
              tokio::time::sleep(Duration::from_micros(300)).await;
            }
            if us > 0 {
              tokio::time::sleep(Duration::from_micros(us)).await;
            }
            w.do_cancel(&key.0, &CancelPlan { job: key.1.clone(), at: When::Time(0), via_ctx: us % 2 == 0 });
          }));
        }
      }
      let mut hs = vec![];
      for (i, s) in specs.iter().enumerate() {
        let (w, astro, s, c, b) = (w.clone(), astro.clone(), s.clone(), ctxs[i].clone(), built[i].clone());
        hs.push(tokio::spawn(async move {
          let opts = CtxOpts { event: c.0, payload: c.1 };
          match b {
            Some(b) => {
              w.add(&s);
              run_built(&w, &astro, &s, b, opts).await
            }
            None => run_spec(&w, &astro, &s, opts).await,
          }
        }));
      }
      let mut os = vec![];
      for (i, h) in hs.into_iter().enumerate() {
        let out = h.await.expect("run task");
        built[i] = out.workflow.clone();
        os.push(out);
      }
      for h in watch {
        h.abort();
        h.await.ok();
      }
      let sigs = w.signals.lock().clone();
      outs.push((os, sigs));
    }
    if o.settle {
      // let every remote side receive what is on its way
      let begin = std::time::Instant::now();
      loop {
        let want = w.rec.count(|e| e.obs == 0 && !e.exit && e.wf != PROBE && Tr::is_hook(e.k) && e.k != K::BeforeStep);
        let ok = rs.iter().all(|x| {
          let obs = if x.wrapped { RPC + x.idx } else { REMOTE + x.idx };
          w.rec.count(|e| e.obs == obs && e.exit && e.wf != PROBE && Tr::is_hook(e.k) && e.k != K::BeforeStep) >= want
        });
        if ok {
          break;
        }
        tokio::time::sleep(Duration::from_millis(15)).await;
        if begin.elapsed() > Duration::from_secs(2) {
          let n = w.rec.len();
          let idle = tokio::task::spawn_blocking(|| process_idle_for(500)).await.unwrap_or(false);
          if (idle && w.rec.len() == n) || begin.elapsed() > Duration::from_secs(60) {
            break;
          }
        }
      }
    }
    Some((outs, marks))
  });
  for x in &remotes {
    let dead = x.dead();
    if dead {
      case.count("remote_sides_killed", 1);
    }
  }
  if conditions {
    crate::github::forget();
  }
  let evs = w.rec.take();
  let killed: Vec<usize> = remotes.iter().filter(|x| x.dead()).map(|x| x.idx).collect();
  rt.shutdown_background();
  for x in &remotes {
    x.stop();
  }
  let Some((outs, marks)) = out else {
    let answered: Vec<usize> = remotes.iter().filter(|x| evs.iter().any(|e| e.wf == PROBE && (e.obs == RPC + x.idx || e.obs == REMOTE + x.idx))).map(|x| x.idx).collect();
    case.fail(format!("only remote runners {:?} of {} were connected", answered, nr), json!({}));
    return;
  };
  case.count("runs", (runs * nwf) as u64);
  case.count("remote_runners", nr as u64);
  case.count("events", evs.len() as u64);
  let sig = signature(&evs);
  for (n, (os, sigs)) in outs.iter().enumerate() {
    let to = if n + 1 == outs.len() { evs.len() } else { marks[n + 1] };
    let slice = &evs[marks[n]..to];
    *w.signals.lock() = sigs.clone();
    for (i, out) in os.iter().enumerate() {
      if matches!(&out.result, Err(e) if e == "inconclusive") {
        case.inconclusive("run neither ended nor became quiet in time");
        continue;
      }
      let t = Tr::new(&w, slice, out, np, None);
      let info = RInfo {
        remotes: &remotes,
        holds: &holds,
        event: serde_json::to_value(&ctxs[i].0).unwrap(),
        payload: serde_json::to_value(&ctxs[i].1.clone().map(|p| Box::new(p) as Box<dyn ContextPayloadExt>)).unwrap(),
        sched: &inner,
        faults: &faults,
        killed: &killed,
        last_run: n + 1 == outs.len(),
      };
      case.count("steps_executed_remotely", t.evs.iter().filter(|e| e.k == K::Run && !e.exit).count() as u64);
      let vs = check(case, &t, &info);
      if !vs.is_empty() {
        case.fail(
          vs[0].clone(),
          json!({"violations": vs, "spec": out.spec.to_value(), "scripts": format!("{:?}", out.spec.jobs), "hooks": format!("{:?}", w.hooks),
            "plugins": plan.plugins, "run": n, "faults": format!("{:?}", faults), "denied": format!("{:?}", deny),
            "result": format!("{:?}", out.result), "trace": compact(&slice.iter().filter(|e| e.wf == out.spec.id).cloned().collect::<Vec<_>>(), 200)}),
        );
      }
    }
  }
  case.evals((runs * nwf) as u64);
  case.nontrivial(sig);
  case.sample(|| json!({"remotes": nr, "workflow": specs[0].to_value(), "trace": compact(&evs, 40)}));
}

/// Every executed step reached exactly one remote side, the one the scheduler chose.
fn placed(t: &Tr, i: &RInfo) -> Vec<String> {
  let mut v = vec![];
  for j in &t.spec.jobs {
    for n in 0..j.steps.len() {
      let runs = t.run_ev(&j.key, n);
      let chosen: Vec<&&Ev> = t.evs.iter().filter(|e| e.obs == SCHED && e.k == K::Custom && e.s == "schedule" && e.job.as_deref() == Some(&j.key) && e.step == Some(n)).collect();
      if runs.len() > 1 {
        v.push(format!("step {}/{} was executed {} times", j.key, n, runs.len()));
      }
      let announced = !t.enters(t.obs[0], K::RunStep, Some(&j.key), Some(n)).is_empty();
      if chosen.len() != announced as usize {
        v.push(format!("the scheduler was asked {} times for step {}/{}", chosen.len(), j.key, n));
        continue;
      }
      if let (Some(r), Some(c)) = (runs.first(), chosen.first()) {
        let on = i.remotes.iter().find(|x| REMOTE + x.idx == r.obs).map(|x| x.id.clone());
        if on.as_deref() != c.d["chosen"].as_str() {
          v.push(format!("step {}/{} was placed on {} but executed by {:?}", j.key, n, c.d["chosen"], on));
        }
        if r.d["id"].as_str() != Some(&format!("{}/{}/{}", t.spec.id, j.key, n)) {
          v.push(format!("step {}/{} was executed under the id {}", j.key, n, r.d["id"]));
        }
      }
    }
  }
  v
}

pub fn r01(case: &mut Case) {
  let big = case.idx % 3 == 0;
  let o = ROpts {
    p: Profile {
      logs: if big { 60 } else { 8 },
      jobs: (1, 5),
      hostile: true,
      producers: true,
      second_end: true,
      refuse: 0,
      vanish: 6,
      ..Default::default()
    },
    workflows: (1, 3),
    plain: true,
    context: true,
    decorate: true,
    local_plugins: 2,
    ..Default::default()
  };
  drive(case, &o, &|c, t, i| {
    c.count("lines", t.evs.iter().filter(|e| e.k == K::Sent).count() as u64);
    let l = t.local();
    let mut v = l.c05();
    v.extend(l.c04());
    v.extend(l.c07());
    v.extend(l.c09());
    v.extend(l.c18(&i.event, &i.payload));
    v.extend(placed(t, i));
    v
  });
}

pub fn r02(case: &mut Case) {
  if (case.idx / 8) % 5 == 4 {
    return crate::retry::run(case);
  }
  let o = ROpts {
    p: Profile { logs: 3, jobs: (1, 5), steps: (1, 3), density: 15, ..Default::default() },
    holds: true,
    hook_delay: true,
    rerun: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, i| {
    let l = t.local();
    let mut v = l.c05();
    v.extend(l.c04());
    let (x, _) = l.c11();
    v.extend(x);
    for j in &t.spec.jobs {
      for n in 0..j.steps.len() {
        let at = |e: &&&Ev| e.job.as_deref() == Some(&j.key) && e.step == Some(n);
        let run = t.run_ev(&j.key, n);
        let rpc: Vec<&&Ev> = t.evs.iter().filter(at).filter(|e| e.obs >= RPC && e.obs < SCHED && e.s.starts_with("signal:")).collect();
        let got: Vec<&&Ev> = t.evs.iter().filter(at).filter(|e| e.k == K::Signal).collect();
        if run.is_empty() {
          if !rpc.is_empty() {
            v.push(format!("signals were sent for step {}/{}, which never ran", j.key, n));
          }
          continue;
        }
        if rpc.len() > 1 {
          v.push(format!("{} signals were sent for step {}/{}", rpc.len(), j.key, n));
        }
        if rpc.iter().any(|e| e.obs - RPC + REMOTE != run[0].obs) {
          v.push(format!("a signal for step {}/{} was sent to another remote runner", j.key, n));
        }
        let key = (t.spec.id.clone(), j.key.clone(), n);
        if let Some(h) = i.holds.iter().find(|h| h.key == key) {
          c.count("signalled_steps", 1);
          if got.len() != 1 {
            v.push(format!("step {}/{} ended after {} signals, expected one", j.key, n, got.len()));
          } else {
            c.count(&format!("signal_{}", got[0].s), 1);
            let cancelled = t.evs.iter().any(|e| e.k == K::CancelRet && e.s == "ok" && e.job.as_deref() == Some(&j.key));
            if got[0].s == "timeout" && !h.timeout {
              v.push(format!("step {}/{} received a timeout although it has none", j.key, n));
            }
            if got[0].s == "cancel" && !cancelled {
              v.push(format!("step {}/{} received a cancellation nobody asked for", j.key, n));
            }
          }
        } else if got.iter().any(|e| e.s == "timeout") {
          v.push(format!("step {}/{} received a timeout although it has none", j.key, n));
        }
      }
    }
    v.extend(placed(t, i));
    v
  });
}

pub fn r03(case: &mut Case) {
  let o = ROpts {
    p: Profile {
      logs: *[5, 40, 120].get(case.idx as usize % 3).unwrap(),
      jobs: (1, 4),
      steps: (1, 3),
      density: 15,
      hostile: case.idx % 2 == 0,
      producers: true,
      refuse: 0,
      ..Default::default()
    },
    remotes: (1, 4),
    remote_plugins: 2,
    hook_err: true,
    hook_delay: true,
    refuse: true,
    two_starts: true,
    settle: true,
    context: true,
    rerun: false,
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, i| {
    let mut v = t.ended();
    if !v.is_empty() {
      return v;
    }
    for x in i.remotes {
      if x.refuse {
        c.count("refusing_remotes", 1);
      }
      for obs in i.observers(x) {
        let s = t.relay(obs.clone());
        c.count("events_received", s.evs.iter().filter(|e| !e.exit && Tr::is_hook(e.k) && e.obs != 0 && obs.contains(&e.obs)).count() as u64);
        v.extend(s.c08());
        v.extend(s.c06());
        v.extend(s.c07());
        if !v.is_empty() {
          v.insert(0, format!("remote runner {}: {}", x.idx, v[0].clone()));
          return v;
        }
      }
    }
    v
  });
}

fn outcome(t: &Tr) -> Vec<String> {
  let mut v = vec![];
  let Ok(res) = &t.out.result else { return v };
  let (mut wf_f, mut wf_c) = (false, false);
  for j in &t.spec.jobs {
    let Some(r) = res.jobs.get(&j.key) else {
      v.push(format!("no result for job {}", j.key));
      continue;
    };
    let (mut f, mut c) = (false, false);
    for (n, s) in j.steps.iter().enumerate() {
      let Some(x) = r.steps.get(n) else {
        v.push(format!("no result for step {}/{}", j.key, n));
        continue;
      };
      let skip = c || (f && !s.coe);
      if skip != (x.state == WorkflowState::Skipped) {
        v.push(format!("step {}/{} is {:?} after failed: {}, cancelled: {}", j.key, n, x.state, f, c));
      }
      f |= x.state == WorkflowState::Failed;
      c |= x.state == WorkflowState::Cancelled;
    }
    let want = if c {
      WorkflowState::Cancelled
    } else if f {
      WorkflowState::Failed
    } else {
      WorkflowState::Succeeded
    };
    if r.state != want {
      v.push(format!("job {} is {:?}, expected {:?}", j.key, r.state, want));
    }
    wf_f |= r.state == WorkflowState::Failed;
    wf_c |= r.state == WorkflowState::Cancelled;
  }
  let ok = match res.state {
    WorkflowState::Failed => wf_f,
    WorkflowState::Cancelled => wf_c,
    WorkflowState::Succeeded => !wf_f && !wf_c,
    _ => false,
  };
  if !ok {
    v.push(format!("workflow is {:?} with failed jobs: {}, cancelled jobs: {}", res.state, wf_f, wf_c));
  }
  v
}

pub fn r04(case: &mut Case) {
  let o = ROpts {
    p: Profile { logs: 6, jobs: (1, 5), steps: (1, 3), refuse: 5, panic: 5, fail: 8, vanish: 5, ..Default::default() },
    faults: true,
    hook_delay: true,
    mix: Mix::Untimed,
    ..Default::default()
  };
  drive(case, &o, &|c, t, i| {
    let mut v = t.ended();
    let Ok(res) = &t.out.result else { return v };
    v.extend(outcome(t));
    let killed = i.killed;
    for j in &t.spec.jobs {
      for n in 0..j.steps.len() {
        let announced = !t.enters(0, K::RunStep, Some(&j.key), Some(n)).is_empty();
        if !announced {
          continue;
        }
        let Some(sr) = res.jobs.get(&j.key).and_then(|r| r.steps.get(n)) else { continue };
        let at = |e: &&&Ev| e.job.as_deref() == Some(&j.key) && e.step == Some(n);
        let logs: Vec<(String, String)> = t.enters(0, K::Log, Some(&j.key), Some(n)).iter().map(|e| (e.s.clone(), e.d.as_str().unwrap().to_string())).collect();
        let sent: Vec<(String, String)> = t.evs.iter().filter(at).filter(|e| e.k == K::Sent).map(|e| (e.s.clone(), e.d.as_str().unwrap().to_string())).collect();
        let what = format!("step {}/{}", j.key, n);
        // lines in front of the trailing error lines the client added
        let kept = |want: &[(String, String)], exact: bool| -> Option<String> {
          let mut k = 0;
          while k < logs.len() && k < want.len() && logs[k] == want[k] {
            k += 1;
          }
          if exact && k < want.len() {
            return Some(format!("line {:?}, received before the failure, was lost", want[k]));
          }
          if logs.len() == k || logs[k..].iter().any(|l| l.0 != "error") {
            return Some(format!("no error line or foreign lines after the lines received: {:?}", &logs[k..]));
          }
          None
        };
        let failed = |code: bool| sr.state == WorkflowState::Failed && (!code || sr.exit_code.is_some());
        let runs = t.run_ev(&j.key, n);
        if runs.is_empty() {
          c.count("not_reached", 1);
          if !failed(true) {
            v.push(format!("{} never reached a remote runner but is {:?} {:?}", what, sr.state, sr.exit_code));
          } else if let Some(m) = kept(&[], true) {
            v.push(format!("{}: {}", what, m));
          }
          continue;
        }
        let on = runs[0].obs - REMOTE;
        let ret = t.evs.iter().filter(at).find(|e| e.k == K::RunRet).map(|e| e.s.clone()).unwrap_or_default();
        let cut = t.evs.iter().filter(at).find(|e| e.obs == RPC + on && e.s == "cut");
        if let Some(cut) = cut {
          let lines: Vec<(String, String)> = cut.d["lines"].as_array().unwrap().iter().map(|l| (l[0].as_str().unwrap().to_string(), l[1].as_str().unwrap().to_string())).collect();
          let done = cut.d["result"].as_bool().unwrap();
          let kill = matches!(i.faults.get(&(t.spec.id.clone(), j.key.clone(), n)), Some(RunFault::KillAfter(_)));
          if !done {
            c.count("cut_before_result", 1);
            if !failed(true) {
              v.push(format!("{} was cut off before its result but is {:?} {:?}", what, sr.state, sr.exit_code));
            } else if let Some(m) = kept(&lines, !kill && !killed.contains(&on)) {
              v.push(format!("{}: {}", what, m));
            }
          } else {
            c.count("cut_after_result", 1);
          }
          continue;
        }
        if killed.contains(&on) {
          // the runner's stream may have been given up first, and that result have made it through
          let given_up = sr.state == WorkflowState::Failed && sr.exit_code == Some(1);
          // (and, after its result, the client may still have seen the connection break)
          let complete = logs.len() >= sent.len() && crate::monitors::compare_lines(&sent, &logs[..sent.len()]).is_none() && logs[sent.len()..].iter().all(|l| l.0 == "error");
          let like = (matches(&t.reported(&j.key, n), sr) || given_up) && complete;
          // or it failed with what had been received by then, and error lines of the client
          let own = logs.iter().rev().take_while(|l| l.0 == "error").count();
          let partly = (1..=own).any(|k| crate::monitors::first_lines(&sent, &logs[..logs.len() - k]));
          if !like && (!failed(true) || !partly) {
            v.push(format!("{} ran on a remote side that died and is {:?} with {:?}, sent {:?}", what, sr.state, logs, sent));
          }
          continue;
        }
        if ret == "err" || ret == "panic" {
          c.count("refused", 1);
          if !failed(true) {
            v.push(format!("{} was refused by its remote runner but is {:?}", what, sr.state));
          } else if let Some(m) = kept(&[], true) {
            v.push(format!("{}: {}", what, m));
          }
          continue;
        }
        if !matches(&t.reported(&j.key, n), sr) {
          v.push(format!("{} is {:?} {:?} but its remote runner reported {:?}", what, sr.state, sr.exit_code, t.reported(&j.key, n)));
        }
        if let Some(m) = crate::monitors::compare_lines(&sent, &logs) {
          v.push(format!("{}: {}", what, m));
        }
      }
    }
    v
  });
}

fn matches(e: &Option<crate::monitors::Expect>, s: &StepRunResult) -> bool {
  use crate::monitors::Expect::*;
  match e {
    Some(Succeeded) => s.state == WorkflowState::Succeeded && s.exit_code.is_none(),
    Some(Cancelled) => s.state == WorkflowState::Cancelled,
    Some(Failed(c)) => s.state == WorkflowState::Failed && (c.is_none() && s.exit_code.is_some() || s.exit_code == *c),
    None => false,
  }
}

pub fn r05(case: &mut Case) {
  let o = ROpts {
    p: Profile { logs: 1, jobs: (1, 6), steps: (1, 3), cancels: if case.idx % 3 == 0 { 2 } else { 0 }, ..Default::default() },
    workflows: (1, 3),
    remotes: (0, 3),
    default_sched: true,
    decorate: case.idx % 2 == 0,
    hook_err: true,
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, i| {
    let mut v = t.ended();
    let Ok(_) = &t.out.result else { return v };
    v.extend(placed(t, i));
    for k in [K::RunWorkflow, K::RunJob, K::RunStep, K::StepDone, K::JobDone, K::WorkflowDone] {
      let key = |e: &&Ev| {
        let d = match k {
          K::RunWorkflow | K::RunJob | K::RunStep if e.obs == 0 => e.d["source"].clone(),
          _ => e.d.clone(),
        };
        format!("{:?} {:?} {}", e.job, e.step, d)
      };
      let mut a: Vec<String> = t.evs.iter().filter(|e| e.obs == 0 && !e.exit && e.k == k).map(key).collect();
      let mut b: Vec<String> = t.evs.iter().filter(|e| e.obs == SCHED && e.k == k).map(key).collect();
      c.count("callbacks", b.len() as u64);
      a.sort();
      b.sort();
      if a != b {
        let x = a.iter().find(|x| !b.contains(x)).or(b.iter().find(|x| !a.contains(x)));
        v.push(format!("{:?}: {} events but {} scheduler callbacks, e.g. {:?}", k, a.len(), b.len(), x));
      }
    }
    if i.last_run {
      // all workflows have ended by now
      let ids: Vec<String> = i.remotes.iter().map(|r| r.id.clone()).collect();
      let mut bound = HashMap::new();
      for e in t.evs.iter().filter(|e| e.obs == SCHED && e.s == "schedule") {
        let host = e.d["command"]["container"]["name"].as_str().is_some_and(|n| n.starts_with("host/"));
        if let (false, Some(on), Some(job)) = (host, e.d["chosen"].as_str(), &e.job) {
          bound.insert(job.clone(), on.to_string());
        }
      }
      let jobs: Vec<(JobId, String)> = bound.into_iter().map(|(j, on)| (JobId::new(t.spec.id.clone(), j), on)).collect();
      c.count("completed_jobs_probed", if ids.len() > 1 { jobs.len() as u64 } else { 0 });
      v.extend(crate::sched::left_over(i.sched, &ids, &jobs));
    }
    v
  });
}

fn as_command(step: &Value) -> Value {
  let mut x = step.clone();
  x.as_object_mut().unwrap().remove("on");
  x
}

pub fn r06(case: &mut Case) {
  let o = ROpts {
    p: Profile { logs: 1, jobs: (1, 3), steps: (1, 4), refuse: 0, ..Default::default() },
    remotes: (1, 4),
    remote_plugins: 3,
    local_plugins: 2,
    hook_err: case.idx % 2 == 0,
    rewrite: true,
    refuse_hook: true,
    decorate: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, i| {
    let mut v = t.ended();
    let Some(wf) = &t.out.workflow else { return v };
    for j in &t.spec.jobs {
      for n in 0..j.steps.len() {
        let announced = t.enters(0, K::RunStep, Some(&j.key), Some(n));
        let Some(announced) = announced.first() else { continue };
        let what = format!("step {}/{}", j.key, n);
        // local chain
        let mut cur = as_command(&step_value(&wf.jobs[&j.key].steps[n]));
        for &ob in &t.obs {
          if let Some(r) = t.exits(ob, K::Custom, Some(&j.key), Some(n)).first() {
            cur = as_command(&r.d);
          }
        }
        let before = cur.clone();
        // remote sides, in the order they were called
        let mut calls: Vec<&&Ev> = t.evs.iter().filter(|e| e.job.as_deref() == Some(&j.key) && e.step == Some(n) && e.obs >= RPC && e.obs < SCHED && !e.exit && e.s == "before").collect();
        calls.sort_by_key(|e| e.seq);
        let mut failed = false;
        let mut seen = HashSet::new();
        for call in &calls {
          let x = &i.remotes[call.obs - RPC];
          if !seen.insert(x.idx) {
            v.push(format!("{}: the hooks of remote runner {} were called twice", what, x.idx));
          }
          if failed {
            continue;
          }
          if call.d != cur {
            v.push(format!("{}: remote runner {} was given {}, the hooks before it produced {}", what, x.idx, call.d, cur));
            break;
          }
          let ret = t.evs.iter().find(|e| e.exit && e.seq > call.seq && e.obs == call.obs && e.k == K::Custom && e.job == call.job && e.step == call.step);
          let Some(ret) = ret else { continue };
          let obs: Vec<usize> = (0..x.plugins).map(|p| RPLUGIN + 10 * x.idx + p).chain([REMOTE + x.idx]).collect();
          let mut chain = cur.clone();
          let mut refused = false;
          let direct = obs.iter().all(|ob| t.enters(*ob, K::BeforeStep, Some(&j.key), Some(n)).is_empty());
          if direct && ret.s == "err" {
            // refused before the real server saw it
            failed = true;
            c.count("failed_hooks", 1);
            continue;
          }
          for (p, ob) in obs.iter().enumerate() {
            let e = t.enters(*ob, K::BeforeStep, Some(&j.key), Some(n));
            if e.len() != 1 {
              v.push(format!("{}: observer {} of remote runner {} was called {} times", what, ob, x.idx, e.len()));
              break;
            }
            if as_command(&e[0].d) != chain {
              v.push(format!("{}: observer {} received {}, the hooks before it produced {}", what, ob, e[0].d, chain));
            }
            match t.exits(*ob, K::Custom, Some(&j.key), Some(n)).first() {
              Some(r) => {
                if as_command(&r.d) != chain {
                  c.count("rewrites", 1);
                }
                chain = as_command(&r.d)
              }
              // a failing plugin is passed over, a failing runner fails the whole
              None => refused |= p == obs.len() - 1,
            }
          }
          if refused != (ret.s == "err") {
            v.push(format!("{}: hook of remote runner {} returned {}", what, x.idx, ret.s));
          }
          if ret.s == "err" {
            failed = true;
            c.count("failed_hooks", 1);
          } else {
            if ret.d != chain {
              v.push(format!("{}: remote runner {} answered {}, its hooks produced {}", what, x.idx, ret.d, chain));
            }
            cur = chain;
          }
        }
        if !failed && seen.len() != i.remotes.len() {
          v.push(format!("{}: the hooks of {} of {} remote runners were called", what, seen.len(), i.remotes.len()));
        }
        let want = if failed { &before } else { &cur };
        if &as_command(&announced.d["source"]) != want {
          v.push(format!("{} was announced as {}, the hooks produced {}", what, announced.d["source"], want));
        }
        for r in t.run_ev(&j.key, n) {
          c.count("executed", 1);
          if &r.d["command"] != want {
            v.push(format!("{} was executed as {}, the hooks produced {}", what, r.d["command"], want));
          }
        }
      }
    }
    v
  });
}

// ------------------------------------------------------------------ R08: connecting

fn garbage_server(kind: u64) -> String {
  let addr = address();
  let l = std::net::TcpListener::bind(&addr).unwrap();
  std::thread::spawn(move || {
    use std::io::{Read, Write};
    l.set_nonblocking(false).ok();
    for s in l.incoming().take(8) {
      let Ok(mut s) = s else { break };
      match kind {
        0 => drop(s),
        1 => {
          let mut b = [0u8; 64];
          s.read(&mut b).ok();
          s.write_all(b"HTTP/1.1 400 Bad Request\r\ncontent-length: 0\r\n\r\n").ok();
        }
        _ => {
          let mut b = [0u8; 64];
          s.read(&mut b).ok();
          s.write_all(&[0xffu8; 200]).ok();
        }
      }
    }
  });
  addr
}

pub fn r08(case: &mut Case) {
  let mut r = case.rng.fork();
  let w = World::new(r.next(), false, HookCfg::default());
  let n = r.range(1, 5) as usize;
  let alike_ids = r.chance(1, 3);
  let mut remotes: Vec<Remote> = vec![];
  let mut urls: Vec<String> = vec![];
  let mut expect: Vec<usize> = vec![];
  let mut by_id: BTreeMap<String, usize> = BTreeMap::new();
  let mut meta: BTreeMap<String, (bool, bool, i32)> = BTreeMap::new();
  let mut kinds: BTreeMap<&str, u64> = BTreeMap::new();
  for _ in 0..n + 2 {
    let i = remotes.len();
    match r.below(9) {
      0 => {
        *kinds.entry("unreachable").or_insert(0) += 1;
        urls.push(format!("http://{}", address()));
      }
      1 => {
        *kinds.entry("garbage").or_insert(0) += 1;
        urls.push(format!("http://{}", garbage_server(r.below(3))));
      }
      2 => {
        *kinds.entry("bad_url").or_insert(0) += 1;
        urls.push(r.pick(&["", "not a url", "http://", "ftp://127.0.0.1:1", "127.0.0.1", "http://127.0.0.1:99999", "http://[::1"]).to_string());
      }
      3 if !urls.is_empty() => {
        *kinds.entry("repeated_url").or_insert(0) += 1;
        let u = r.pick(&urls).clone();
        urls.push(u);
      }
      k => {
        let again = k == 4 && !remotes.is_empty();
        let id = if again { remotes[r.us(remotes.len())].id.clone() } else if alike_ids { runner_id(i, &mut r) } else { format!("{}{}", if r.chance(1, 4) { r.text(3) } else { r.ident(4) }, i) };
        let version = if k == 5 { Some(r.pick(&["0.0.1", "", "0.2.0 ", "0.2.00", "v0.2.0", "0.2", "999.0.0", "0.2.0-beta", "0.2.1", "1.2.0"]).to_string()) } else { None };
        let merr = k == 6 && r.chance(1, 2);
        let (host, docker, max) = (r.chance(1, 2), r.chance(3, 4), r.next() as i32);
        let plain = version.is_none() && !merr && r.chance(1, 3);
        let bad = version.is_some() || merr;
        let wrap = if plain { None } else { Some(WrapCfg { version, metadata_error: merr, ..Default::default() }) };
        let x = start_remote(&w, i, RemoteCfg { id: id.clone(), plugins: 0, host, docker, max_runs: max, wrap });
        urls.push(x.url());
        remotes.push(x);
        if bad {
          *kinds.entry("incompatible").or_insert(0) += 1;
        } else if by_id.contains_key(&id) {
          *kinds.entry("repeated_id").or_insert(0) += 1;
        } else {
          *kinds.entry("good").or_insert(0) += 1;
          by_id.insert(id.clone(), i);
          meta.insert(id, (host, docker, max));
          expect.push(i);
        }
      }
    }
  }
  let p = Profile { logs: 2, jobs: (1, 6), steps: (1, 3), refuse: 0, ..Default::default() };
  let spec = gen::spec(&mut r, "wf", &p, false);
  let inner = DefaultScheduler::new();
  let seed = r.next();
  let client = AstroRunRemoteRunnerClient::builder()
    .scheduler(RecSched { w: w.clone(), inner, pick: Pick::Spread(seed), deny: HashSet::new() })
    .build()
    .unwrap();
  let rt = rt_real(2);
  let plan = PluginPlan { plugins: vec![false] };
  let last_is_bad = !remotes.iter().any(|x| Some(&x.url()) == urls.last() && expect.contains(&x.idx));
  // all at once, in two calls one after the other, or again after the first call was dropped
  let manner = r.below(4);
  let cut = r.us(urls.len() + 1);
  let (ok, out, left) = rt.block_on(async {
    let ok = match manner {
      0 if cut < urls.len() => {
        let first: Vec<usize> = expect.iter().cloned().filter(|i| urls[..cut].contains(&remotes[*i].url())).collect();
        connect(&w, &client, vec![urls[..cut].to_vec()], &first).await && connect(&w, &client, vec![urls[cut..].to_vec()], &expect).await
      }
      1 => connect_again(&w, &client, &urls, &expect).await,
      _ => connect(&w, &client, vec![urls.clone()], &expect).await,
    };
    if last_is_bad && ok {
      // whatever follows the last good address has to be dealt with too
      for _ in 0..50 {
        tokio::time::sleep(Duration::from_millis(2)).await;
      }
    }
    let astro = build_astro(&w, &plan, client.clone());
    let out = run_spec(&w, &astro, &spec, CtxOpts { event: None, payload: None }).await;
    // the events take their way to every runner, once
    let done = |i: usize| w.rec.count(|e| e.obs == REMOTE + i && e.k == K::WorkflowDone && !e.exit && e.wf == "wf");
    for _ in 0..2000 {
      if !ok || expect.iter().all(|i| done(*i) > 0) {
        break;
      }
      progress();
      tokio::time::sleep(Duration::from_millis(10)).await;
    }
    (ok, out, expect.iter().map(|i| (*i, done(*i))).filter(|d| d.1 != 1).collect::<Vec<_>>())
  });
  let evs = w.rec.take();
  rt.shutdown_background();
  for x in &remotes {
    x.stop();
  }
  let t = Tr::new(&w, &evs, &out, 1, None);
  let mut v = t.ended();
  if ok && !left.is_empty() {
    v.push(format!("the workflow's completion has to reach every connected runner once, it came this often: {:?}", left));
  }
  case.count(["connected_in_two_calls", "connected_again", "connected_in_one_call"][(manner as usize).min(2)], 1);
  if !ok {
    let answered: Vec<usize> = expect.iter().cloned().filter(|i| evs.iter().any(|e| e.wf == PROBE && (e.obs == RPC + i || e.obs == REMOTE + i))).collect();
    v.push(format!("only remote runners {:?} of the expected {:?} were connected", answered, expect));
  }
  for e in evs.iter().filter(|e| e.obs == SCHED && e.k == K::Custom && e.s == "schedule") {
    let mut got: BTreeMap<String, u64> = BTreeMap::new();
    for m in e.d["offered"].as_array().unwrap() {
      let id = m["id"].as_str().unwrap().to_string();
      *got.entry(id.clone()).or_insert(0) += 1;
      case.count("offers", 1);
      match meta.get(&id) {
        None => v.push(format!("runner {:?} was offered although it must not be connected", m)),
        Some((h, d, mx)) => {
          if m["support_host"] != json!(h)
            || m["support_docker"] != json!(d)
            || m["max_runs"] != json!(mx)
            || m["os"] != json!(std::env::consts::OS)
            || m["arch"] != json!(std::env::consts::ARCH)
            || m["version"] != json!(astro_run_remote_runner_version())
          {
            v.push(format!("runner was offered as {}, it announced {:?}", m, (h, d, mx)));
          }
        }
      }
    }
    if ok && (got.len() != meta.len() || got.values().any(|n| *n != 1)) {
      v.push(format!("offered {:?}, connected must be {:?}", got, meta.keys().collect::<Vec<_>>()));
    }
  }
  for e in evs.iter().filter(|e| !e.exit && (e.obs >= REMOTE && e.obs < CTL || e.obs >= RPC && e.obs < SCHED)) {
    let i = if e.obs >= RPC { e.obs - RPC } else { e.obs - REMOTE };
    if !expect.contains(&i) {
      v.push(format!("remote runner {} received {:?} {} although it must not be connected", i, e.k, e.s));
      break;
    }
  }
  if expect.is_empty() {
    case.count("none_connected", 1);
    if let Ok(res) = &out.result {
      if res.state != WorkflowState::Failed {
        v.push(format!("no runner is connected but the workflow is {:?}", res.state));
      }
    }
  } else if ok {
    v.extend(t.c05());
    v.extend(t.c07());
  }
  v.dedup();
  if !v.is_empty() {
    case.fail(v[0].clone(), json!({"violations": v, "urls": urls, "remotes": remotes.iter().map(|x| json!([x.id, x.url()])).collect::<Vec<_>>(), "expected": expect, "trace": compact(&evs, 120)}));
  }
  for (k, n) in kinds {
    case.count(k, n);
  }
  case.evals(1);
  case.nontrivial(hash_str(seed, &format!("{:?}", expect)));
  case.sample(|| json!({"urls": urls, "connected": expect}));
}

pub fn astro_run_remote_runner_version() -> &'static str {
  astro_run_remote_runner::VERSION
}
