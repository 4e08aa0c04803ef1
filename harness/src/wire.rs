//! What crosses the wire between client and remote runner: every message type through the real gRPC stack, and
//! arbitrary bytes in either direction.
use crate::core::{event, payload};
use crate::engine::*;
use crate::frame::*;
use crate::remote::{address, listening};
use crate::rng::{hash_str, Rng};
use astro_run::*;
use astro_run_protocol::remote_runner::{RemoteRunnerClient, RemoteRunnerExt, RemoteRunnerServer};
use astro_run_protocol::tonic;
use astro_run_protocol::tonic::codec::{Codec, DecodeBuf, Decoder, EncodeBuf, Encoder};
use astro_run_protocol::tonic::codegen::{http, Body, BoxFuture, Service, StdError};
use astro_run_protocol::tonic::Status;
use astro_run_protocol::{Empty, ProtocolEvent, RunResponse as Item, RunnerMetadata, SignalEvent};
use astro_run_remote_runner::AstroRunRemoteRunnerServer;
use bytes::{Buf, BufMut};
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::sync::{Arc, OnceLock};
use std::task::Poll;
use std::time::Duration;
use tokio_stream::StreamExt;

// ------------------------------------------------------------------ values

fn text(r: &mut Rng) -> String {
  match r.below(12) {
    0 => String::new(),
    1 => "x\"\\\u{0}\u{1f}\u{7f}\u{2028}".to_string(),
    2 => {
      let n = *r.pick(&[300, 5000, 70_000]);
      let unit = r.pick(&["a", "é", "\"", "\n", "🚀", "\\u0041"]).to_string();
      unit.repeat(n / unit.len())
    }
    3 => (0..r.below(12)).map(|_| char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect(),
    4 | 5 => r.ident(10),
    _ => r.text(10),
  }
}

fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
  if r.chance(1, 2) {
    Some(f(r))
  } else {
    None
  }
}

fn list<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
  let n = match r.below(12) {
    0 => r.range(5, 60),
    1..=4 => 0,
    _ => r.range(1, 4),
  };
  (0..n).map(|_| f(r)).collect()
}

fn step_id(r: &mut Rng) -> StepId {
  let n = *r.pick(&[0, 1, 7, 41, 1 << 20, u32::MAX as usize]);
  StepId::new(text(r), text(r), n)
}

fn time(r: &mut Rng) -> chrono::DateTime<chrono::Utc> {
  let s = match r.below(4) {
    0 => 0,
    1 => -(r.below(4_000_000_000) as i64),
    _ => r.below(9_000_000_000) as i64,
  };
  let ns = match r.below(3) {
    0 => 0,
    1 => r.below(1_000_000_000) as u32,
    _ => r.below(1000) as u32 * 1_000_000,
  };
  chrono::DateTime::from_timestamp(s, ns).unwrap()
}

fn envs(r: &mut Rng) -> EnvironmentVariables {
  let mut m = HashMap::new();
  for k in list(r, |r| if r.chance(1, 3) { text(r) } else { r.ident(8) }) {
    let v = match r.below(6) {
      // a number a double holds exactly and whose decimal form is short
      0 => EnvironmentVariable::Number(r.below(1 << 40) as f64 / 8.0 * if r.chance(1, 3) { -1.0 } else { 1.0 }),
      1 => EnvironmentVariable::Number(*r.pick(&[0.0, 1.0, -1.0, 1e300, 0.5, 9007199254740992.0])),
      2 => EnvironmentVariable::Boolean(r.chance(1, 2)),
      3 => EnvironmentVariable::String(r.pick(&["1", "true", "null", "1.0", "", "false", "-0"]).to_string()),
      _ => EnvironmentVariable::String(text(r)),
    };
    m.insert(k, v);
  }
  m
}

fn container(r: &mut Rng) -> ContainerOptions {
  ContainerOptions { name: text(r), volumes: opt(r, |r| list(r, text)), security_opts: opt(r, |r| list(r, text)) }
}

fn duration(r: &mut Rng) -> Duration {
  match r.below(4) {
    0 => Duration::from_secs(r.below(1 << 40)),
    1 => Duration::new(r.below(100_000), r.below(1_000_000_000) as u32),
    2 => *r.pick(&[Duration::ZERO, Duration::MAX, Duration::from_nanos(1)]),
    _ => Duration::from_secs(60 * r.below(100)),
  }
}

fn command(r: &mut Rng) -> Command {
  Command {
    id: step_id(r),
    name: opt(r, text),
    container: opt(r, container),
    run: text(r),
    continue_on_error: r.chance(1, 2),
    environments: envs(r),
    secrets: list(r, text),
    timeout: duration(r),
  }
}

fn condition(r: &mut Rng) -> Condition {
  if r.chance(1, 2) {
    Condition::Event(list(r, text))
  } else {
    Condition::Config(ConditionConfig {
      push: opt(r, |r| PushCondition { branches: opt(r, |r| list(r, text)), paths: opt(r, |r| list(r, text)) }),
      pull_request: opt(r, |r| PullRequestCondition { branches: opt(r, |r| list(r, text)), paths: opt(r, |r| list(r, text)) }),
    })
  }
}

fn step(r: &mut Rng) -> Step {
  let on = opt(r, condition);
  let mut s: Step = command(r).into();
  s.on = on;
  s
}

fn job(r: &mut Rng) -> Job {
  Job {
    id: JobId::new(text(r), text(r)),
    name: opt(r, text),
    on: opt(r, condition),
    steps: (0..r.below(4)).map(|_| step(r)).collect(),
    depends_on: list(r, text),
    working_directories: list(r, text),
  }
}

fn workflow(r: &mut Rng) -> Workflow {
  Workflow {
    id: WorkflowId::new(text(r)),
    name: opt(r, text),
    on: opt(r, condition),
    jobs: (0..r.below(4)).map(|_| (text(r), job(r))).collect(),
  }
}

fn trigger(r: &mut Rng) -> TriggerEvent {
  let mut e = event(r);
  match r.below(4) {
    0 => e.sha = text(r),
    1 => e.branch = text(r),
    2 => e.pr_number = *r.pick(&[None, Some(i64::MIN), Some(i64::MAX), Some(0), Some(-1)]),
    _ => e.ref_name = text(r),
  }
  e
}

fn run_event<T: Clone>(r: &mut Rng, source: T) -> (RunEvent<T>, Option<Payload>) {
  let p = opt(r, |r| {
    let mut p = payload(r);
    if r.chance(1, 3) {
      p.tag = text(r);
    }
    p
  });
  (RunEvent { source, trigger_event: opt(r, trigger), payload: p.clone().map(ContextPayload::new) }, p)
}

fn state(r: &mut Rng) -> WorkflowState {
  use WorkflowState::*;
  r.pick(&[Pending, Queued, InProgress, Succeeded, Failed, Cancelled, Skipped]).clone()
}

fn step_result(r: &mut Rng) -> StepRunResult {
  StepRunResult {
    id: step_id(r),
    state: state(r),
    exit_code: opt(r, |r| *r.pick(&[0, 1, -1, 127, i32::MAX, i32::MIN])),
    started_at: opt(r, time),
    completed_at: opt(r, time),
  }
}

fn job_result(r: &mut Rng) -> JobRunResult {
  JobRunResult { id: JobId::new(text(r), text(r)), state: state(r), started_at: opt(r, time), completed_at: opt(r, time), steps: list(r, step_result) }
}

fn log_type(r: &mut Rng) -> WorkflowLogType {
  if r.chance(1, 2) {
    WorkflowLogType::Log
  } else {
    WorkflowLogType::Error
  }
}

fn protocol_event(r: &mut Rng) -> ProtocolEvent {
  match r.below(11) {
    0 => {
      let s = step(r);
      ProtocolEvent::RunStep(run_event(r, s).0)
    }
    1 => {
      let s = job(r);
      ProtocolEvent::RunJob(run_event(r, s).0)
    }
    2 => {
      let s = workflow(r);
      ProtocolEvent::RunWorkflow(run_event(r, s).0)
    }
    3 => ProtocolEvent::StepCompleted(step_result(r)),
    4 => ProtocolEvent::JobCompleted(job_result(r)),
    5 => ProtocolEvent::WorkflowCompleted(WorkflowRunResult {
      id: WorkflowId::new(text(r)),
      state: state(r),
      started_at: opt(r, time),
      completed_at: opt(r, time),
      jobs: (0..r.below(5)).map(|_| (text(r), job_result(r))).collect(),
    }),
    6 => ProtocolEvent::StepLog(WorkflowLog { step_id: step_id(r), log_type: log_type(r), message: text(r), time: time(r) }),
    7 => ProtocolEvent::StateChange(WorkflowStateEvent::WorkflowStateUpdated { id: WorkflowId::new(text(r)), state: state(r) }),
    8 => ProtocolEvent::StateChange(WorkflowStateEvent::JobStateUpdated { id: JobId::new(text(r), text(r)), state: state(r) }),
    9 => ProtocolEvent::StateChange(WorkflowStateEvent::StepStateUpdated { id: step_id(r), state: state(r) }),
    _ => ProtocolEvent::Signal(SignalEvent { step_id: step_id(r), signal: if r.chance(1, 2) { Signal::Cancel } else { Signal::Timeout } }),
  }
}

fn metadata(r: &mut Rng) -> RunnerMetadata {
  RunnerMetadata {
    id: text(r),
    os: text(r),
    arch: text(r),
    support_docker: r.chance(1, 2),
    support_host: r.chance(1, 2),
    version: text(r),
    max_runs: *r.pick(&[0, 1, -1, 10, i32::MAX, i32::MIN]),
  }
}

// ------------------------------------------------------------------ projections (never through serde)

fn p_sid(x: &StepId) -> String {
  format!("{:?}", (x.workflow_id().inner(), x.job_key(), x.step_number()))
}
fn p_jid(x: &JobId) -> String {
  format!("{:?}", (x.workflow_id().inner(), x.job_key()))
}
fn d(x: &impl Debug) -> String {
  format!("{:?}", x)
}
fn p_env(x: &EnvironmentVariables) -> String {
  d(&x.iter().collect::<BTreeMap<_, _>>().iter().map(|(k, v)| {
    let v = match v {
      EnvironmentVariable::String(s) => format!("s{:?}", s),
      EnvironmentVariable::Number(n) => format!("n{:x}", n.to_bits()),
      EnvironmentVariable::Boolean(b) => format!("b{}", b),
    };
    (k.to_string(), v)
  }).collect::<Vec<_>>())
}
fn p_cont(x: &Option<ContainerOptions>) -> String {
  d(&x.as_ref().map(|c| (&c.name, &c.volumes, &c.security_opts)))
}
fn p_cmd(x: &Command) -> String {
  d(&(p_sid(&x.id), &x.name, p_cont(&x.container), &x.run, x.continue_on_error, p_env(&x.environments), &x.secrets, x.timeout))
}
fn p_on(x: &Option<Condition>) -> String {
  match x {
    None => "-".into(),
    Some(Condition::Event(e)) => format!("events {:?}", e),
    Some(Condition::Config(c)) => format!(
      "{:?} {:?}",
      c.push.as_ref().map(|p| (&p.branches, &p.paths)),
      c.pull_request.as_ref().map(|p| (&p.branches, &p.paths))
    ),
  }
}
fn p_step(x: &Step) -> String {
  format!("{} on {}", p_cmd(&x.clone().into()), p_on(&x.on))
}
fn p_job(x: &Job) -> String {
  d(&(p_jid(&x.id), &x.name, p_on(&x.on), x.steps.iter().map(p_step).collect::<Vec<_>>(), &x.depends_on, &x.working_directories))
}
fn p_wf(x: &Workflow) -> String {
  d(&(x.id.inner(), &x.name, p_on(&x.on), x.jobs.iter().map(|(k, j)| (k, p_job(j))).collect::<BTreeMap<_, _>>()))
}
fn p_trigger(x: &Option<TriggerEvent>) -> String {
  d(&x.as_ref().map(|e| (&e.event, &e.repo_owner, &e.repo_name, e.pr_number, &e.sha, &e.branch, &e.ref_name)))
}
fn p_re<T: Clone>(x: &RunEvent<T>, source: String) -> String {
  let p = x.payload.as_ref().map(|p| p.payload::<Payload>().map(|p| d(&(&p.tag, p.n, &p.list))));
  format!("{} by {} with {:?}", source, p_trigger(&x.trigger_event), p)
}
fn p_time(x: &Option<chrono::DateTime<chrono::Utc>>) -> String {
  d(&x.map(|t| (t.timestamp(), t.timestamp_subsec_nanos())))
}
fn p_sres(x: &StepRunResult) -> String {
  d(&(p_sid(&x.id), &x.state, x.exit_code, p_time(&x.started_at), p_time(&x.completed_at)))
}
fn p_jres(x: &JobRunResult) -> String {
  d(&(p_jid(&x.id), &x.state, p_time(&x.started_at), p_time(&x.completed_at), x.steps.iter().map(p_sres).collect::<Vec<_>>()))
}
fn p_event(x: &ProtocolEvent) -> String {
  match x {
    ProtocolEvent::RunStep(e) => format!("run step {}", p_re(e, p_step(&e.source))),
    ProtocolEvent::RunJob(e) => format!("run job {}", p_re(e, p_job(&e.source))),
    ProtocolEvent::RunWorkflow(e) => format!("run workflow {}", p_re(e, p_wf(&e.source))),
    ProtocolEvent::StepCompleted(e) => format!("step done {}", p_sres(e)),
    ProtocolEvent::JobCompleted(e) => format!("job done {}", p_jres(e)),
    ProtocolEvent::WorkflowCompleted(e) => format!(
      "workflow done {:?}",
      (e.id.inner(), &e.state, p_time(&e.started_at), p_time(&e.completed_at), e.jobs.iter().map(|(k, j)| (k, p_jres(j))).collect::<BTreeMap<_, _>>())
    ),
    ProtocolEvent::StepLog(e) => format!("log {:?}", (p_sid(&e.step_id), &e.log_type, &e.message, p_time(&Some(e.time)))),
    ProtocolEvent::StateChange(WorkflowStateEvent::WorkflowStateUpdated { id, state }) => format!("workflow {:?} {:?}", id.inner(), state),
    ProtocolEvent::StateChange(WorkflowStateEvent::JobStateUpdated { id, state }) => format!("job {} {:?}", p_jid(id), state),
    ProtocolEvent::StateChange(WorkflowStateEvent::StepStateUpdated { id, state }) => format!("step {} {:?}", p_sid(id), state),
    ProtocolEvent::Signal(e) => format!("signal {} {:?}", p_sid(&e.step_id), e.signal),
  }
}
fn p_ctx(x: &Context) -> String {
  d(&(p_sid(&x.id), p_cmd(&x.command), p_trigger(&x.event), &x.payload))
}
fn p_meta(x: &RunnerMetadata) -> String {
  d(&(&x.id, &x.os, &x.arch, x.support_docker, x.support_host, &x.version, x.max_runs))
}
fn p_item(x: &Item) -> String {
  match x {
    Item::Log { step_id, log } => format!("log {} {:?} {:?}", p_sid(step_id), log.log_type, log.message),
    Item::Result { step_id, result } => format!("result {} {:?}", p_sid(step_id), result),
  }
}

// ------------------------------------------------------------------ an echo

#[derive(Default)]
struct Slot {
  meta: Option<RunnerMetadata>,
  items: Vec<Item>,
  answer: Option<Command>,
  seen: Vec<String>,
}

struct Echo(Arc<Mutex<Slot>>);

#[tonic::async_trait]
impl RemoteRunnerExt for Echo {
  type RunStream = tokio_stream::Iter<std::vec::IntoIter<tonic::Result<Item>>>;
  async fn get_runner_metadata(&self, _: tonic::Request<Empty>) -> std::result::Result<tonic::Response<RunnerMetadata>, Status> {
    Ok(tonic::Response::new(self.0.lock().meta.take().unwrap_or_default()))
  }
  async fn run(&self, x: tonic::Request<Context>) -> std::result::Result<tonic::Response<Self::RunStream>, Status> {
    let mut s = self.0.lock();
    s.seen.push(p_ctx(x.get_ref()));
    let items: Vec<_> = std::mem::take(&mut s.items).into_iter().map(Ok).collect();
    Ok(tonic::Response::new(tokio_stream::iter(items)))
  }
  async fn send_event(&self, x: tonic::Request<ProtocolEvent>) -> std::result::Result<tonic::Response<Empty>, Status> {
    self.0.lock().seen.push(p_event(x.get_ref()));
    Ok(tonic::Response::new(Empty {}))
  }
  async fn call_before_run_step_hook(&self, x: tonic::Request<Command>) -> std::result::Result<tonic::Response<Command>, Status> {
    let mut s = self.0.lock();
    s.seen.push(p_cmd(x.get_ref()));
    Ok(tonic::Response::new(s.answer.take().unwrap_or_default()))
  }
}

// ------------------------------------------------------------------ raw bytes

#[derive(Clone, Default)]
struct Raw;
struct RawEnc;
struct RawDec;
impl Encoder for RawEnc {
  type Item = Vec<u8>;
  type Error = Status;
  fn encode(&mut self, x: Vec<u8>, b: &mut EncodeBuf<'_>) -> std::result::Result<(), Status> {
    b.put_slice(&x);
    Ok(())
  }
}
impl Decoder for RawDec {
  type Item = Vec<u8>;
  type Error = Status;
  fn decode(&mut self, b: &mut DecodeBuf<'_>) -> std::result::Result<Option<Vec<u8>>, Status> {
    let mut v = vec![0; b.remaining()];
    b.copy_to_slice(&mut v);
    Ok(Some(v))
  }
}
impl Codec for Raw {
  type Encode = Vec<u8>;
  type Decode = Vec<u8>;
  type Encoder = RawEnc;
  type Decoder = RawDec;
  fn encoder(&mut self) -> RawEnc {
    RawEnc
  }
  fn decoder(&mut self) -> RawDec {
    RawDec
  }
}

/// A server that answers every call with the prepared byte strings.
#[derive(Clone)]
struct RawServer(Arc<Mutex<Vec<Vec<u8>>>>);
impl tonic::server::NamedService for RawServer {
  const NAME: &'static str = "remote_runner.RemoteRunner";
}
impl tonic::server::ServerStreamingService<Vec<u8>> for RawServer {
  type Response = Vec<u8>;
  type ResponseStream = tokio_stream::Iter<std::vec::IntoIter<tonic::Result<Vec<u8>>>>;
  type Future = BoxFuture<tonic::Response<Self::ResponseStream>, Status>;
  fn call(&mut self, _: tonic::Request<Vec<u8>>) -> Self::Future {
    let items: Vec<_> = std::mem::take(&mut *self.0.lock()).into_iter().map(Ok).collect();
    Box::pin(async move { Ok(tonic::Response::new(tokio_stream::iter(items))) })
  }
}
impl<B> Service<http::Request<B>> for RawServer
where
  B: Body + Send + 'static,
  B::Error: Into<StdError> + Send + 'static,
{
  type Response = http::Response<tonic::body::BoxBody>;
  type Error = std::convert::Infallible;
  type Future = BoxFuture<Self::Response, Self::Error>;
  fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> Poll<std::result::Result<(), Self::Error>> {
    Poll::Ready(Ok(()))
  }
  fn call(&mut self, req: http::Request<B>) -> Self::Future {
    let me = self.clone();
    Box::pin(async move { Ok(tonic::server::Grpc::new(Raw).server_streaming(me, req).await) })
  }
}

struct Instant1;
#[async_trait]
impl Runner for Instant1 {
  async fn run(&self, _: Context) -> RunResponse {
    let (tx, rx) = stream();
    tx.log("line");
    tx.succeeded();
    Ok(rx)
  }
}

struct Servers {
  rt: tokio::runtime::Runtime,
  slot: Arc<Mutex<Slot>>,
  reply: Arc<Mutex<Vec<Vec<u8>>>>,
  echo: String,
  real: String,
  raw: String,
}

fn servers() -> &'static Servers {
  static S: OnceLock<Servers> = OnceLock::new();
  S.get_or_init(|| {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    let slot = Arc::new(Mutex::new(Slot::default()));
    let reply = Arc::new(Mutex::new(vec![]));
    let (echo, real, raw) = (address(), address(), address());
    let (a, s) = (echo.clone(), slot.clone());
    rt.spawn(async move { tonic::transport::Server::builder().add_service(RemoteRunnerServer::new(Echo(s))).serve(a.parse().unwrap()).await });
    let a = real.clone();
    rt.spawn(async move { AstroRunRemoteRunnerServer::builder().id("real").runner(Instant1).build().unwrap().serve(&a).await.ok() });
    let (a, s) = (raw.clone(), reply.clone());
    rt.spawn(async move { tonic::transport::Server::builder().add_service(RawServer(s)).serve(a.parse().unwrap()).await });
    for x in [&echo, &real, &raw] {
      listening(x);
    }
    Servers { rt, slot, reply, echo, real, raw }
  })
}

async fn channel(addr: &str) -> tonic::transport::Channel {
  tonic::transport::Endpoint::new(format!("http://{}", addr)).unwrap().connect().await.expect("connection on loopback")
}

const PATHS: [&str; 4] = ["GetRunnerMetadata", "Run", "SendEvent", "CallBeforeRunStepHook"];

/// Is this a valid message of that request type?
fn valid_request(path: &str, b: &[u8]) -> bool {
  match path {
    "GetRunnerMetadata" => serde_json::from_slice::<Empty>(b).is_ok(),
    "Run" => serde_json::from_slice::<Context>(b).is_ok(),
    "SendEvent" => serde_json::from_slice::<ProtocolEvent>(b).is_ok(),
    _ => serde_json::from_slice::<Command>(b).is_ok(),
  }
}

fn sample_message(r: &mut Rng, kind: u64) -> Value {
  match kind {
    0 => json!(Empty {}),
    1 => json!(context(r)),
    2 => json!(protocol_event(r)),
    3 => json!(command(r)),
    4 => json!(metadata(r)),
    _ => json!(item(r)),
  }
}

fn context(r: &mut Rng) -> Context {
  let c = command(r);
  Context { id: if r.chance(1, 2) { c.id.clone() } else { step_id(r) }, signal: AstroRunSignal::new(), command: c, event: opt(r, trigger), payload: opt(r, text) }
}

fn item(r: &mut Rng) -> Item {
  let id = step_id(r);
  if r.chance(1, 2) {
    Item::Log { step_id: id, log: if r.chance(1, 2) { Log::log(text(r)) } else { Log::error(text(r)) } }
  } else {
    Item::Result { step_id: id, result: r.pick(&[RunResult::Succeeded, RunResult::Cancelled, RunResult::Failed { exit_code: 0 }, RunResult::Failed { exit_code: i32::MIN }, RunResult::Failed { exit_code: 77 }]).clone() }
  }
}

fn twist(r: &mut Rng, v: &mut Value) {
  match v {
    Value::Object(m) if !m.is_empty() && r.chance(3, 4) => {
      let k = m.keys().nth(r.us(m.len())).unwrap().clone();
      match r.below(5) {
        0 => {
          m.remove(&k);
        }
        1 => {
          let x = m.remove(&k).unwrap();
          m.insert(format!("{}_", k), x);
        }
        _ => twist(r, m.get_mut(&k).unwrap()),
      }
    }
    Value::Array(a) if !a.is_empty() && r.chance(3, 4) => {
      let i = r.us(a.len());
      match r.below(4) {
        0 => {
          a.remove(i);
        }
        1 => {
          let x = a[i].clone();
          a.push(x);
        }
        _ => twist(r, &mut a[i]),
      }
    }
    _ => {
      *v = match r.below(8) {
        0 => Value::Null,
        1 => json!(-1),
        2 => json!(u64::MAX),
        3 => json!(1.5),
        4 => json!([]),
        5 => json!({}),
        6 => json!("x"),
        _ => json!([[], {}]),
      }
    }
  }
}

fn hostile(r: &mut Rng, kind: u64) -> Vec<u8> {
  let v = sample_message(r, kind);
  match r.below(12) {
    0 => vec![],
    1 => (0..r.below(200)).map(|_| r.next() as u8).collect(),
    2 => {
      let mut b = v.to_string().into_bytes();
      b.truncate(r.us(b.len()));
      b
    }
    3 => {
      let mut b = v.to_string().into_bytes();
      for _ in 0..r.range(1, 4) {
        let i = r.us(b.len());
        b[i] = r.next() as u8;
      }
      b
    }
    4 => {
      let mut b = v.to_string().into_bytes();
      b.extend(r.pick(&[&b"{}"[..], b"x", b"\0", b",", b" \n", b"]"]).iter());
      b
    }
    5 => "[".repeat(r.range(1, 30_000) as usize).into_bytes(),
    6 => r.pick(&["null", "true", "1", "\"\"", "[]", "{}", "[{}]", "{\"\":1}", "\u{feff}{}", "nul"]).as_bytes().to_vec(),
    7 => {
      let mut b = v.to_string().into_bytes();
      let i = r.us(b.len() + 1);
      let junk: Vec<u8> = [0xff, 0xc0, 0xed, 0xa0, 0x80][..1 + r.us(5)].to_vec();
      b.splice(i..i, junk);
      b
    }
    8 => {
      // of another type
      let other = (kind + r.range(1, 5)) % 6;
      sample_message(r, other).to_string().into_bytes()
    }
    _ => {
      let mut v = v;
      for _ in 0..r.range(1, 3) {
        twist(r, &mut v);
      }
      v.to_string().into_bytes()
    }
  }
}

fn show(b: &[u8]) -> String {
  String::from_utf8_lossy(&b[..b.len().min(300)]).to_string()
}

fn diff(a: &str, b: &str) -> Value {
  let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
  let cut = |s: &str| -> String { s.bytes().skip(n.saturating_sub(30)).take(160).map(|c| c as char).collect() };
  json!({"at": n, "sent": cut(a), "received": cut(b)})
}

pub fn r07(case: &mut Case) {
  let s = servers();
  let mut r = case.rng.fork();
  let verdict: std::result::Result<Vec<(String, u64)>, (String, Value)> = s.rt.block_on(async {
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut add = |k: &str, n: u64| *counts.entry(k.to_string()).or_insert(0) += n;
    let chan = channel(&s.echo).await;
    let mut c = RemoteRunnerClient::new(chan);
    let lim = Duration::from_secs(60);
    for _ in 0..30 {
      *s.slot.lock() = Slot::default();
      match r.below(5) {
        0 => {
          let m = metadata(&mut r);
          s.slot.lock().meta = Some(m.clone());
          let got = tokio::time::timeout(lim, c.get_runner_metadata(Empty {})).await.map_err(|_| ("a call did not return".to_string(), json!({})))?;
          let got = got.map_err(|e| (format!("metadata {:?} was refused: {}", m, e), json!({})))?.into_inner();
          if p_meta(&got) != p_meta(&m) {
            return Err(("runner metadata changed on the wire".into(), diff(&p_meta(&m), &p_meta(&got))));
          }
          add("metadata", 1);
        }
        1 => {
          let (mut a, b) = (command(&mut r), command(&mut r));
          if r.chance(1, 40) {
            // near the transport's limit of 4 MiB
            a.run = "x".repeat(3_000_000);
            add("large_messages", 1);
          }
          s.slot.lock().answer = Some(b.clone());
          let got = tokio::time::timeout(lim, c.call_before_run_step_hook(a.clone())).await.map_err(|_| ("a call did not return".to_string(), json!({})))?;
          let got = got.map_err(|e| (format!("a command was refused: {}", e), json!({"request": d(&a), "answer": d(&b)})))?.into_inner();
          let seen = s.slot.lock().seen.pop().unwrap_or_default();
          if seen != p_cmd(&a) {
            return Err(("a command changed on its way to the runner".into(), diff(&p_cmd(&a), &seen)));
          }
          if p_cmd(&got) != p_cmd(&b) {
            return Err(("a command changed on its way to the client".into(), diff(&p_cmd(&b), &p_cmd(&got))));
          }
          add("commands", 2);
        }
        2 => {
          let x = context(&mut r);
          let items = list(&mut r, item);
          let want: Vec<String> = items.iter().map(p_item).collect();
          s.slot.lock().items = items;
          let want_ctx = p_ctx(&x);
          let got = tokio::time::timeout(lim, c.run(x)).await.map_err(|_| ("a call did not return".to_string(), json!({})))?;
          let mut got = got.map_err(|e| (format!("a context was refused: {}", e), json!({"context": want_ctx})))?.into_inner();
          let mut have = vec![];
          while let Some(i) = tokio::time::timeout(lim, got.next()).await.map_err(|_| ("a stream did not end".to_string(), json!({})))? {
            have.push(p_item(&i.map_err(|e| (format!("a stream item was refused: {}", e), json!({"sent": want})))?));
          }
          let seen = s.slot.lock().seen.pop().unwrap_or_default();
          if seen != want_ctx {
            return Err(("a context changed on its way to the runner".into(), diff(&want_ctx, &seen)));
          }
          if have != want {
            return Err(("logs or results changed on their way to the client".into(), diff(&d(&want), &d(&have))));
          }
          add("contexts", 1);
          add("stream_items", want.len() as u64);
        }
        _ => {
          let e = protocol_event(&mut r);
          let want = p_event(&e);
          let got = tokio::time::timeout(lim, c.send_event(e)).await.map_err(|_| ("a call did not return".to_string(), json!({})))?;
          got.map_err(|e| (format!("an event was refused: {}", e), json!({"event": want})))?;
          let seen = s.slot.lock().seen.pop().unwrap_or_default();
          if seen != want {
            return Err(("an event changed on its way to the runner".into(), diff(&want, &seen)));
          }
          add("events", 1);
        }
      }
      progress();
    }
    // bytes to the real server
    let chan = channel(&s.real).await;
    let mut raw = tonic::client::Grpc::new(chan.clone());
    for _ in 0..25 {
      let kind = r.below(4);
      let path = PATHS[kind as usize];
      let b = hostile(&mut r, kind);
      let valid = !b.is_empty() && valid_request(path, &b);
      raw.ready().await.map_err(|e| (format!("the server is gone: {}", e), json!({})))?;
      let uri = http::uri::PathAndQuery::try_from(format!("/remote_runner.RemoteRunner/{}", path)).unwrap();
      let call = async {
        let mut st = raw.server_streaming(tonic::Request::new(b.clone()), uri, Raw).await?.into_inner();
        let mut n = 0;
        while let Some(x) = st.next().await {
          x?;
          n += 1;
        }
        Ok::<u64, Status>(n)
      };
      let res = tokio::time::timeout(lim, call).await.map_err(|_| (format!("{} with {:?} was never answered", path, show(&b)), json!({})))?;
      if valid {
        add("valid_bytes", 1);
      } else {
        add("invalid_bytes", 1);
        if let Ok(n) = res {
          return Err((format!("{} accepted bytes that are not a message: {:?} ({} answers)", path, show(&b), n), json!({})));
        }
      }
      progress();
    }
    // the same connection and server go on working
    let mut c = RemoteRunnerClient::new(chan);
    let m = tokio::time::timeout(lim, c.get_runner_metadata(Empty {})).await.map_err(|_| ("the server stopped answering".to_string(), json!({})))?;
    let m = m.map_err(|e| (format!("the server stopped working after invalid messages: {}", e), json!({})))?;
    if m.get_ref().id != "real" {
      return Err(("the server answers with another id".into(), json!({})));
    }
    // bytes to a client
    let chan = channel(&s.raw).await;
    let mut c = RemoteRunnerClient::new(chan);
    for _ in 0..15 {
      let gone = |_| ("a call did not return".to_string(), json!({}));
      match r.below(3) {
        0 => {
          let b = hostile(&mut r, 4);
          let valid = !b.is_empty() && serde_json::from_slice::<RunnerMetadata>(&b).is_ok();
          *s.reply.lock() = vec![b.clone()];
          let res = tokio::time::timeout(lim, c.get_runner_metadata(Empty {})).await.map_err(gone)?;
          if res.is_ok() && !valid {
            return Err((format!("the client accepted {:?} as metadata", show(&b)), json!({})));
          }
          add("client_bytes", 1);
        }
        1 => {
          let b = hostile(&mut r, 3);
          let valid = !b.is_empty() && serde_json::from_slice::<Command>(&b).is_ok();
          *s.reply.lock() = vec![b.clone()];
          let res = tokio::time::timeout(lim, c.call_before_run_step_hook(Command::default())).await.map_err(gone)?;
          if res.is_ok() && !valid {
            return Err((format!("the client accepted {:?} as a command", show(&b)), json!({})));
          }
          add("client_bytes", 1);
        }
        _ => {
          let good: Vec<Item> = list(&mut r, item);
          let want: Vec<String> = good.iter().map(p_item).collect();
          let mut all: Vec<Vec<u8>> = good.iter().map(|i| serde_json::to_vec(i).unwrap()).collect();
          let b = hostile(&mut r, 5);
          let valid = b.is_empty() || serde_json::from_slice::<Item>(&b).is_ok();
          all.push(b.clone());
          *s.reply.lock() = all;
          let x = context(&mut r);
          let res = tokio::time::timeout(lim, c.run(x)).await.map_err(gone)?;
          let Ok(res) = res else { return Err(("a run was refused although the runner accepted it".into(), json!({}))) };
          let mut st = res.into_inner();
          let (mut have, mut err) = (vec![], false);
          while let Some(i) = tokio::time::timeout(lim, st.next()).await.map_err(gone)? {
            match i {
              Ok(i) => have.push(p_item(&i)),
              Err(_) => {
                err = true;
                break;
              }
            }
          }
          if !valid && (!err || have != want) {
            return Err((
              format!("a stream with the invalid item {:?} after {} good ones gave {} items and {}", show(&b), want.len(), have.len(), if err { "an error" } else { "no error" }),
              json!({}),
            ));
          }
          add("client_bytes", 1);
        }
      }
      progress();
    }
    Ok(counts.into_iter().collect())
  });
  match verdict {
    Err((m, v)) => case.fail(m, v),
    Ok(cs) => {
      for (k, n) in cs {
        case.count(&k, n);
      }
    }
  }
  case.evals(70);
  let sig = hash_str(case.idx, &format!("{}", r.next()));
  case.nontrivial(sig);
  case.sample(|| json!({"command": d(&command(&mut r)), "event": d(&protocol_event(&mut r)), "bytes": show(&hostile(&mut r, 2))}));
}
