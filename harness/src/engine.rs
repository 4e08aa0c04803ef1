//! Scripted runners and plugins, execution of generated workflows, event recording at the public boundary.
use crate::frame::{progress, SCRIPTED};
use crate::rng::{hash_str, mix, Rng};
use astro_run::*;
use parking_lot::Mutex;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;

pub type SKey = (String, String, usize);

// ------------------------------------------------------------------ trace

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Hash)]
pub enum K {
  RunWorkflow,
  RunJob,
  BeforeStep,
  RunStep,
  State,
  Log,
  StepDone,
  JobDone,
  WorkflowDone,
  // script / controller side
  Run,       // Runner::run called; data = context
  RunRet,    // Runner::run about to return; s = ok/err
  Sent,      // log line about to be sent
  End,       // result about to be set
  Signal,    // signal received by the script
  Cancel,    // cancel_job about to be called
  CancelRet, // cancel_job returned; s = ok or error text
  Released,  // run_step task left (scripted end reached)
  Custom,
  Stamp, // a log line's own time: data = [its time, time it was handed over]
}

#[derive(Clone, Debug, Serialize)]
pub struct Ev {
  pub seq: u64,
  pub t: u64,
  /// UTC time in nanoseconds
  pub at: i64,
  /// 0.. plugins, 100 local runner, 101.. remote runners, 200 controller, 300 script
  pub obs: usize,
  pub exit: bool,
  pub k: K,
  pub wf: String,
  pub job: Option<String>,
  pub step: Option<usize>,
  /// state / log type / result / error
  pub s: String,
  /// payload: log text or serialized value
  pub d: Value,
}

pub const RUNNER: usize = 100;
pub const CTL: usize = 200;
pub const SCRIPT: usize = 300;

pub fn utc() -> i64 {
  nanos(&chrono::Utc::now())
}
pub fn nanos(t: &chrono::DateTime<chrono::Utc>) -> i64 {
  t.timestamp_nanos_opt().unwrap_or(0)
}

pub struct Recorder {
  seq: AtomicU64,
  start: Mutex<Option<Instant>>,
  evs: Mutex<Vec<Ev>>,
  stamps: Mutex<HashMap<(usize, String), i64>>,
}

impl Recorder {
  pub fn new() -> Self {
    Recorder { seq: AtomicU64::new(0), start: Mutex::new(None), evs: Mutex::new(vec![]), stamps: Mutex::default() }
  }
  pub fn now_ms(&self) -> u64 {
    let mut s = self.start.lock();
    let n = Instant::now();
    (n - *s.get_or_insert(n)).as_millis() as u64
  }
  #[allow(clippy::too_many_arguments)]
  pub fn push(&self, obs: usize, exit: bool, k: K, wf: &str, job: Option<String>, step: Option<usize>, s: impl Into<String>, d: Value) -> u64 {
    progress();
    let t = self.now_ms();
    let mut evs = self.evs.lock();
    let seq = self.seq.fetch_add(1, Ordering::Relaxed);
    evs.push(Ev { seq, t, at: utc(), obs, exit, k, wf: wf.to_string(), job, step, s: s.into(), d });
    seq
  }
  /// The earliest time of an observer's log lines per step, and every time in the future.
  pub fn stamp(&self, obs: usize, log: &WorkflowLog) {
    let (t, now) = (nanos(&log.time), utc());
    let id = &log.step_id;
    {
      let mut s = self.stamps.lock();
      let e = s.entry((obs, id.to_string())).or_insert(i64::MAX);
      if t >= *e && t <= now {
        return;
      }
      *e = t.min(*e);
    }
    self.push(obs, true, K::Stamp, &id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()), "", json!([t, now]));
  }
  pub fn take(&self) -> Vec<Ev> {
    self.evs.lock().clone()
  }
  pub fn len(&self) -> usize {
    self.evs.lock().len()
  }
  pub fn any(&self, f: impl Fn(&Ev) -> bool) -> bool {
    self.evs.lock().iter().rev().any(f)
  }
  pub fn any_from(&self, from: usize, f: impl Fn(&Ev) -> bool) -> bool {
    self.evs.lock()[from..].iter().any(f)
  }
  pub fn count(&self, f: impl Fn(&Ev) -> bool) -> usize {
    self.evs.lock().iter().filter(|e| f(e)).count()
  }
}

// ------------------------------------------------------------------ scripts

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fin {
  Succeeded,
  Failed(i32),
  Cancelled,
  /// drop every sender without a result
  Vanish,
  /// panic in the task that owns the sender
  Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
  Log(String),
  Err(String),
  Sleep(u64),
  SleepUs(u64),
  Yield,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum React {
  Ignore,
  /// end at once the way the bundled runners do: cancelled, or timeout()
  Standard,
  /// end at once with this
  End(Fin),
  /// keep running this long, then end with this
  After(u64, Fin),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ret {
  Ok,
  Err,
  Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
  pub run_delay: u64,
  pub run_yields: u64,
  pub ret: Ret,
  /// run the script to its end before `run` returns
  pub inline: bool,
  pub acts: Vec<Act>,
  pub fin: Fin,
  pub react: React,
  /// additional concurrent producers: number of lines each
  pub producers: Vec<u64>,
  /// set another result afterwards
  pub second_end: Option<Fin>,
  /// run the body on a plain OS thread (multi-threaded mode only)
  pub os_thread: bool,
  /// lines written after a signal was noticed, before the result
  pub farewell: u64,
}

impl Default for Script {
  fn default() -> Self {
    Script {
      run_delay: 0,
      run_yields: 0,
      ret: Ret::Ok,
      inline: false,
      acts: vec![],
      fin: Fin::Succeeded,
      react: React::Standard,
      producers: vec![],
      second_end: None,
      os_thread: false,
      farewell: 0,
    }
  }
}

impl Script {
  pub fn duration(&self) -> u64 {
    self.acts.iter().map(|a| if let Act::Sleep(n) = a { *n } else { 0 }).sum()
  }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StepSpec {
  pub coe: bool,
  pub timeout_ms: Option<u64>,
  pub container: Option<String>,
  pub env: Vec<(String, String)>,
  pub secrets: Vec<String>,
  pub name: Option<String>,
  pub on: Option<Value>,
  pub script: Script,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JobSpec {
  pub key: String,
  pub deps: Vec<String>,
  pub steps: Vec<StepSpec>,
  pub on: Option<Value>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WfSpec {
  pub id: String,
  pub jobs: Vec<JobSpec>,
  pub on: Option<Value>,
  pub cancels: Vec<CancelPlan>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CancelPlan {
  pub job: String,
  pub at: When,
  pub via_ctx: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum When {
  /// ms after the run began
  Time(u64),
  /// inside the n-th hook call (counted over all observers) for this job
  Hook(u64),
}

impl WfSpec {
  pub fn job(&self, key: &str) -> Option<&JobSpec> {
    self.jobs.iter().find(|j| j.key == key)
  }
  pub fn to_value(&self) -> Value {
    let mut jobs = serde_json::Map::new();
    for j in &self.jobs {
      let mut steps = vec![];
      for (i, s) in j.steps.iter().enumerate() {
        let mut m = serde_json::Map::new();
        m.insert("run".into(), json!(format!("vh {} {}", j.key, i)));
        if let Some(n) = &s.name {
          m.insert("name".into(), json!(n));
        }
        if s.coe {
          m.insert("continue-on-error".into(), json!(true));
        }
        if let Some(t) = s.timeout_ms {
          m.insert("timeout".into(), json!(format!("{}ms", t)));
        }
        if let Some(c) = &s.container {
          m.insert("container".into(), json!(c));
        }
        if !s.env.is_empty() {
          m.insert("environments".into(), Value::Object(s.env.iter().map(|(k, v)| (k.clone(), json!(v))).collect()));
        }
        if !s.secrets.is_empty() {
          m.insert("secrets".into(), json!(s.secrets));
        }
        if let Some(on) = &s.on {
          m.insert("on".into(), on.clone());
        }
        steps.push(Value::Object(m));
      }
      let mut m = serde_json::Map::new();
      m.insert("steps".into(), Value::Array(steps));
      if !j.deps.is_empty() {
        m.insert("depends-on".into(), json!(j.deps));
      }
      if let Some(on) = &j.on {
        m.insert("on".into(), on.clone());
      }
      jobs.insert(j.key.clone(), Value::Object(m));
    }
    let mut top = serde_json::Map::new();
    top.insert("jobs".into(), Value::Object(jobs));
    if let Some(on) = &self.on {
      top.insert("on".into(), on.clone());
    }
    Value::Object(top)
  }
  pub fn yaml(&self) -> String {
    serde_yaml::to_string(&self.to_value()).unwrap()
  }
}

// ------------------------------------------------------------------ world

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct HookCfg {
  /// per mille
  pub err: u64,
  pub delay: u64,
  pub delay_max: u64,
  pub yields: u64,
  pub rewrite: u64,
  pub rewrite_timeout: bool,
  /// (hook, job key): panic in a plugin hook
  pub panic_at: Option<(usize, String, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Payload {
  pub tag: String,
  pub n: i64,
  pub list: Vec<Option<String>>,
}

use astro_run::typetag;
#[typetag::serde]
impl ContextPayloadExt for Payload {
  fn as_any(&self) -> &dyn std::any::Any {
    self
  }
}

pub struct World {
  pub rec: Recorder,
  pub seed: u64,
  pub virt: bool,
  pub scripts: Mutex<HashMap<SKey, Script>>,
  pub hooks: HookCfg,
  pub signals: Mutex<Vec<(SKey, AstroRunSignal)>>,
  pub cancels: Mutex<Vec<(String, CancelPlan)>>,
  pub hook_calls: Mutex<HashMap<(String, String), u64>>,
  pub astro: Mutex<Option<AstroRun>>,
  pub ctxs: Mutex<HashMap<String, ExecutionContext>>,
  pub sent_lines: AtomicU64,
  pub cancel_calls: AtomicU64,
  /// personal token for the stand-in of api.github.com
  pub token: Mutex<Option<String>>,
  /// what the conditions leave out: (workflow, job, step)
  pub left_out: Mutex<Vec<(String, Option<String>, Option<usize>)>>,
}

static WORLDS: Mutex<Vec<std::sync::Weak<World>>> = Mutex::new(vec![]);

/// A world and its engine hold each other: let go of them when a case is over.
pub fn release() {
  let all: Vec<_> = std::mem::take(&mut *WORLDS.lock());
  for w in all.iter().filter_map(|w| w.upgrade()) {
    let (astro, ctxs) = (w.astro.lock().take(), std::mem::take(&mut *w.ctxs.lock()));
    drop((astro, ctxs));
  }
}

impl World {
  pub fn new(seed: u64, virt: bool, hooks: HookCfg) -> Arc<World> {
    let w = Arc::new(World {
      rec: Recorder::new(),
      seed,
      virt,
      scripts: Mutex::new(HashMap::new()),
      hooks,
      signals: Mutex::new(vec![]),
      cancels: Mutex::new(vec![]),
      hook_calls: Mutex::new(HashMap::new()),
      astro: Mutex::new(None),
      ctxs: Mutex::new(HashMap::new()),
      sent_lines: AtomicU64::new(0),
      cancel_calls: AtomicU64::new(0),
      token: Mutex::new(None),
      left_out: Mutex::new(vec![]),
    });
    WORLDS.lock().push(Arc::downgrade(&w));
    w
  }
  pub fn add(&self, spec: &WfSpec) {
    let mut m = self.scripts.lock();
    for j in &spec.jobs {
      for (i, s) in j.steps.iter().enumerate() {
        m.insert((spec.id.clone(), j.key.clone(), i), s.script.clone());
      }
    }
    let mut c = self.cancels.lock();
    for p in &spec.cancels {
      c.push((spec.id.clone(), p.clone()));
    }
  }
  fn h(&self, obs: usize, k: K, wf: &str, job: &Option<String>, step: Option<usize>, s: &str, salt: u64) -> u64 {
    let key = format!("{}|{:?}|{}|{:?}|{:?}|{}|{}", obs, k, wf, job, step, s, salt);
    hash_str(self.seed, &key)
  }
  pub fn hook_err(&self, obs: usize, k: K, wf: &str, job: &Option<String>, step: Option<usize>, s: &str) -> bool {
    self.hooks.err > 0 && self.h(obs, k, wf, job, step, s, 1) % 1000 < self.hooks.err
  }
  pub fn do_cancel(&self, wf: &str, plan: &CancelPlan) {
    let id = JobId::new(wf, plan.job.clone());
    // (a late event of a run that is over)
    let Some(astro) = self.astro.lock().clone() else { return };
    let n = json!(self.cancel_calls.fetch_add(1, Ordering::SeqCst));
    self.rec.push(CTL, false, K::Cancel, wf, Some(plan.job.clone()), None, "", n.clone());
    let ctx = if plan.via_ctx { self.ctxs.lock().get(wf).cloned() } else { None };
    let r = match ctx {
      Some(c) => c.cancel_job(&id),
      None => astro.cancel_job(&id),
    };
    let s = match r {
      Ok(()) => "ok".to_string(),
      Err(e) => e.to_string(),
    };
    self.rec.push(CTL, true, K::CancelRet, wf, Some(plan.job.clone()), None, s, n);
  }
  /// Hook entry bookkeeping: hook-triggered cancellations.
  fn maybe_cancel(&self, wf: &str, job: &Option<String>) {
    if let Some(j) = job {
      let n = {
        let mut m = self.hook_calls.lock();
        let e = m.entry((wf.to_string(), j.clone())).or_insert(0);
        *e += 1;
        *e
      };
      let due: Vec<CancelPlan> = self
        .cancels
        .lock()
        .iter()
        .filter(|(w, p)| w == wf && &p.job == j && matches!(p.at, When::Hook(m) if m == n))
        .map(|(_, p)| p.clone())
        .collect();
      for p in due {
        self.do_cancel(wf, &p);
      }
    }
  }
  /// Common body of an observed hook. Returns true if the hook should return an error.
  pub async fn hook(&self, obs: usize, k: K, wf: &str, job: Option<String>, step: Option<usize>, s: &str, d: Value) -> bool {
    self.rec.push(obs, false, k, wf, job.clone(), step, s, d);
    if wf == "vh-probe" {
      return false;
    }
    self.maybe_cancel(wf, &job);
    if let Some((o, kind, j)) = &self.hooks.panic_at {
      if *o == obs && *kind == format!("{:?}", k) && Some(j) == job.as_ref() {
        panic!("{}", SCRIPTED);
      }
    }
    if self.hooks.delay > 0 && self.h(obs, k, wf, &job, step, s, 2) % 1000 < self.hooks.delay {
      let r = self.h(obs, k, wf, &job, step, s, 3);
      if self.virt {
        tokio::time::sleep(Duration::from_millis(1 + r % self.hooks.delay_max.max(1))).await;
      } else {
        match r % 3 {
          0 => tokio::task::yield_now().await,
          1 => {
            for _ in 0..(r >> 8) % 5 {
              tokio::task::yield_now().await
            }
          }
          _ => tokio::time::sleep(Duration::from_micros((r >> 8) % 1500)).await,
        }
      }
    }
    let err = self.hook_err(obs, k, wf, &job, step, s);
    self.rec.push(obs, true, k, wf, job, step, if err { "err" } else { "ok" }, Value::Null);
    err
  }
  /// Synchronous variant for builder-made plugins.
  pub fn hook_sync(&self, obs: usize, k: K, wf: &str, job: Option<String>, step: Option<usize>, s: &str, d: Value) -> bool {
    self.rec.push(obs, false, k, wf, job.clone(), step, s, d);
    if wf == "vh-probe" {
      return false;
    }
    self.maybe_cancel(wf, &job);
    if !self.virt && self.hooks.delay > 0 && self.h(obs, k, wf, &job, step, s, 2) % 1000 < self.hooks.delay {
      std::thread::yield_now();
    }
    let err = self.hook_err(obs, k, wf, &job, step, s);
    self.rec.push(obs, true, k, wf, job, step, if err { "err" } else { "ok" }, Value::Null);
    err
  }
  pub fn rewrite(&self, obs: usize, step: Step) -> Step {
    let id = step.id.clone();
    let h = self.h(obs, K::BeforeStep, &id.workflow_id().inner(), &Some(id.job_key()), Some(id.step_number()), "", 7);
    let mut step = step;
    if self.hooks.rewrite == 0 || h % 1000 >= self.hooks.rewrite {
      return step;
    }
    let mut r = Rng::new(mix(h));
    for _ in 0..1 + r.below(3) {
      match r.below(8) {
        0 => step.run = format!("{} +{}", step.run, obs),
        1 => step.name = if r.chance(1, 4) { None } else { Some(r.text(6)) },
        2 => {
          step.environments.insert(format!("K{}", r.below(4)), EnvironmentVariable::from(r.text(5)));
        }
        3 => {
          let k = format!("K{}", r.below(4));
          step.environments.remove(&k);
        }
        4 => {
          step.container = if r.chance(1, 4) {
            None
          } else {
            Some(ContainerOptions {
              name: r.ident(6),
              volumes: if r.chance(1, 2) { Some(vec![r.text(4)]) } else { None },
              security_opts: if r.chance(1, 2) { Some(vec![r.text(4), r.text(3)]) } else { None },
            })
          }
        }
        5 => step.secrets.push(r.ident(5)),
        6 => step.continue_on_error = !step.continue_on_error,
        _ => {
          if self.hooks.rewrite_timeout {
            step.timeout = match r.below(3) {
              0 => Duration::from_millis(1 + r.below(60)),
              1 => Duration::from_micros(900 + r.below(90_000)),
              _ => Duration::from_millis(1000 + 100 * r.below(200)),
            }
          } else {
            // never reached, down to the nanosecond
            step.timeout = Duration::new(100_000 + r.below(1000), if r.chance(1, 2) { r.below(1_000_000_000) as u32 } else { 0 })
          }
        }
      }
    }
    step
  }
}

pub fn step_value(s: &Step) -> Value {
  serde_json::to_value(s).unwrap()
}
pub fn command_value(c: &Command) -> Value {
  serde_json::to_value(c).unwrap()
}
fn tv<T: Serialize>(t: &T) -> Value {
  serde_json::to_value(t).unwrap()
}

/// The payload as seen through its typed accessor.
pub fn pv(p: &Option<ContextPayload>) -> Value {
  match p {
    None => Value::Null,
    Some(p) => match p.payload::<Payload>() {
      Some(x) => {
        let b: Box<dyn ContextPayloadExt> = Box::new(x.clone());
        tv(&b)
      }
      None => json!("not of the given type"),
    },
  }
}

pub fn state_ids(e: &WorkflowStateEvent) -> (String, Option<String>, Option<usize>, String) {
  match e {
    WorkflowStateEvent::WorkflowStateUpdated { id, state } => (id.inner(), None, None, sname(state)),
    WorkflowStateEvent::JobStateUpdated { id, state } => (id.workflow_id().inner(), Some(id.job_key()), None, sname(state)),
    WorkflowStateEvent::StepStateUpdated { id, state } => {
      (id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()), sname(state))
    }
  }
}

pub fn sname(s: &WorkflowState) -> String {
  serde_json::to_value(s).unwrap().as_str().unwrap().to_string()
}

// ------------------------------------------------------------------ observers

/// Trait plugin recording everything.
pub struct ObsPlugin {
  pub w: Arc<World>,
  pub obs: usize,
}

const NAMES: [&str; 8] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"];

macro_rules! observer_impl {
  ($tr:ident for $ty:ty, { $($extra:tt)* }) => {
    #[async_trait]
    impl $tr for $ty {
    $($extra)*
    async fn on_run_workflow(&self, event: RunWorkflowEvent) -> HookNoopResult {
      let d = json!({"event": tv(&event.trigger_event), "payload": pv(&event.payload), "source": tv(&event.source)});
      let e = self.w.hook(self.obs, K::RunWorkflow, &event.source.id.inner(), None, None, "", d).await;
      noop(e)
    }
    async fn on_run_job(&self, event: RunJobEvent) -> HookNoopResult {
      let d = json!({"event": tv(&event.trigger_event), "payload": pv(&event.payload), "source": tv(&event.source)});
      let id = event.source.id.clone();
      let e = self.w.hook(self.obs, K::RunJob, &id.workflow_id().inner(), Some(id.job_key()), None, "", d).await;
      noop(e)
    }
    async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
      let id = step.id.clone();
      let (wf, job, n) = (id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()));
      let e = self.w.hook(self.obs, K::BeforeStep, &wf, job.clone(), n, "", step_value(&step)).await;
      if e {
        return Err(Error::error("scripted"));
      }
      let out = self.w.rewrite(self.obs, step);
      self.w.rec.push(self.obs, true, K::Custom, &wf, job, n, "rewritten", step_value(&out));
      Ok(out)
    }
    async fn on_run_step(&self, event: RunStepEvent) -> HookNoopResult {
      let d = json!({"event": tv(&event.trigger_event), "payload": pv(&event.payload), "source": tv(&event.source)});
      let id = event.source.id.clone();
      let e = self.w.hook(self.obs, K::RunStep, &id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()), "", d).await;
      noop(e)
    }
    async fn on_state_change(&self, event: WorkflowStateEvent) -> HookNoopResult {
      let (wf, job, step, s) = state_ids(&event);
      noop(self.w.hook(self.obs, K::State, &wf, job, step, &s, Value::Null).await)
    }
    async fn on_log(&self, log: WorkflowLog) -> HookNoopResult {
      self.w.rec.stamp(self.obs, &log);
      let id = log.step_id.clone();
      let s = log.log_type.to_string();
      noop(self.w.hook(self.obs, K::Log, &id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()), &s, json!(log.message)).await)
    }
    async fn on_step_completed(&self, result: StepRunResult) -> HookNoopResult {
      let id = result.id.clone();
      let s = sname(&result.state);
      noop(self.w.hook(self.obs, K::StepDone, &id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()), &s, tv(&result)).await)
    }
    async fn on_job_completed(&self, result: JobRunResult) -> HookNoopResult {
      let id = result.id.clone();
      let s = sname(&result.state);
      noop(self.w.hook(self.obs, K::JobDone, &id.workflow_id().inner(), Some(id.job_key()), None, &s, tv(&result)).await)
    }
    async fn on_workflow_completed(&self, result: WorkflowRunResult) -> HookNoopResult {
      let s = sname(&result.state);
      noop(self.w.hook(self.obs, K::WorkflowDone, &result.id.inner(), None, None, &s, tv(&result)).await)
    }
    }
  };
}

fn noop(err: bool) -> HookNoopResult {
  if err {
    Err(Error::error("scripted"))
  } else {
    Ok(())
  }
}

observer_impl!(Plugin for ObsPlugin, {
  fn name(&self) -> &'static str {
    NAMES[self.obs % 8]
  }
});

/// Builder-made plugin recording everything.
pub fn built_plugin(w: Arc<World>, obs: usize) -> AstroRunPlugin {
  let mk = || w.clone();
  let (a, b, c, d, e, f, g, h, i) = (mk(), mk(), mk(), mk(), mk(), mk(), mk(), mk(), mk());
  AstroRunPlugin::builder(NAMES[obs % 8])
    .on_run_workflow(move |event| {
      let d = json!({"event": tv(&event.trigger_event), "payload": pv(&event.payload), "source": tv(&event.source)});
      noop(a.hook_sync(obs, K::RunWorkflow, &event.source.id.inner(), None, None, "", d))
    })
    .on_run_job(move |event| {
      let d = json!({"event": tv(&event.trigger_event), "payload": pv(&event.payload), "source": tv(&event.source)});
      let id = event.source.id.clone();
      noop(b.hook_sync(obs, K::RunJob, &id.workflow_id().inner(), Some(id.job_key()), None, "", d))
    })
    .on_before_run_step(move |step| {
      let id = step.id.clone();
      let (wf, job, n) = (id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()));
      if c.hook_sync(obs, K::BeforeStep, &wf, job.clone(), n, "", step_value(&step)) {
        return Err(Error::error("scripted"));
      }
      let out = c.rewrite(obs, step);
      c.rec.push(obs, true, K::Custom, &wf, job, n, "rewritten", step_value(&out));
      Ok(out)
    })
    .on_run_step(move |event| {
      let v = json!({"event": tv(&event.trigger_event), "payload": pv(&event.payload), "source": tv(&event.source)});
      let id = event.source.id.clone();
      noop(d.hook_sync(obs, K::RunStep, &id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()), "", v))
    })
    .on_state_change(move |event| {
      let (wf, job, step, s) = state_ids(&event);
      noop(e.hook_sync(obs, K::State, &wf, job, step, &s, Value::Null))
    })
    .on_log(move |log| {
      f.rec.stamp(obs, &log);
      let id = log.step_id.clone();
      let s = log.log_type.to_string();
      noop(f.hook_sync(obs, K::Log, &id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()), &s, json!(log.message)))
    })
    .on_step_completed(move |result| {
      let id = result.id.clone();
      let s = sname(&result.state);
      noop(g.hook_sync(obs, K::StepDone, &id.workflow_id().inner(), Some(id.job_key()), Some(id.step_number()), &s, tv(&result)))
    })
    .on_job_completed(move |result| {
      let id = result.id.clone();
      let s = sname(&result.state);
      noop(h.hook_sync(obs, K::JobDone, &id.workflow_id().inner(), Some(id.job_key()), None, &s, tv(&result)))
    })
    .on_workflow_completed(move |result| {
      let s = sname(&result.state);
      noop(i.hook_sync(obs, K::WorkflowDone, &result.id.inner(), None, None, &s, tv(&result)))
    })
    .build()
}

/// Runner executing the scripts of the world.
pub struct ScriptRunner {
  pub w: Arc<World>,
  pub obs: usize,
}

observer_impl!(Runner for ScriptRunner, {
  async fn run(&self, ctx: Context) -> RunResponse {
    script_run(self.w.clone(), self.obs, ctx).await
  }
});

fn set_end(sender: &StreamSender, fin: &Fin) {
  match fin {
    Fin::Succeeded => sender.succeeded(),
    Fin::Failed(c) => sender.failed(*c),
    Fin::Cancelled => sender.cancelled(),
    Fin::Vanish | Fin::Panic => {}
  }
}

pub fn fin_name(f: &Fin) -> String {
  match f {
    Fin::Succeeded => "succeeded".into(),
    Fin::Failed(c) => format!("failed:{}", c),
    Fin::Cancelled => "cancelled".into(),
    Fin::Vanish => "vanish".into(),
    Fin::Panic => "panic".into(),
  }
}

pub async fn script_run(w: Arc<World>, obs: usize, ctx: Context) -> RunResponse {
  let id = ctx.command.id.clone();
  let (wf, job, n) = (id.workflow_id().inner(), id.job_key(), id.step_number());
  let key = (wf.clone(), job.clone(), n);
  let d = json!({"id": ctx.id.to_string(), "command": command_value(&ctx.command), "event": tv(&ctx.event), "payload": ctx.payload});
  w.rec.push(obs, false, K::Run, &wf, Some(job.clone()), Some(n), "", d);
  w.signals.lock().push((key.clone(), ctx.signal.clone()));
  let script = w.scripts.lock().get(&key).cloned();
  let Some(script) = script else {
    w.rec.push(obs, true, K::RunRet, &wf, Some(job.clone()), Some(n), "unknown step", Value::Null);
    return Err(Error::error("no script for this step"));
  };
  for _ in 0..script.run_yields {
    tokio::task::yield_now().await;
  }
  if script.run_delay > 0 {
    tokio::time::sleep(Duration::from_millis(script.run_delay)).await;
  }
  match script.ret {
    Ret::Ok => {}
    Ret::Err => {
      w.rec.push(obs, true, K::RunRet, &wf, Some(job.clone()), Some(n), "err", Value::Null);
      return Err(Error::error("scripted refusal"));
    }
    Ret::Panic => {
      w.rec.push(obs, true, K::RunRet, &wf, Some(job.clone()), Some(n), "panic", Value::Null);
      panic!("{}", SCRIPTED);
    }
  }
  let (tx, rx) = stream();
  let body = script_body(w.clone(), ctx, key, script.clone(), tx);
  if script.inline {
    body.await;
    w.rec.push(obs, true, K::RunRet, &wf, Some(job), Some(n), "ok", Value::Null);
  } else {
    w.rec.push(obs, true, K::RunRet, &wf, Some(job), Some(n), "ok", Value::Null);
    if script.os_thread {
      let h = tokio::runtime::Handle::current();
      std::thread::spawn(move || h.block_on(body));
    } else {
      tokio::spawn(body);
    }
  }
  Ok(rx)
}

async fn script_body(w: Arc<World>, ctx: Context, key: SKey, script: Script, tx: StreamSender) {
  let (wf, job, n) = key.clone();
  let push = |k: K, s: &str, d: Value| {
    w.rec.push(SCRIPT, false, k, &wf, Some(job.clone()), Some(n), s, d);
  };
  let mut seen: Option<Signal> = None;
  let mut fin = script.fin.clone();
  let mut kids = vec![];
  for (p, lines) in script.producers.iter().enumerate() {
    let tx = tx.clone();
    let w = w.clone();
    let (wf, job) = (wf.clone(), job.clone());
    let lines = *lines;
    kids.push(tokio::spawn(async move {
      for i in 0..lines {
        let text = format!("@{}:{}", p + 1, i);
        w.rec.push(SCRIPT, false, K::Sent, &wf, Some(job.clone()), Some(n), "log", json!(text));
        tx.log(text);
        if i % 3 == 0 {
          tokio::task::yield_now().await;
        }
      }
    }));
  }
  'outer: for act in &script.acts {
    match act {
      Act::Log(m) => {
        push(K::Sent, "log", json!(m));
        tx.log(m.clone());
      }
      Act::Err(m) => {
        push(K::Sent, "error", json!(m));
        tx.error(m.clone());
      }
      Act::Yield => tokio::task::yield_now().await,
      Act::SleepUs(us) => tokio::time::sleep(Duration::from_micros(*us)).await,
      Act::Sleep(ms) => {
        let until = Instant::now() + Duration::from_millis(*ms);
        loop {
          if seen.is_some() {
            tokio::time::sleep_until(until).await;
            break;
          }
          tokio::select! {
            biased;
            s = ctx.signal.recv() => {
              push(K::Signal, &s.to_string(), Value::Null);
              seen = Some(s);
              match &script.react {
                React::Ignore => {}
                React::Standard => {
                  // 123 is what StreamSender::timeout() reports
                  fin = if s == Signal::Cancel { Fin::Cancelled } else { Fin::Failed(123) };
                  break 'outer;
                }
                React::End(f) => { fin = f.clone(); break 'outer; }
                React::After(ms, f) => {
                  tokio::time::sleep(Duration::from_millis(*ms)).await;
                  fin = f.clone();
                  break 'outer;
                }
              }
            }
            _ = tokio::time::sleep_until(until) => break,
          }
        }
      }
    }
  }
  for k in kids {
    k.await.ok();
  }
  if seen.is_some() {
    for i in 0..script.farewell {
      let text = format!("bye{}", i);
      if i % 3 == 1 {
        push(K::Sent, "error", json!(text));
        tx.error(text);
      } else {
        push(K::Sent, "log", json!(text));
        tx.log(text);
      }
      if i % 4 == 3 {
        tokio::task::yield_now().await;
      }
    }
  }
  push(K::End, &fin_name(&fin), Value::Null);
  if fin == Fin::Panic {
    panic!("{}", SCRIPTED);
  }
  if seen == Some(Signal::Timeout) && fin == Fin::Failed(123) {
    tx.timeout();
  } else {
    set_end(&tx, &fin);
  }
  if let Some(f) = &script.second_end {
    tokio::task::yield_now().await;
    set_end(&tx, f);
  }
}

// ------------------------------------------------------------------ running

pub struct RunOut {
  pub spec: WfSpec,
  /// Ok: result; Err: "hang" | "panic: .." | "build: .."
  pub result: std::result::Result<WorkflowRunResult, String>,
  pub workflow: Option<Workflow>,
}

pub struct PluginPlan {
  /// false: trait plugin, true: builder-made
  pub plugins: Vec<bool>,
}

pub fn build_astro(w: &Arc<World>, plan: &PluginPlan, runner: impl Runner + 'static) -> AstroRun {
  let mut b = AstroRun::builder().runner(runner);
  for (i, built) in plan.plugins.iter().enumerate() {
    if *built {
      b = b.plugin(built_plugin(w.clone(), i));
    } else {
      b = b.plugin(ObsPlugin { w: w.clone(), obs: i });
    }
  }
  if let Some(t) = w.token.lock().clone() {
    b = b.github_personal_token(t);
  }
  let a = b.build();
  *w.astro.lock() = Some(a.clone());
  a
}

pub const FAR: u64 = 700 * 24 * 3600; // virtual seconds

/// Wait for a future. Virtual mode: the clock jumps, so an elapsed far deadline is a hang.
/// Real mode: hang if nothing was recorded and every other thread slept for a long time.
pub async fn wait_or_hang<T: Send + 'static>(w: &Arc<World>, fut: impl std::future::Future<Output = T> + Send + 'static) -> std::result::Result<T, String> {
  let mut h = tokio::spawn(fut);
  if w.virt {
    return match tokio::time::timeout(Duration::from_secs(FAR), &mut h).await {
      Ok(Ok(v)) => Ok(v),
      Ok(Err(e)) => Err(format!("panic: {}", e)),
      Err(_) => {
        h.abort();
        Err("hang".into())
      }
    };
  }
  let begin = std::time::Instant::now();
  let mut last = w.rec.len();
  let mut since = std::time::Instant::now();
  loop {
    match tokio::time::timeout(Duration::from_millis(400), &mut h).await {
      Ok(Ok(v)) => return Ok(v),
      Ok(Err(e)) => return Err(format!("panic: {}", e)),
      Err(_) => {
        let n = w.rec.len();
        if n != last {
          last = n;
          since = std::time::Instant::now();
        }
        if since.elapsed() > Duration::from_secs(6) {
          let idle = tokio::task::spawn_blocking(|| crate::frame::process_idle_for(1500)).await.unwrap_or(false);
          if idle && w.rec.len() == last && !h.is_finished() {
            h.abort();
            return Err("hang".into());
          }
          progress();
        }
        if begin.elapsed() > Duration::from_secs(150) {
          h.abort();
          return Err("inconclusive".into());
        }
      }
    }
  }
}

pub async fn build_workflow(astro: &AstroRun, spec: &WfSpec) -> std::result::Result<Workflow, String> {
  Workflow::builder().id(spec.id.clone()).config(spec.yaml()).build(astro).await.map_err(|e| format!("build: {}", e))
}

pub struct CtxOpts {
  pub event: Option<TriggerEvent>,
  pub payload: Option<Payload>,
}

pub async fn run_spec(w: &Arc<World>, astro: &AstroRun, spec: &WfSpec, opts: CtxOpts) -> RunOut {
  w.add(spec);
  let workflow = match build_workflow(astro, spec).await {
    Ok(x) => x,
    Err(e) => return RunOut { spec: spec.clone(), result: Err(e), workflow: None },
  };
  run_built(w, astro, spec, workflow, opts).await
}

pub async fn run_built(w: &Arc<World>, astro: &AstroRun, spec: &WfSpec, workflow: Workflow, opts: CtxOpts) -> RunOut {
  let mut b = astro.execution_context();
  if let Some(e) = opts.event {
    b = b.event(e);
  }
  let given = opts.payload.as_ref().map(|p| serde_json::to_value(p).unwrap());
  if let Some(p) = opts.payload {
    b = b.payload(p);
  }
  let ctx = b.build();
  let held = ctx.payload::<Payload>().map(|p| serde_json::to_value(p).unwrap());
  if held != given {
    w.rec.push(CTL, true, K::Stamp, &spec.id, None, None, "payload", json!([given, held]));
  }
  w.ctxs.lock().insert(spec.id.clone(), ctx.clone());
  w.rec.now_ms();
  let mut timers = vec![];
  for p in spec.cancels.iter().cloned() {
    if let When::Time(ms) = p.at {
      let w2 = w.clone();
      let id = spec.id.clone();
      timers.push(tokio::spawn(async move {
        tokio::time::sleep(Duration::from_millis(ms)).await;
        w2.do_cancel(&id, &p);
      }));
    }
  }
  let wf = workflow.clone();
  let result = wait_or_hang(w, async move { wf.run(ctx).await }).await;
  if result.is_ok() {
    for t in timers {
      t.await.ok();
    }
  }
  RunOut { spec: spec.clone(), result, workflow: Some(workflow) }
}

pub fn rt_virtual() -> tokio::runtime::Runtime {
  tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}

pub fn rt_real(threads: usize) -> tokio::runtime::Runtime {
  tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap()
}

/// Signature of a trace: order of event kinds per entity, for counting distinct interleavings.
pub fn signature(evs: &[Ev]) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for e in evs {
    if e.exit {
      continue;
    }
    h = mix(h ^ hash_str(e.obs as u64, &format!("{:?}{}{:?}{:?}{}", e.k, e.wf, e.job, e.step, e.s)));
  }
  h
}

pub fn compact(evs: &[Ev], max: usize) -> Value {
  let f = |e: &Ev| {
    json!(format!(
      "{} t={} {}{} {:?} {}/{}/{} {} {}",
      e.seq,
      e.t,
      e.obs,
      if e.exit { ">" } else { "<" },
      e.k,
      e.wf,
      e.job.clone().unwrap_or_default(),
      e.step.map(|s| s.to_string()).unwrap_or_default(),
      e.s,
      if e.k == K::Sent || e.k == K::Log { e.d.to_string().chars().take(60).collect::<String>() } else { String::new() }
    ))
  };
  if evs.len() <= max {
    Value::Array(evs.iter().map(f).collect())
  } else {
    let mut v: Vec<Value> = evs[..max / 2].iter().map(f).collect();
    v.push(json!("..."));
    v.extend(evs[evs.len() - max / 2..].iter().map(f));
    Value::Array(v)
  }
}
