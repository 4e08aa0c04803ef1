//! Offline monitors over recorded traces. Each returns a list of violations.
use crate::engine::*;
use astro_run::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

pub struct Tr<'a> {
  pub spec: &'a WfSpec,
  pub out: &'a RunOut,
  pub evs: Vec<&'a Ev>,
  /// the same by job
  by: HashMap<Option<String>, Vec<&'a Ev>>,
  /// plugin observers in order followed by the runner
  pub obs: Vec<usize>,
  pub virt: bool,
  pub hooks: HookCfg,
  pub signals: HashMap<SKey, Vec<AstroRunSignal>>,
  /// seen through a relay that carries every event except before-run-step
  pub relayed: bool,
  /// what its conditions leave out
  pub left_out: Vec<(Option<String>, Option<usize>)>,
}

fn by_job<'a>(evs: &[&'a Ev]) -> HashMap<Option<String>, Vec<&'a Ev>> {
  let mut m: HashMap<Option<String>, Vec<&'a Ev>> = HashMap::new();
  for e in evs {
    m.entry(e.job.clone()).or_default().push(e);
  }
  m
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
  Succeeded,
  Failed(Option<i32>),
  Cancelled,
}

impl<'a> Tr<'a> {
  pub fn new(w: &World, all: &'a [Ev], out: &'a RunOut, plugins: usize, runner_obs: Option<usize>) -> Tr<'a> {
    let mut obs: Vec<usize> = (0..plugins).collect();
    if let Some(r) = runner_obs {
      obs.push(r);
    }
    let mut signals: HashMap<SKey, Vec<AstroRunSignal>> = HashMap::new();
    for (k, s) in w.signals.lock().iter() {
      if k.0 == out.spec.id {
        signals.entry(k.clone()).or_default().push(s.clone());
      }
    }
    let evs: Vec<&'a Ev> = all.iter().filter(|e| e.wf == out.spec.id).collect();
    Tr {
      spec: &out.spec,
      out,
      by: by_job(&evs),
      evs,
      obs,
      virt: w.virt,
      hooks: w.hooks.clone(),
      signals,
      relayed: false,
      left_out: w.left_out.lock().iter().filter(|x| x.0 == out.spec.id).map(|x| (x.1.clone(), x.2)).collect(),
    }
  }
  /// The same run as seen by these observers, without the before-run-step hooks.
  pub fn relay(&self, obs: Vec<usize>) -> Tr<'a> {
    let evs: Vec<&'a Ev> = self.evs.iter().filter(|e| e.k != K::BeforeStep && (!Self::is_hook(e.k) || obs.contains(&e.obs))).cloned().collect();
    Tr {
      spec: self.spec,
      out: self.out,
      by: by_job(&evs),
      evs,
      obs,
      virt: self.virt,
      hooks: self.hooks.clone(),
      signals: self.signals.clone(),
      relayed: true,
      left_out: self.left_out.clone(),
    }
  }
  /// The same run without what remote sides and schedulers were told.
  pub fn local(&self) -> Tr<'a> {
    let mut t = self.relay(self.obs.clone());
    t.evs = self.evs.iter().filter(|e| !(Self::is_hook(e.k) && e.obs >= 100)).cloned().collect();
    t.by = by_job(&t.evs);
    t.relayed = self.relayed;
    t
  }
  fn first(&self) -> usize {
    self.obs[0]
  }
  fn last(&self) -> usize {
    *self.obs.last().unwrap()
  }
  pub fn is_hook(k: K) -> bool {
    matches!(k, K::RunWorkflow | K::RunJob | K::BeforeStep | K::RunStep | K::State | K::Log | K::StepDone | K::JobDone | K::WorkflowDone)
  }
  /// events of one job (None: of the workflow itself)
  fn of(&self, job: Option<&str>) -> &[&'a Ev] {
    self.by.get(&job.map(|j| j.to_string())).map(|v| v.as_slice()).unwrap_or(&[])
  }
  pub fn enters(&self, o: usize, k: K, job: Option<&str>, step: Option<usize>) -> Vec<&'a Ev> {
    self.of(job).iter().filter(|e| !e.exit && e.obs == o && e.k == k && e.step == step).cloned().collect()
  }
  pub fn exits(&self, o: usize, k: K, job: Option<&str>, step: Option<usize>) -> Vec<&'a Ev> {
    self.of(job).iter().filter(|e| e.exit && e.obs == o && e.k == k && e.step == step).cloned().collect()
  }
  fn state(&self, o: usize, job: Option<&str>, step: Option<usize>, s: &str) -> Option<&'a Ev> {
    self.enters(o, K::State, job, step).into_iter().find(|e| e.s == s)
  }
  fn terminal(&self, o: usize, job: Option<&str>, step: Option<usize>) -> Option<&'a Ev> {
    self
      .enters(o, K::State, job, step)
      .into_iter()
      .find(|e| matches!(e.s.as_str(), "succeeded" | "failed" | "cancelled" | "skipped"))
  }
  /// exit event of a hook call: the next exit of the same (obs,k,entity) after `e`
  fn exit_of(&self, e: &Ev) -> Option<&'a Ev> {
    let of = self.of(e.job.as_deref());
    let from = of.partition_point(|x| x.seq <= e.seq);
    of[from..]
      .iter()
      .find(|x| x.exit && x.seq > e.seq && x.obs == e.obs && x.k == e.k && x.job == e.job && x.step == e.step)
      .cloned()
  }
  pub fn run_ev(&self, job: &str, step: usize) -> Vec<&'a Ev> {
    self.of(Some(job)).iter().filter(|e| !e.exit && e.k == K::Run && e.step == Some(step)).cloned().collect()
  }
  pub fn end_ev(&self, job: &str, step: usize) -> Option<&'a Ev> {
    self.of(Some(job)).iter().find(|e| e.k == K::End && e.job.as_deref() == Some(job) && e.step == Some(step)).cloned()
  }
  pub fn crashed(&self, job: &str) -> bool {
    let scripted = self
      .of(Some(job))
      .iter()
      .any(|e| e.k == K::RunRet && e.s == "panic" && e.job.as_deref() == Some(job));
    let hook = match &self.hooks.panic_at {
      Some((o, kind, j)) => {
        j == job
          && self
            .of(Some(job))
            .iter()
            .any(|e| !e.exit && e.obs == *o && format!("{:?}", e.k) == *kind && e.job.as_deref() == Some(job))
      }
      None => false,
    };
    scripted || hook
  }
  /// What the runner reported for an executed step.
  pub fn reported(&self, job: &str, step: usize) -> Option<Expect> {
    let ret = self
      .of(Some(job))
      .iter()
      .find(|e| e.k == K::RunRet && e.job.as_deref() == Some(job) && e.step == Some(step))?;
    if ret.s == "err" || ret.s == "unknown step" {
      return Some(Expect::Failed(Some(1)));
    }
    let end = self.end_ev(job, step)?;
    Some(if end.s == "succeeded" {
      Expect::Succeeded
    } else if end.s == "cancelled" {
      Expect::Cancelled
    } else if let Some(c) = end.s.strip_prefix("failed:") {
      Expect::Failed(Some(c.parse().unwrap()))
    } else {
      Expect::Failed(None)
    })
  }
  fn ok_cancel(&self, job: &str) -> Option<(&'a Ev, &'a Ev)> {
    let ret = self
      .of(Some(job))
      .iter()
      .find(|e| e.k == K::CancelRet && e.s == "ok" && e.job.as_deref() == Some(job))?;
    let call = self
      .of(Some(job))
      .iter()
      .find(|e| e.k == K::Cancel && e.d == ret.d && e.job.as_deref() == Some(job))?;
    Some((call, ret))
  }
  fn is_left_out(&self, job: Option<&str>, step: Option<usize>) -> bool {
    !self.left_out.is_empty() && self.left_out.contains(&(job.map(|j| j.to_string()), step))
  }
  /// A workflow left out by its own condition.
  fn skipped_workflow(&self, res: &WorkflowRunResult, v: &mut Vec<String>) -> bool {
    let want = self.is_left_out(None, None);
    if want != (res.state == WorkflowState::Skipped) {
      v.push(format!("the workflow is {:?}, its condition says {}", res.state, if want { "skip" } else { "run" }));
      return true;
    }
    if want && (!res.jobs.is_empty() || res.started_at.is_some() || res.completed_at.is_some() || self.evs.iter().any(|e| e.k == K::Run)) {
      v.push(format!("a skipped workflow was executed or has results or times: {:?}", res));
    }
    want
  }
  fn executed(&self, job: &str) -> bool {
    !self.enters(self.first(), K::RunJob, Some(job), None).is_empty()
  }
  fn result(&self) -> Option<&'a WorkflowRunResult> {
    self.out.result.as_ref().ok()
  }
  fn job_result(&self, job: &str) -> Option<&'a JobRunResult> {
    self.result().and_then(|r| r.jobs.get(job))
  }

  pub fn ended(&self) -> Vec<String> {
    match &self.out.result {
      Ok(_) => vec![],
      Err(e) if e == "inconclusive" => vec![],
      Err(e) => vec![format!("workflow {} did not end normally: {}", self.spec.id, e)],
    }
  }

  // ---------------------------------------------------------------- C01
  pub fn c01(&self) -> Vec<String> {
    let mut v = self.ended();
    let Some(res) = self.result() else { return v };
    if self.skipped_workflow(res, &mut v) {
      return v;
    }
    let f = self.first();
    let mut keys: Vec<&String> = res.jobs.keys().collect();
    keys.sort();
    let mut want: Vec<&String> = self.spec.jobs.iter().map(|j| &j.key).collect();
    want.sort();
    if keys != want {
      v.push(format!("workflow result has jobs {:?}, expected {:?}", keys, want));
    }
    for (k, r) in &res.jobs {
      if r.id.job_key() != *k || r.id.workflow_id().inner() != self.spec.id {
        v.push(format!("result under key {} carries id {}", k, r.id));
      }
    }
    let wf_running = self.state(self.last(), None, None, "in_progress").and_then(|e| self.exit_of(e));
    for j in &self.spec.jobs {
      let starts = self.enters(f, K::RunJob, Some(&j.key), None);
      let want = if self.is_left_out(Some(&j.key), None) { 0 } else { 1 };
      if starts.len() != want {
        v.push(format!("job {} was started {} times, expected {}", j.key, starts.len(), want));
      }
      if starts.len() != 1 {
        continue;
      }
      for i in 0..j.steps.len() {
        let n = self.run_ev(&j.key, i).len();
        if n > 1 {
          v.push(format!("step {}/{} reached the runner {} times", j.key, i, n));
        }
      }
      let mut ready = wf_running.map(|e| e.t).unwrap_or(0);
      let mut known = wf_running.is_some();
      let mut deps = j.deps.clone();
      deps.sort();
      deps.dedup();
      for d in &deps {
        let last_dep = if self.crashed(d) {
          known = false; // the moment of the crash is not observable
          self.evs.iter().filter(|e| e.job.as_deref() == Some(d) && (Self::is_hook(e.k) || e.k == K::Run)).last().cloned()
        } else {
          self.terminal(f, Some(d), None)
        };
        match last_dep {
          None => v.push(format!("job {} started although its dependency {} never finished", j.key, d)),
          Some(e) if e.seq > starts[0].seq => {
            v.push(format!("job {} started (seq {}) before its dependency {} finished (seq {})", j.key, starts[0].seq, d, e.seq))
          }
          Some(_) => {}
        }
        match self.exits(self.last(), K::JobDone, Some(d), None).last() {
          Some(e) => ready = ready.max(e.t),
          None => known = known && !self.crashed(d) && !self.is_left_out(Some(d), None),
        }
      }
      if self.virt && known {
        let lag = starts[0].t.saturating_sub(ready);
        if lag > 3 {
          v.push(format!("job {} was ready at {} ms but started only at {} ms", j.key, ready, starts[0].t));
        }
      }
    }
    v
  }

  // ---------------------------------------------------------------- C03
  pub fn c03(&self) -> Vec<String> {
    let mut v = self.ended();
    let Some(res) = self.result() else { return v };
    for j in &self.spec.jobs {
      let Some(r) = res.jobs.get(&j.key) else {
        v.push(format!("no result for job {}", j.key));
        continue;
      };
      if self.crashed(&j.key) {
        if r.state != WorkflowState::Failed {
          v.push(format!("job {} crashed but is reported {:?}", j.key, r.state));
        }
        if res.state != WorkflowState::Failed && res.state != WorkflowState::Cancelled {
          v.push(format!("job {} crashed but the workflow is reported {:?}", j.key, res.state));
        }
        continue;
      }
      if !self.executed(&j.key) {
        v.push(format!("job {} never ran", j.key));
      }
      for (i, s) in r.steps.iter().enumerate() {
        if self.end_ev(&j.key, i).map(|e| e.s == "vanish" || e.s == "panic").unwrap_or(false) && s.state != WorkflowState::Failed {
          v.push(format!("step {}/{} ended without a result but is reported {:?}", j.key, i, s.state));
        }
      }
    }
    v
  }

  // ---------------------------------------------------------------- C04
  pub fn c04(&self) -> Vec<String> {
    let mut v = self.ended();
    for j in &self.spec.jobs {
      if self.executed(&j.key) && (self.is_left_out(Some(&j.key), None) || self.is_left_out(None, None)) {
        v.push(format!("job {} was executed although its condition says otherwise", j.key));
      }
      if !self.executed(&j.key) || self.crashed(&j.key) {
        continue;
      }
      let Some(r) = self.job_result(&j.key) else { continue };
      let ids: Vec<String> = r.steps.iter().map(|s| s.id.to_string()).collect();
      let want: Vec<String> = (0..j.steps.len()).map(|i| format!("{}/{}/{}", self.spec.id, j.key, i)).collect();
      if ids != want {
        v.push(format!("job {} has step results {:?}, expected {:?}", j.key, ids, want));
        continue;
      }
      let (mut failed, mut cancelled) = (false, false);
      let mut prev_last = 0u64;
      for (i, s) in j.steps.iter().enumerate() {
        let step_evs: Vec<&&Ev> = self
          .of(Some(&j.key))
          .iter()
          // (a signal may still be on its way to a remote runner when the step is over)
          .filter(|e| e.step == Some(i) && !matches!(e.k, K::Custom | K::Stamp))
          .collect();
        let ran = !self.run_ev(&j.key, i).is_empty();
        let announced = step_evs.iter().any(|e| matches!(e.k, K::BeforeStep | K::RunStep | K::StepDone));
        let must_skip = cancelled || (failed && !s.coe) || self.is_left_out(Some(&j.key), Some(i));
        if ran && must_skip {
          v.push(format!("step {}/{} was executed although it had to be skipped", j.key, i));
        }
        if !ran && announced {
          v.push(format!("step {}/{} was announced but never reached the runner", j.key, i));
        }
        if !ran && !must_skip {
          let first = step_evs.first().map(|e| e.seq).unwrap_or(u64::MAX);
          let excused = self.ok_cancel(&j.key).map(|(c, _)| c.seq < first).unwrap_or(false);
          if !excused {
            v.push(format!("step {}/{} was not executed although nothing before it failed or was cancelled", j.key, i));
          }
        }
        if !ran && r.steps[i].state != WorkflowState::Skipped {
          v.push(format!("step {}/{} was not executed but reported {:?}", j.key, i, r.steps[i].state));
        }
        if ran && r.steps[i].state == WorkflowState::Skipped {
          v.push(format!("step {}/{} was executed but reported skipped", j.key, i));
        }
        if let Some(e) = step_evs.first() {
          if e.seq < prev_last {
            v.push(format!("step {}/{} began (seq {}) before the previous step was over (seq {})", j.key, i, e.seq, prev_last));
          }
        }
        // everything up to the end of the script, plus its hooks
        prev_last = step_evs.iter().map(|e| e.seq).max().unwrap_or(prev_last).max(prev_last);
        if ran {
          match self.reported(&j.key, i) {
            Some(Expect::Failed(_)) => failed = true,
            Some(Expect::Cancelled) => cancelled = true,
            _ => {}
          }
        }
      }
    }
    v
  }

  // ---------------------------------------------------------------- C05
  pub fn c05(&self) -> Vec<String> {
    let mut v = self.ended();
    let Some(res) = self.result() else { return v };
    if self.skipped_workflow(res, &mut v) {
      return v;
    }
    let times = |what: &str, a: &Option<chrono::DateTime<chrono::Utc>>, b: &Option<chrono::DateTime<chrono::Utc>>, v: &mut Vec<String>| match (a, b) {
      (Some(a), Some(b)) => {
        if a > b {
          v.push(format!("{} completed before it started", what))
        }
      }
      _ => v.push(format!("{} lacks a start or completion time", what)),
    };
    times("workflow", &res.started_at, &res.completed_at, &mut v);
    let (mut any_f, mut any_c) = (false, false);
    for j in &self.spec.jobs {
      let Some(r) = res.jobs.get(&j.key) else { continue };
      if self.crashed(&j.key) {
        any_f = true;
        continue;
      }
      match r.state {
        WorkflowState::Failed => any_f = true,
        WorkflowState::Cancelled => any_c = true,
        _ => {}
      }
      if self.is_left_out(Some(&j.key), None) && (r.state != WorkflowState::Skipped || r.started_at.is_some() || r.completed_at.is_some() || !r.steps.is_empty()) {
        v.push(format!("job {} is left out by its condition but reported {:?}", j.key, r));
      }
      if !self.executed(&j.key) {
        continue;
      }
      times(&format!("job {}", j.key), &r.started_at, &r.completed_at, &mut v);
      if r.started_at < res.started_at || r.completed_at > res.completed_at {
        v.push(format!("times of job {} lie outside its workflow's", j.key));
      }
      let (mut f, mut c, mut maybe) = (false, false, false);
      let mut prev_end = r.started_at;
      for (i, s) in r.steps.iter().enumerate() {
        if self.run_ev(&j.key, i).is_empty() {
          if s.exit_code.is_some() || s.started_at.is_some() || s.completed_at.is_some() {
            v.push(format!("skipped step {}/{} has an exit code or times", j.key, i));
          }
          if !(c || (f && !j.steps.get(i).map(|s| s.coe).unwrap_or(false)) || self.is_left_out(Some(&j.key), Some(i))) {
            maybe = true;
          }
          continue;
        }
        let what = format!("step {}/{}", j.key, i);
        times(&what, &s.started_at, &s.completed_at, &mut v);
        if s.started_at < prev_end || s.completed_at > r.completed_at {
          v.push(format!("times of {} lie outside its job's or overlap the previous step's", what));
        }
        prev_end = s.completed_at;
        // what was observed of the execution lies within its times
        let run = self.run_ev(&j.key, i);
        let (from, to) = (s.started_at.as_ref().map(nanos).unwrap_or(0), s.completed_at.as_ref().map(nanos).unwrap_or(0));
        let last = self.of(Some(&j.key)).iter().filter(|e| e.k == K::Log && !e.exit && e.obs <= RUNNER && e.step == Some(i)).map(|e| e.at).max().unwrap_or(0).max(run[0].at);
        if from > run[0].at || to < last {
          v.push(format!("{} ran from {} until at least {}, its times are {} and {}", what, run[0].at, last, from, to));
        }
        let exp = self.reported(&j.key, i);
        let good = match &exp {
          Some(Expect::Succeeded) => s.state == WorkflowState::Succeeded && s.exit_code.is_none(),
          Some(Expect::Cancelled) => {
            c = true;
            s.state == WorkflowState::Cancelled && s.exit_code.is_none()
          }
          Some(Expect::Failed(code)) => {
            f = true;
            s.state == WorkflowState::Failed && (code.is_none() && s.exit_code.is_some() || s.exit_code == *code)
          }
          None => false,
        };
        if !good {
          v.push(format!("{}: runner reported {:?} but the result is {:?} {:?}", what, exp, s.state, s.exit_code));
        }
      }
      let want = if c {
        WorkflowState::Cancelled
      } else if f {
        WorkflowState::Failed
      } else {
        WorkflowState::Succeeded
      };
      let ok = r.state == want || (maybe && r.state == WorkflowState::Cancelled);
      if !ok {
        v.push(format!("job {} is reported {:?}, expected {:?}", j.key, r.state, want));
      }
    }
    let ok = match (any_f, any_c) {
      (true, true) => res.state == WorkflowState::Failed || res.state == WorkflowState::Cancelled,
      (true, false) => res.state == WorkflowState::Failed,
      (false, true) => res.state == WorkflowState::Cancelled,
      (false, false) => res.state == WorkflowState::Succeeded,
    };
    if !ok {
      v.push(format!("workflow is reported {:?} with failed jobs: {}, cancelled jobs: {}", res.state, any_f, any_c));
    }
    v
  }

  // ---------------------------------------------------------------- C06
  pub fn c06(&self) -> Vec<String> {
    let mut v = self.ended();
    for &o in &self.obs {
      self.grammar(o, &mut v);
    }
    v
  }

  fn grammar(&self, o: usize, v: &mut Vec<String>) {
    let hooks: Vec<&&Ev> = self.evs.iter().filter(|e| e.obs == o && !e.exit && Self::is_hook(e.k)).collect();
    let name = |e: &Ev| match e.k {
      K::State | K::StepDone | K::JobDone | K::WorkflowDone => format!("{:?}:{}", e.k, e.s),
      k => format!("{:?}", k),
    };
    let finished = self.result().is_some();
    // workflow
    let wf: Vec<&&&Ev> = hooks.iter().filter(|e| e.job.is_none()).collect();
    let names: Vec<String> = wf.iter().map(|e| name(e)).collect();
    if let Some(res) = self.result() {
      let st = sname(&res.state);
      let want: Vec<String> = if st == "skipped" {
        vec!["State:skipped".into()]
      } else {
        vec!["RunWorkflow".into(), "State:in_progress".into(), format!("State:{}", st), format!("WorkflowDone:{}", st)]
      };
      if names != want {
        v.push(format!("observer {}: workflow events {:?}, expected {:?}", o, names, want));
        return;
      }
      if st == "skipped" {
        if hooks.len() != 1 {
          v.push(format!("observer {}: events other than skipped for a skipped workflow", o));
        }
        return;
      }
      let (a, b) = (wf[1].seq, wf[2].seq);
      for e in hooks.iter().filter(|e| e.job.is_some()) {
        if e.seq < a || e.seq > b {
          v.push(format!("observer {}: event {} of job {:?} lies outside its workflow's in-progress..terminal window", o, name(e), e.job));
          break;
        }
      }
      if wf[3].d != json!(res) {
        v.push(format!("observer {}: the completed event's result differs from the returned one", o));
      }
    }
    // jobs
    let mut keys: Vec<String> = hooks.iter().filter_map(|e| e.job.clone()).collect();
    if finished {
      // every entity is announced
      keys.extend(self.spec.jobs.iter().map(|j| j.key.clone()));
    }
    keys.sort();
    keys.dedup();
    for k in keys {
      let je: Vec<&&&Ev> = hooks.iter().filter(|e| e.job.as_deref() == Some(&k) && e.step.is_none()).collect();
      let names: Vec<String> = je.iter().map(|e| name(e)).collect();
      let se: Vec<&&&Ev> = hooks.iter().filter(|e| e.job.as_deref() == Some(&k) && e.step.is_some()).collect();
      if names == ["State:skipped"] {
        if !se.is_empty() {
          v.push(format!("observer {}: step events in skipped job {}", o, k));
        }
        if let Some(r) = self.job_result(&k) {
          if r.state != WorkflowState::Skipped || r.started_at.is_some() || r.completed_at.is_some() || !r.steps.is_empty() {
            v.push(format!("observer {}: job {} announced as skipped but its result is {:?}", o, k, r));
          }
        }
        continue;
      }
      let crashed = self.crashed(&k);
      let st = self.job_result(&k).map(|r| sname(&r.state)).unwrap_or_default();
      let want: Vec<String> =
        vec!["RunJob".into(), "State:in_progress".into(), format!("State:{}", st), format!("JobDone:{}", st)];
      let fine = if crashed || !finished { want.starts_with(&names) || names.len() <= 4 } else { names == want };
      if !fine {
        v.push(format!("observer {}: events of job {} are {:?}, expected {:?}", o, k, names, want));
        continue;
      }
      if !crashed && finished {
        let (a, b) = (je[1].seq, je[2].seq);
        if let Some(e) = se.iter().find(|e| e.seq < a || e.seq > b) {
          v.push(format!("observer {}: {} of step {}/{:?} lies outside its job's in-progress..terminal window", o, name(e), k, e.step));
        }
        if let Some(r) = self.job_result(&k) {
          if je[3].d != json!(r) {
            v.push(format!("observer {}: completed event of job {} differs from its result", o, k));
          }
        }
      }
      // steps: contiguous, increasing
      let order: Vec<usize> = se.iter().map(|e| e.step.unwrap()).collect();
      if order.windows(2).any(|w| w[1] < w[0]) {
        v.push(format!("observer {}: steps of job {} interleave: {:?}", o, k, order));
      }
      let mut ns = order.clone();
      if let (Some(r), false) = (self.job_result(&k), crashed) {
        ns.extend(0..r.steps.len());
        ns.sort();
      }
      ns.dedup();
      for n in ns.iter().cloned() {
        let e: Vec<&&&&Ev> = se.iter().filter(|e| e.step == Some(n)).collect();
        let names: Vec<String> = e.iter().map(|e| name(e)).filter(|x| x != "Log").collect();
        let sr = self.job_result(&k).and_then(|r| r.steps.get(n));
        let st = sr.map(|s| sname(&s.state)).unwrap_or_default();
        if names == ["State:skipped"] {
          if !crashed && st != "skipped" {
            v.push(format!("observer {}: step {}/{} announced skipped, result {}", o, k, n, st));
          }
          if e.len() != 1 {
            v.push(format!("observer {}: logs for skipped step {}/{}", o, k, n));
          }
          continue;
        }
        let mut want: Vec<String> = vec!["BeforeStep".into(), "RunStep".into(), "State:queued".into()];
        if self.relayed {
          want.remove(0);
        }
        let refused = self
          .of(Some(&k))
          .iter()
          .any(|e| e.k == K::RunRet && (e.s == "err" || e.s == "unknown step") && e.job.as_deref() == Some(&k) && e.step == Some(n));
        if !refused {
          want.push("State:in_progress".into());
        }
        want.push(format!("State:{}", st));
        want.push(format!("StepDone:{}", st));
        let fine = if crashed || !finished { want[..want.len() - 2].starts_with(&names[..names.len().min(want.len() - 2)]) } else { names == want };
        if !fine {
          v.push(format!("observer {}: events of step {}/{} are {:?}, expected {:?}", o, k, n, names, want));
          continue;
        }
        if !crashed && finished {
          if let (Some(last), Some(sr)) = (e.last(), sr) {
            if last.d != json!(sr) {
              v.push(format!("observer {}: completed event of step {}/{} differs from its result", o, k, n));
            }
          }
        }
        // logs only between in progress and terminal
        let p = e.iter().position(|x| x.k == K::State && x.s == "in_progress");
        let q = e.iter().position(|x| x.k == K::State && matches!(x.s.as_str(), "succeeded" | "failed" | "cancelled"));
        for (i, x) in e.iter().enumerate() {
          if x.k == K::Log && (p.is_none() || i < p.unwrap() || q.map(|q| i > q).unwrap_or(false)) {
            v.push(format!("observer {}: log of step {}/{} outside its in-progress..terminal window", o, k, n));
            break;
          }
        }
      }
    }
  }

  // ---------------------------------------------------------------- C07
  pub fn c07(&self) -> Vec<String> {
    let mut v = self.ended();
    if self.result().is_none() {
      return v;
    }
    let mut sent: BTreeMap<(String, usize), Vec<(String, String)>> = BTreeMap::new();
    for e in &self.evs {
      if e.k == K::Sent {
        sent
          .entry((e.job.clone().unwrap(), e.step.unwrap()))
          .or_default()
          .push((e.s.clone(), e.d.as_str().unwrap().to_string()));
      }
    }
    for e in self.evs.iter().filter(|e| e.k == K::Stamp && e.s.is_empty() && e.obs <= RUNNER) {
      let (t, now) = (e.d[0].as_i64().unwrap_or(0), e.d[1].as_i64().unwrap_or(0));
      let (j, s) = (e.job.as_deref().unwrap_or(""), e.step.unwrap_or(0));
      if t > now {
        v.push(format!("observer {}: a log line of {}/{} has a time {} ns after it was delivered", e.obs, j, s, t - now));
      }
      if let Some(r) = self.run_ev(j, s).first().filter(|r| t < r.at) {
        v.push(format!("observer {}: a log line of {}/{} has a time {} ns before its runner was called", e.obs, j, s, r.at - t));
      }
    }
    for &o in &self.obs {
      let mut got: BTreeMap<(String, usize), Vec<(String, String)>> = BTreeMap::new();
      for e in &self.evs {
        if e.k == K::Log && !e.exit && e.obs == o {
          got
            .entry((e.job.clone().unwrap(), e.step.unwrap()))
            .or_default()
            .push((e.s.clone(), e.d.as_str().unwrap().to_string()));
        }
      }
      let mut keys: Vec<_> = sent.keys().chain(got.keys()).cloned().collect();
      keys.sort();
      keys.dedup();
      for k in keys {
        if self.crashed(&k.0) {
          continue;
        }
        let empty = vec![];
        let a = sent.get(&k).unwrap_or(&empty);
        let b = got.get(&k).unwrap_or(&empty);
        if let Some(m) = compare_lines(a, b) {
          v.push(format!("observer {}, step {}/{}: {}", o, k.0, k.1, m));
        }
      }
      // window
      let mut windows: HashMap<(Option<&str>, Option<usize>), (u64, u64)> = HashMap::new();
      for e in self.evs.iter().filter(|e| e.k == K::Log && !e.exit && e.obs == o) {
        let (j, s) = (e.job.as_deref(), e.step);
        let (a, b) = *windows.entry((j, s)).or_insert_with(|| {
          (
            self.state(o, j, s, "in_progress").map(|x| x.seq).unwrap_or(u64::MAX),
            self.terminal(o, j, s).map(|x| x.seq).unwrap_or(u64::MAX),
          )
        });
        if e.seq < a || e.seq > b {
          v.push(format!("observer {}: log of {:?}/{:?} outside its in-progress..terminal window", o, j, s));
          break;
        }
      }
    }
    v
  }

  // ---------------------------------------------------------------- C08
  pub fn c08(&self) -> Vec<String> {
    let mut v = self.ended();
    if self.result().is_none() {
      return v;
    }
    type Item<'b> = (&'b Ev, Option<u64>);
    let mut chains: BTreeMap<Option<String>, Vec<Vec<Item>>> = BTreeMap::new();
    for (oi, &o) in self.obs.iter().enumerate() {
      let es: Vec<&Ev> = self.evs.iter().filter(|e| e.obs == o && Self::is_hook(e.k)).cloned().collect();
      let mut open: HashMap<String, Vec<(Option<String>, usize)>> = HashMap::new();
      for e in es {
        let id = format!("{:?}{:?}{:?}", e.k, e.job, e.step);
        if !e.exit {
          let c = chains.entry(e.job.clone()).or_insert_with(|| vec![vec![]; self.obs.len()]);
          c[oi].push((e, None));
          let idx = c[oi].len() - 1;
          open.entry(id).or_default().push((e.job.clone(), idx));
        } else if let Some(q) = open.get_mut(&id) {
          if !q.is_empty() {
            let (job, idx) = q.remove(0);
            chains.get_mut(&job).unwrap()[oi][idx].1 = Some(e.seq);
          }
        }
      }
    }
    for (job, per) in &chains {
      if let Some(j) = job {
        if self.crashed(j) {
          continue;
        }
      }
      let key = |e: &Ev| {
        let d = if e.k == K::BeforeStep { Value::Null } else { e.d.clone() };
        (format!("{:?}", e.k), e.step, e.s.clone(), d)
      };
      let base: Vec<_> = per[0].iter().map(|x| key(x.0)).collect();
      for (i, p) in per.iter().enumerate().skip(1) {
        let other: Vec<_> = p.iter().map(|x| key(x.0)).collect();
        if other != base {
          let at = base.iter().zip(other.iter()).position(|(a, b)| a != b).unwrap_or(base.len().min(other.len()));
          v.push(format!(
            "observers {} and {} saw different events of job {:?}: {} vs {} events, first difference at {}: {:?} vs {:?}",
            self.obs[0],
            self.obs[i],
            job,
            base.len(),
            other.len(),
            at,
            base.get(at),
            other.get(at)
          ));
        }
      }
      if per.iter().any(|p| p.len() != per[0].len()) {
        continue;
      }
      for n in 0..per[0].len() {
        for i in 1..per.len() {
          let prev = per[i - 1][n];
          let cur = per[i][n];
          if prev.1.map(|x| x > cur.0.seq).unwrap_or(true) {
            v.push(format!(
              "event {:?} {} of job {:?}: observer {} was called (seq {}) before observer {} had handled it ({:?})",
              cur.0.k, cur.0.s, job, self.obs[i], cur.0.seq, self.obs[i - 1], prev.1
            ));
          }
        }
      }
    }
    v
  }

  // ---------------------------------------------------------------- C09
  pub fn c09(&self) -> Vec<String> {
    let mut v = self.ended();
    let Some(wf) = &self.out.workflow else { return v };
    for j in &self.spec.jobs {
      if self.crashed(&j.key) {
        continue;
      }
      for i in 0..j.steps.len() {
        let runs = self.run_ev(&j.key, i);
        if runs.is_empty() {
          continue;
        }
        let mut cur = step_value(&wf.jobs[&j.key].steps[i]);
        let mut bad = false;
        for &o in &self.obs {
          let ent = self.enters(o, K::BeforeStep, Some(&j.key), Some(i));
          if ent.len() != 1 {
            v.push(format!("before-run-step hook of observer {} was called {} times for {}/{}", o, ent.len(), j.key, i));
            bad = true;
            break;
          }
          if ent[0].d != cur {
            v.push(format!("observer {} received step {}/{} as {} but the chain so far gives {}", o, j.key, i, ent[0].d, cur));
            bad = true;
            break;
          }
          let re = self.exits(o, K::Custom, Some(&j.key), Some(i));
          if let Some(r) = re.first() {
            cur = r.d.clone();
          }
        }
        if bad {
          continue;
        }
        for &o in &self.obs {
          for e in self.enters(o, K::RunStep, Some(&j.key), Some(i)) {
            if e.d["source"] != cur {
              v.push(format!("observer {}: step {}/{} announced as {}, the hooks produced {}", o, j.key, i, e.d["source"], cur));
            }
          }
        }
        let cmd = &runs[0].d["command"];
        for f in ["id", "name", "container", "run", "environments", "secrets", "timeout", "continue_on_error"] {
          if cmd[f] != cur[f] {
            v.push(format!("runner received {} of {}/{} as {}, the hooks produced {}", f, j.key, i, cmd[f], cur[f]));
          }
        }
      }
    }
    v
  }

  // ---------------------------------------------------------------- C10
  fn step_timeout(&self, job: &str, i: usize) -> Option<u64> {
    let e = self.enters(self.last(), K::RunStep, Some(job), Some(i));
    let t = &e.first()?.d["source"]["timeout"];
    Some(t["secs"].as_u64()? * 1000 + t["nanos"].as_u64()? / 1_000_000)
  }
  /// end of the in-progress announcement
  fn running_at(&self, job: &str, i: usize) -> Option<&'a Ev> {
    let e = self.state(self.last(), Some(job), Some(i), "in_progress")?;
    self.exit_of(e)
  }

  pub fn c10(&self) -> (Vec<String>, u64, u64) {
    let mut v = self.ended();
    let (mut fired, mut quiet) = (0, 0);
    if !self.virt || self.hooks.delay > 0 {
      return (v, 0, 0);
    }
    for j in &self.spec.jobs {
      if self.crashed(&j.key) {
        continue;
      }
      for i in 0..j.steps.len() {
        let (Some(t), Some(run)) = (self.step_timeout(&j.key, i), self.running_at(&j.key, i)) else { continue };
        let deadline = run.t + t;
        let end = self.end_ev(&j.key, i).map(|e| e.t).unwrap_or(u64::MAX);
        let sigs: Vec<&&Ev> = self
          .of(Some(&j.key))
          .iter()
          .filter(|e| e.k == K::Signal && e.job.as_deref() == Some(&j.key) && e.step == Some(i))
          .collect();
        let handles = self.signals.get(&(self.spec.id.clone(), j.key.clone(), i)).cloned().unwrap_or_default();
        let is_t = handles.iter().any(|s| s.is_timeout());
        let is_c = handles.iter().any(|s| s.is_cancelled());
        for s in &sigs {
          if s.s == "timeout" {
            fired += 1;
            if s.t + 2 < deadline || s.t > deadline + 3 {
              v.push(format!("step {}/{} got its timeout signal at {} ms, its deadline was {} ms (timeout {} ms)", j.key, i, s.t, deadline, t));
            }
          }
        }
        let cancelled_at = self.ok_cancel(&j.key).map(|(_, r)| r.t);
        if end < deadline.saturating_sub(2) && is_t {
          v.push(format!("step {}/{} ended at {} ms, before its deadline {} ms, but was signalled a timeout", j.key, i, end, deadline));
        }
        if end > deadline + 3 && !is_t && !(is_c && cancelled_at.map(|c| c <= deadline + 2).unwrap_or(false)) {
          v.push(format!("step {}/{} ran until {} ms, past its deadline {} ms, without a timeout signal", j.key, i, end, deadline));
        }
        if end < deadline {
          quiet += 1;
        }
      }
    }
    (v, fired, quiet)
  }

  // ---------------------------------------------------------------- C11
  pub fn c11(&self) -> (Vec<String>, BTreeMap<&'static str, u64>) {
    let mut v = self.ended();
    let mut n: BTreeMap<&'static str, u64> = BTreeMap::new();
    let f = self.first();
    let mut targets: Vec<String> = self.evs.iter().filter(|e| e.k == K::Cancel).filter_map(|e| e.job.clone()).collect();
    targets.sort();
    targets.dedup();
    for k in &targets {
      if self.crashed(k) {
        continue;
      }
      let calls: Vec<&&Ev> = self.evs.iter().filter(|e| e.k == K::Cancel && e.job.as_deref() == Some(k)).collect();
      // the answer to each call
      let rets: Vec<&&Ev> = calls
        .iter()
        .filter_map(|c| self.evs.iter().find(|e| e.k == K::CancelRet && e.d == c.d && e.job.as_deref() == Some(k)))
        .collect();
      if calls.len() != rets.len() {
        continue;
      }
      let announced = self.enters(f, K::RunJob, Some(k), None).first().map(|e| e.seq);
      let over = self.enters(f, K::JobDone, Some(k), None).first().map(|e| e.seq);
      let closing = self.terminal(f, Some(k), None).map(|e| e.seq);
      let earliest = self
        .spec
        .job(k)
        .map(|j| {
          j.deps
            .iter()
            .filter_map(|d| self.terminal(f, Some(d), None).map(|e| e.seq))
            .chain(self.state(f, None, None, "in_progress").map(|e| e.seq))
            .max()
            .unwrap_or(0)
        })
        .unwrap_or(u64::MAX);
      let oks = rets.iter().filter(|e| e.s == "ok").count();
      if oks > 1 {
        v.push(format!("{} cancellations of job {} were accepted", oks, k));
      }
      for (c, r) in calls.iter().zip(rets.iter()) {
        let ok = r.s == "ok";
        if announced.is_none() && ok {
          v.push(format!("cancellation of job {}, which never ran, was accepted", k));
        }
        if let Some(a) = announced {
          let too_early = if self.virt { r.seq < a } else { r.seq < earliest };
          if too_early {
            *n.entry("before").or_insert(0) += 1;
            if ok {
              v.push(format!("cancellation of job {} was accepted before the job was run", k));
            }
          }
        }
        if over.map(|o| c.seq > o).unwrap_or(false) {
          *n.entry("after").or_insert(0) += 1;
          if ok {
            v.push(format!("cancellation of job {} was accepted after the job completed", k));
          }
        }
      }
      // a call entirely within the window must be answered by exactly one acceptance overall
      let inside = calls
        .iter()
        .zip(rets.iter())
        .any(|(c, r)| announced.map(|a| c.seq > a).unwrap_or(false) && closing.map(|x| r.seq < x).unwrap_or(announced.is_some()));
      if inside && oks == 0 {
        v.push(format!("job {} was running but its cancellation was refused: {:?}", k, rets.iter().map(|r| r.s.clone()).collect::<Vec<_>>()));
      }
      if oks == 0 {
        continue;
      }
      *n.entry("accepted").or_insert(0) += 1;
      let Some((call, ret)) = self.ok_cancel(k) else { continue };
      let Some(j) = self.spec.job(k) else { continue };
      let (mut failed, mut cancelled, mut prevented) = (false, false, false);
      for (i, s) in j.steps.iter().enumerate() {
        let first = self
          .of(Some(k))
          .iter()
          .find(|e| e.job.as_deref() == Some(k) && e.step == Some(i) && Self::is_hook(e.k))
          .map(|e| e.seq);
        let run = self.run_ev(k, i);
        if run.is_empty() {
          if !cancelled && !(failed && !s.coe) && self.executed(k) && !self.is_left_out(Some(k), Some(i)) {
            prevented = true;
          }
          continue;
        }
        // last hook event of this job before this step began
        let prev = self
          .of(Some(k))
          .iter()
          .filter(|e| e.job.as_deref() == Some(k) && Self::is_hook(e.k) && Some(e.seq) < first)
          .map(|e| e.seq)
          .max()
          .unwrap_or(0);
        if ret.seq < prev {
          v.push(format!("step {}/{} was started after the job's cancellation had been accepted", k, i));
        }
        // delivery
        let handles = self.signals.get(&(self.spec.id.clone(), k.clone(), i)).cloned().unwrap_or_default();
        let is_c = handles.iter().any(|s| s.is_cancelled());
        let is_t = handles.iter().any(|s| s.is_timeout());
        let end = self.end_ev(k, i);
        if let (Some(end), Some(running)) = (end, self.running_at(k, i)) {
          let ready = ret.t.max(running.t);
          if self.virt && self.hooks.delay == 0 {
            if end.seq > ret.seq && end.t > ready + 2 {
              *n.entry("running").or_insert(0) += 1;
              if !is_c && !is_t {
                v.push(format!("step {}/{} was running when the job was cancelled but was never signalled", k, i));
              }
            }
            for e in self.evs.iter().filter(|e| e.k == K::Signal && e.s == "cancel" && e.job.as_deref() == Some(k) && e.step == Some(i)) {
              if e.t > ready + 2 {
                v.push(format!("step {}/{} received the cancel signal at {} ms, the cancellation was accepted at {} ms", k, i, e.t, ret.t));
              }
            }
          }
          let over = self.enters(f, K::StepDone, Some(k), Some(i)).first().map(|e| e.seq);
          if is_c && end.seq < call.seq && over.map(|o| o < call.seq).unwrap_or(false) {
            v.push(format!("step {}/{} had ended before the cancellation but carries a cancel signal", k, i));
          }
        }
        match self.reported(k, i) {
          Some(Expect::Failed(_)) => failed = true,
          Some(Expect::Cancelled) => cancelled = true,
          _ => {}
        }
      }
      if prevented {
        *n.entry("prevented").or_insert(0) += 1;
        if let Some(r) = self.job_result(k) {
          if r.state != WorkflowState::Cancelled {
            v.push(format!("cancellation prevented a step of job {} but the job is reported {:?}", k, r.state));
          }
        }
      }
    }
    // nobody else is signalled
    for ((_, job, step), hs) in &self.signals {
      let accepted = self.ok_cancel(job).is_some();
      if !accepted && hs.iter().any(|h| h.is_cancelled()) {
        v.push(format!("step {}/{} carries a cancel signal although its job was never cancelled", job, step));
      }
    }
    for e in &self.evs {
      if e.k == K::Signal && e.s == "cancel" && self.ok_cancel(e.job.as_deref().unwrap()).is_none() {
        v.push(format!("step {:?}/{:?} received a cancel signal although its job was never cancelled", e.job, e.step));
      }
    }
    (v, n)
  }

  // ---------------------------------------------------------------- C18
  pub fn c18(&self, event: &Value, payload: &Value) -> Vec<String> {
    let mut v = self.ended();
    for e in self.evs.iter().filter(|e| e.k == K::Stamp && e.s == "payload") {
      v.push(format!("the context of the run holds another payload than it was given: {}", e.d));
    }
    for e in &self.evs {
      if !e.exit && matches!(e.k, K::RunWorkflow | K::RunJob | K::RunStep) {
        if &e.d["event"] != event {
          v.push(format!("{:?} hook of observer {} received event {}, expected {}", e.k, e.obs, e.d["event"], event));
        }
        if &e.d["payload"] != payload {
          v.push(format!("{:?} hook of observer {} received payload {}, expected {}", e.k, e.obs, e.d["payload"], payload));
        }
      }
      if e.k == K::Run && !e.exit {
        if &e.d["event"] != event {
          v.push(format!("the runner received event {}, expected {}", e.d["event"], event));
        }
        let got = match e.d["payload"].as_str() {
          Some(s) => serde_json::from_str(s).unwrap_or(json!("unparsable")),
          None => Value::Null,
        };
        if &got != payload {
          v.push(format!("the runner received payload {}, expected {}", got, payload));
        }
      }
    }
    v.truncate(5);
    v
  }
}

type Line = (String, String);

fn by_producer(xs: &[Line]) -> BTreeMap<String, Vec<Line>> {
  let mut m: BTreeMap<String, Vec<Line>> = BTreeMap::new();
  for x in xs {
    let p = if x.1.starts_with('@') { x.1.split(':').next().unwrap().to_string() } else { String::new() };
    m.entry(p).or_default().push(x.clone());
  }
  m
}

/// Of every producer the first lines, in its order.
pub fn first_lines(sent: &[Line], got: &[Line]) -> bool {
  let (a, b) = (by_producer(sent), by_producer(got));
  b.iter().all(|(p, lines)| a.get(p).is_some_and(|all| all.starts_with(lines)))
}

/// Single producer: sequences equal. Several ("@p:i" lines): same multiset, per-producer order.
pub fn compare_lines(sent: &[(String, String)], got: &[(String, String)]) -> Option<String> {
  let multi = sent.iter().any(|x| x.1.starts_with('@'));
  if !multi {
    if sent != got {
      let at = sent.iter().zip(got).position(|(a, b)| a != b).unwrap_or(sent.len().min(got.len()));
      return Some(format!(
        "sent {} lines, {} delivered, first difference at line {}: {:?} vs {:?}",
        sent.len(),
        got.len(),
        at,
        sent.get(at),
        got.get(at)
      ));
    }
    return None;
  }
  let (a, b) = (by_producer(sent), by_producer(got));
  let mut keys: Vec<_> = a.keys().chain(b.keys()).collect();
  keys.sort();
  keys.dedup();
  for k in keys {
    if a.get(k) != b.get(k) {
      return Some(format!("producer {:?}: sent {:?}.., delivered {:?}..", k, a.get(k).map(|x| x.len()), b.get(k).map(|x| x.len())));
    }
  }
  None
}
