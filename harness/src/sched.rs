//! The default scheduler against a model of placements, sequentially and under concurrency.
use crate::frame::Case;
use crate::rng::{hash_str, mix, Rng};
use astro_run::{Command, ContainerOptions, Context, JobId, JobRunResult, StepId, StepRunResult, WorkflowState};
use astro_run_scheduler::{DefaultScheduler, RunnerMetadata, Scheduler};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

pub fn ready<T>(f: impl std::future::Future<Output = T>) -> T {
  let mut f = Box::pin(f);
  let w = std::task::Waker::noop();
  let mut cx = std::task::Context::from_waker(w);
  loop {
    if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
      return v;
    }
    std::thread::yield_now();
  }
}

pub fn context(id: &StepId, container: &Option<String>) -> Context {
  Context {
    id: id.clone(),
    signal: astro_run::AstroRunSignal::new(),
    command: Command {
      id: id.clone(),
      container: container.clone().map(|name| ContainerOptions { name, volumes: None, security_opts: None }),
      run: "x".into(),
      ..Default::default()
    },
    event: None,
    payload: None,
  }
}

/// Everything else a step is announced with.
fn full_context(r: &mut Rng, id: &StepId, container: &Option<String>) -> Context {
  let mut c = context(id, container);
  if r.chance(1, 2) {
    c.command.run = r.text(4);
    c.command.name = r.chance(1, 2).then(|| r.text(2));
    c.command.continue_on_error = r.chance(1, 2);
    c.command.timeout = std::time::Duration::from_secs(r.below(4000));
    if let Some(o) = &mut c.command.container {
      o.volumes = r.chance(1, 2).then(|| vec!["/a:/b".to_string()]);
      o.security_opts = r.chance(1, 2).then(|| vec!["seccomp=unconfined".to_string()]);
    }
    if r.chance(1, 3) {
      c.signal.cancel().ok();
    }
    c.payload = r.chance(1, 3).then(|| r.text(3));
  }
  c
}

/// A step may end in any way.
/// Whether a scheduler all of whose steps and jobs have completed treats its runners alike and has forgotten `jobs`
/// (each with the runner it was bound to). Judged by its placements; leaves it as it was.
pub fn left_over(sched: &DefaultScheduler, runners: &[String], jobs: &[(JobId, String)]) -> Option<String> {
  let metas: Vec<RunnerMetadata> = runners.iter().map(|id| RunnerMetadata { id: id.clone(), support_docker: true, ..Default::default() }).collect();
  if metas.len() < 2 {
    return None;
  }
  let pick = |offered: &[RunnerMetadata], id: &StepId| ready(sched.schedule(offered, &context(id, &None))).map(|r| r.id.clone());
  let done = |id: &StepId| {
    sched.on_step_completed(StepRunResult { id: id.clone(), state: WorkflowState::Succeeded, exit_code: None, started_at: None, completed_at: None });
    sched.on_job_completed(JobRunResult { id: id.job_id(), state: WorkflowState::Succeeded, started_at: None, completed_at: None, steps: vec![] });
  };
  let probes: Vec<StepId> = (0..metas.len()).map(|i| StepId::new("left-over", format!("p{}", i), 0)).collect();
  let got: Vec<Option<String>> = probes.iter().map(|p| pick(&metas, p)).collect();
  probes.iter().for_each(done);
  if got.iter().collect::<std::collections::HashSet<_>>().len() != metas.len() {
    return Some(format!("everything has completed, but new jobs for {:?} are placed on {:?}", runners, got));
  }
  for (job, on) in jobs {
    let Some(m) = metas.iter().find(|m| m.id == *on) else { continue };
    pick(std::slice::from_ref(m), &probes[0]);
    let step = StepId::new(job.workflow_id().inner(), job.job_key(), 0);
    let got = pick(&metas, &step);
    done(&step);
    done(&probes[0]);
    if got.as_ref() == Some(on) {
      return Some(format!("{} has completed, but its next step is placed on {} again, the runner with the highest load", job, on));
    }
  }
  None
}

fn step_done(id: &StepId, r: &mut Rng) -> StepRunResult {
  let state = r.pick(&[WorkflowState::Succeeded, WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Failed, WorkflowState::Cancelled, WorkflowState::Skipped]).clone();
  let exit_code = (state == WorkflowState::Failed).then(|| *r.pick(&[1, 1, 2, 123, 137, 255, -1, 0, i32::MAX]));
  let ran = state != WorkflowState::Skipped && r.chance(2, 3);
  let at = ran.then(chrono::Utc::now);
  StepRunResult { id: id.clone(), state, exit_code, started_at: at, completed_at: at }
}

fn job_done(id: &JobId, r: &mut Rng) -> JobRunResult {
  let steps: Vec<StepRunResult> = (0..r.us(4)).map(|i| step_done(&StepId::new(id.workflow_id().inner(), id.job_key(), i), r)).collect();
  let state = r.pick(&[WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Cancelled, WorkflowState::Skipped]).clone();
  JobRunResult { id: id.clone(), state, started_at: None, completed_at: r.chance(1, 2).then(chrono::Utc::now), steps }
}

pub fn host_match(r: &RunnerMetadata, c: &str) -> bool {
  r.support_host && (c == format!("host/{}", r.os) || c == format!("host/{}-{}", r.os, r.arch))
}

fn is_host(c: &Option<String>) -> bool {
  c.as_ref().is_some_and(|c| c.starts_with("host/"))
}

fn gen_runners(r: &mut Rng, n: usize, all_docker: bool) -> Vec<RunnerMetadata> {
  let mut alike = vec!["r", "R", "r1", "1r", "r-1", "r ", "", "R1", "r1 ", "r_1", "runner-with-a-rather-long-name-of-which-there-are-two-1", "runner-with-a-rather-long-name-of-which-there-are-two-2"];
  r.shuffle(&mut alike);
  let plain = r.chance(2, 3);
  (0..n)
    .map(|i| RunnerMetadata {
      id: match alike.get(i) {
        Some(a) if !plain => a.to_string(),
        _ if r.chance(1, 6) => format!("{}{}", r.text(2), i),
        _ => format!("r{}", i + 10),
      },
      os: r.pick(&["linux", "linux", "linux", "macos", "windows", "linux-musl", "Linux", "lin"]).to_string(),
      arch: r.pick(&["x86_64", "x86_64", "aarch64", "x86", "64", "arm"]).to_string(),
      support_docker: all_docker || r.chance(2, 3),
      support_host: r.chance(1, 2),
      version: "0".into(),
      max_runs: r.below(3) as i32,
    })
    .collect()
}

fn gen_container(r: &mut Rng, host: u64) -> Option<String> {
  if r.below(100) < host {
    if r.chance(1, 3) {
      // nearly the name of a platform
      let os = *r.pick(&["linux", "linux", "macos", "windows", "linux-musl", "Linux", "lin", "linu", "linux ", ""]);
      let arch = *r.pick(&["x86_64", "x86_64", "aarch64", "x86", "64", "arm", "arm64", "X86_64", "x86-64", "x86_64-musl", ""]);
      let sep = *r.pick(&["-", "-", "-", "--", "_", "/", "", " - "]);
      return Some(format!("host/{}{}{}", os, sep, arch));
    }
    Some(
      r.pick(&[
        "host/linux", "host/macos", "host/windows", "host/linux-x86_64", "host/linux-aarch64", "host/macos-aarch64", "host/macos-x86_64", "host/", "host/linux-",
        "host/x86_64", "host/freebsd",
      ])
      .to_string(),
    )
  } else {
    r.pick(&[None, Some("alpine"), Some("host"), Some("linux"), Some("HOST/linux"), Some("")]).map(|s| s.to_string())
  }
}

#[derive(Default)]
struct Model {
  placed: HashMap<StepId, String>,
  load: BTreeMap<String, i64>,
  bound: HashMap<JobId, String>,
}

impl Model {
  /// Violations of a placement, tagged with the property they belong to; then take it over.
  fn schedule(&mut self, step: &StepId, c: &Option<String>, offered: &[RunnerMetadata], got: &Option<String>) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    let job = step.job_id();
    let host = is_host(c);
    let bound = self.bound.get(&job).filter(|b| offered.iter().any(|o| o.id == **b)).cloned();
    let load = |id: &str| self.load.get(id).copied().unwrap_or(0);
    match got {
      Some(id) => match offered.iter().find(|o| o.id == *id) {
        None => v.push(("S01", format!("{} was returned but not offered", id))),
        Some(o) => {
          if host {
            if !host_match(o, c.as_ref().unwrap()) {
              v.push(("S01", format!("{} was placed on {:?}", c.as_ref().unwrap(), o)));
            }
          } else if let Some(b) = &bound {
            if b != id {
              v.push(("S02", format!("container step {} was placed on {} although its job is bound to {}", step.to_string(), id, b)));
            }
          } else {
            if !o.support_docker {
              v.push(("S01", format!("container step was placed on {:?}", o)));
            }
            if !self.bound.contains_key(&job) {
              let min = offered.iter().filter(|o| o.support_docker).map(|o| load(&o.id)).min().unwrap_or(0);
              if load(id) != min {
                v.push(("S03", format!("first container step of a job was placed on {} with load {} although {} is possible ({:?})", id, load(id), min, self.load)));
              }
            }
          }
        }
      },
      None => {
        if host && offered.iter().any(|o| host_match(o, c.as_ref().unwrap())) {
          v.push(("S01", format!("{} was not placed although {:?} was offered", c.as_ref().unwrap(), offered)));
        }
        if !host && bound.is_some() {
          v.push(("S02", format!("container step was not placed although its runner {:?} was offered", bound)));
        } else if !host && offered.iter().any(|o| o.support_docker) {
          v.push(("S01", format!("a container step was not placed although {:?} was offered", offered)));
        }
      }
    }
    if let Some(id) = got {
      self.placed.insert(step.clone(), id.clone());
      *self.load.entry(id.clone()).or_insert(0) += 1;
      if !host {
        self.bound.insert(job, id.clone());
      }
    }
    v
  }
  fn step_completed(&mut self, s: &StepId) {
    if let Some(r) = self.placed.remove(s) {
      *self.load.get_mut(&r).unwrap() -= 1;
    }
  }
}

fn sequential(case: &mut Case, r: &mut Rng, id: &str) {
  let sched = DefaultScheduler::new();
  let mut m = Model::default();
  let n = if r.chance(1, 30) { r.range(7, 70) } else { r.range(1, 6) } as usize;
  let runners = {
    let docker = id == "S03" && r.chance(1, 2);
    gen_runners(r, n, docker)
  };
  let host = match id {
    "S01" => 50,
    "S02" => 30,
    _ => 20,
  };
  // names that are alike when case, length or the place of a boundary are not looked at
  let wfs = *r.pick(&[["w1", "w2"], ["w", "w1"], ["w", "W"], ["a-b", "a"], ["a-rather-long-workflow-id-of-which-there-are-two-1", "a-rather-long-workflow-id-of-which-there-are-two-2"]]);
  let alike = ["j", "1j", "J", "j1", "b-j", "1-j", "j-1", "j "];
  let plain = r.chance(1, 2);
  let key = |k: u64| if plain { format!("j{}", k) } else { alike.get(k as usize).map(|a| a.to_string()).unwrap_or(format!("j{}", k)) };
  let mut next: HashMap<JobId, usize> = HashMap::new();
  let mut open: Vec<StepId> = vec![];
  let mut log = vec![];
  let mut sig = 0u64;
  let all_offered = r.chance(1, 3);
  let long = r.chance(1, 40);
  let ops = if long { r.range(300, 1500) } else { r.range(5, 80) };
  let jobs = if long { r.range(1, 300) } else { r.range(1, 8) };
  let mut bad = vec![];
  for _ in 0..ops {
    match r.below(20) {
      0..=11 => {
        let job = JobId::new(*r.pick(&wfs), key(r.below(jobs)));
        let k = next.entry(job.clone()).or_insert(0);
        let step = StepId::new(job.workflow_id().inner(), job.job_key(), *k);
        *k += 1;
        let c = gen_container(r, host);
        let mut offered: Vec<RunnerMetadata> = runners.iter().filter(|_| all_offered || r.chance(4, 5)).cloned().collect();
        r.shuffle(&mut offered);
        let ctx = full_context(r, &step, &c);
        if r.chance(1, 3) {
          let s: astro_run::Step = ctx.command.clone().into();
          sched.on_run_step(s);
        }
        let got = ready(sched.schedule(&offered, &ctx)).map(|x| x.id.clone());
        log.push(format!("schedule {} {:?} of {:?} -> {:?}", step.to_string(), c, offered.iter().map(|o| &o.id).collect::<Vec<_>>(), got));
        case.count("placements", got.is_some() as u64);
        case.count("not_placed", got.is_none() as u64);
        let job_bound = m.bound.contains_key(&job);
        if !is_host(&c) && job_bound {
          case.count("bound_container_steps", 1);
        }
        if !is_host(&c) && !job_bound && got.is_some() {
          case.count("first_container_steps", 1);
        }
        if is_host(&c) {
          case.count("host_steps", 1);
        }
        sig = mix(sig ^ hash_str(1, log.last().unwrap()));
        for (p, e) in m.schedule(&step, &c, &offered, &got) {
          if p == id {
            bad.push(e);
          }
        }
        open.push(step);
      }
      12..=16 => {
        if !open.is_empty() {
          let i = r.us(open.len());
          let s = if r.chance(9, 10) { open.swap_remove(i) } else { open[i].clone() };
          log.push(format!("step {} completed", s.to_string()));
          sched.on_step_completed(step_done(&s, r));
          m.step_completed(&s);
          case.count("completions", 1);
        }
      }
      17 => {
        let s = StepId::new(*r.pick(&wfs), "never", r.us(3));
        log.push(format!("step {} completed (never placed)", s.to_string()));
        sched.on_step_completed(step_done(&s, r));
        m.step_completed(&s);
        case.count("completions_of_unplaced_steps", 1);
      }
      _ => {
        let job = JobId::new(*r.pick(&wfs), key(r.below(jobs)));
        log.push(format!("job {:?} completed", job));
        sched.on_job_completed(job_done(&job, r));
        m.bound.remove(&job);
        case.count("jobs_completed", 1);
      }
    }
    if !bad.is_empty() {
      break;
    }
  }
  // everything completes; then the loads must again be equal: probe with fresh jobs
  if bad.is_empty() && id == "S03" {
    for s in open {
      sched.on_step_completed(step_done(&s, r));
      m.step_completed(&s);
    }
    assert!(m.load.values().all(|l| *l == 0));
    for i in 0..2 * n {
      let mut offered = runners.clone();
      r.shuffle(&mut offered);
      let step = StepId::new("probe", format!("p{}", i), 0);
      let got = ready(sched.schedule(&offered, &context(&step, &None))).map(|x| x.id.clone());
      log.push(format!("probe {} -> {:?}", i, got));
      for (p, e) in m.schedule(&step, &None, &offered, &got) {
        if p == id {
          bad.push(e);
        }
      }
      case.count("probes", 1);
    }
  }
  case.nontrivial(sig);
  case.sample(|| json!({"history": log.iter().take(30).collect::<Vec<_>>()}));
  if !bad.is_empty() {
    case.fail(bad[0].clone(), json!({"history": log, "runners": format!("{:?}", runners), "errors": bad}));
  }
}

#[derive(Clone, Debug)]
enum Op {
  Schedule(StepId, Option<String>),
  StepDone(StepId),
}

#[derive(Clone, Debug)]
struct Done {
  op: Op,
  inv: u64,
  ret: u64,
  got: Option<String>,
}

/// Is there an order of the operations, consistent with their times, in which every placement is allowed?
fn linearizable(ops: &[Done], runners: &[RunnerMetadata], base: &BTreeMap<String, i64>) -> bool {
  fn go(ops: &[Done], done: u64, load: &mut BTreeMap<String, i64>, runners: &[RunnerMetadata], seen: &mut HashSet<u64>) -> bool {
    if done.count_ones() as usize == ops.len() {
      return true;
    }
    if !seen.insert(done) {
      return false; // the loads follow from the set of operations done
    }
    let first_ret = ops.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, o)| o.ret).min().unwrap();
    for (i, o) in ops.iter().enumerate() {
      if done >> i & 1 == 1 || o.inv > first_ret {
        continue;
      }
      match &o.op {
        Op::Schedule(_, _) => {
          let Some(g) = &o.got else { return false };
          let min = runners.iter().map(|x| load.get(&x.id).copied().unwrap_or(0)).min().unwrap();
          if load.get(g).copied().unwrap_or(0) != min {
            continue;
          }
          *load.entry(g.clone()).or_insert(0) += 1;
          if go(ops, done | 1 << i, load, runners, seen) {
            return true;
          }
          *load.get_mut(g).unwrap() -= 1;
        }
        Op::StepDone(s) => {
          // the runner of a step completed here is known from its own placement
          let g = ops.iter().enumerate().find_map(|(k, x)| match &x.op {
            Op::Schedule(t, _) if t == s => Some((k, x.got.clone())),
            _ => None,
          });
          if let Some((k, Some(g))) = g {
            if done >> k & 1 == 0 {
              continue;
            }
            *load.get_mut(&g).unwrap() -= 1;
            if go(ops, done | 1 << i, load, runners, seen) {
              return true;
            }
            *load.get_mut(&g).unwrap() += 1;
          }
        }
      }
    }
    false
  }
  go(ops, 0, &mut base.clone(), runners, &mut HashSet::new())
}

fn concurrent(case: &mut Case, r: &mut Rng) {
  let sched = Arc::new(DefaultScheduler::new());
  let n = r.range(2, 5) as usize;
  let runners = Arc::new(gen_runners(r, n, true));
  let threads = r.range(2, 4) as usize;
  let per = if r.chance(1, 3) { r.range(8, 40) } else { r.range(1, 4) };
  let with_done = r.chance(2, 3);
  let barrier = Arc::new(Barrier::new(threads));
  let tick = Arc::new(AtomicU64::new(0));
  let round = r.next();
  let mut hs = vec![];
  for t in 0..threads {
    let (sched, runners, barrier, tick) = (sched.clone(), runners.clone(), barrier.clone(), tick.clone());
    let mut r = r.fork();
    hs.push(std::thread::spawn(move || {
      let mut out: Vec<Done> = vec![];
      let mut open: Vec<StepId> = vec![];
      barrier.wait();
      for k in 0..per {
        if with_done && !open.is_empty() && r.chance(1, 3) {
          let s = open.swap_remove(r.us(open.len()));
          let inv = tick.fetch_add(1, SeqCst);
          sched.on_step_completed(step_done(&s, &mut r));
          let ret = tick.fetch_add(1, SeqCst);
          out.push(Done { op: Op::StepDone(s), inv, ret, got: None });
          continue;
        }
        let step = StepId::new("w", format!("t{}-{}", t, k), 0);
        let mut offered = (*runners).clone();
        r.shuffle(&mut offered);
        let ctx = context(&step, &None);
        let inv = tick.fetch_add(1, SeqCst);
        let got = ready(sched.schedule(&offered, &ctx)).map(|x| x.id.clone());
        let ret = tick.fetch_add(1, SeqCst);
        open.push(step.clone());
        out.push(Done { op: Op::Schedule(step, None), inv, ret, got });
      }
      out
    }));
  }
  let mut ops: Vec<Done> = hs.into_iter().flat_map(|h| h.join().expect("thread")).collect();
  ops.sort_by_key(|o| o.inv);
  let overlaps = ops.windows(2).filter(|w| w[1].inv < w[0].ret).count();
  case.count("concurrent_histories", 1);
  case.count("overlapping_operations", overlaps as u64);
  let mut sig = mix(round);
  for o in &ops {
    sig = mix(sig ^ o.inv ^ (o.ret << 20));
  }
  case.nontrivial(sig);
  let mut errs = vec![];
  if ops.iter().any(|o| matches!(o.op, Op::Schedule(..)) && o.got.is_none()) {
    errs.push("a placement failed although every runner qualifies".to_string());
  } else if ops.len() <= 14 {
    case.count("linearizability_checks", 1);
    if !linearizable(&ops, &runners, &BTreeMap::new()) {
      errs.push("the concurrent placements are not explained by any order: a step was placed on a runner that was not least loaded".to_string());
    }
  } else if !with_done {
    case.count("balance_checks", 1);
    let mut load: BTreeMap<&String, u64> = runners.iter().map(|r| (&r.id, 0)).collect();
    for o in &ops {
      *load.get_mut(o.got.as_ref().unwrap()).unwrap() += 1;
    }
    if load.values().max().unwrap() - load.values().min().unwrap() > 1 {
      errs.push(format!("{} concurrent placements left the loads {:?}", ops.len(), load));
    }
  }
  // complete what is left, then all loads must be equal again
  if errs.is_empty() {
    let done: HashSet<StepId> = ops.iter().filter_map(|o| if let Op::StepDone(s) = &o.op { Some(s.clone()) } else { None }).collect();
    for o in &ops {
      if let Op::Schedule(s, _) = &o.op {
        if !done.contains(s) {
          sched.on_step_completed(step_done(s, r));
        }
      }
    }
    let mut m = Model::default();
    for i in 0..2 * n {
      let mut offered = (*runners).clone();
      r.shuffle(&mut offered);
      let step = StepId::new("probe", format!("p{}", i), 0);
      let got = ready(sched.schedule(&offered, &context(&step, &None))).map(|x| x.id.clone());
      for (p, e) in m.schedule(&step, &None, &offered, &got) {
        if p == "S03" {
          errs.push(format!("after all steps completed: {}", e));
        }
      }
      case.count("probes", 1);
    }
  }
  if !errs.is_empty() {
    case.fail(errs[0].clone(), json!({"errors": errs, "history": ops.iter().map(|o| format!("[{},{}] {:?} -> {:?}", o.inv, o.ret, o.op, o.got)).collect::<Vec<_>>()}));
  }
}

/// Jobs of several threads: every placement fits, and a job stays where it is until it completes.
fn concurrent_jobs(case: &mut Case, r: &mut Rng, id: &str) {
  let sched = Arc::new(DefaultScheduler::new());
  let n = r.range(2, 6) as usize;
  let runners = Arc::new(gen_runners(r, n, false));
  let threads = r.range(2, 5) as usize;
  let per = r.range(5, 40);
  let barrier = Arc::new(Barrier::new(threads));
  let mut hs = vec![];
  let docker = runners.iter().any(|x| x.support_docker);
  for t in 0..threads {
    let (sched, runners, barrier) = (sched.clone(), runners.clone(), barrier.clone());
    let mut r = r.fork();
    hs.push(std::thread::spawn(move || {
      let r = &mut r;
      let mut bound: HashMap<JobId, String> = HashMap::new();
      let mut next: HashMap<JobId, usize> = HashMap::new();
      let mut open: Vec<StepId> = vec![];
      let (mut log, mut bad) = (vec![], vec![]);
      barrier.wait();
      for _ in 0..per {
        let job = JobId::new(format!("w{}", t % 2), format!("t{}-{}", t, r.below(3)));
        match r.below(10) {
          0 => {
            sched.on_job_completed(job_done(&job, r));
            bound.remove(&job);
            log.push(format!("{:?} completed", job));
          }
          1..=3 if !open.is_empty() => {
            let s = open.swap_remove(r.us(open.len()));
            sched.on_step_completed(step_done(&s, r));
          }
          _ => {
            let k = next.entry(job.clone()).or_insert(0);
            let step = StepId::new(job.workflow_id().inner(), job.job_key(), *k);
            *k += 1;
            let c = gen_container(r, 40);
            let mut offered = (*runners).clone();
            r.shuffle(&mut offered);
            let got = ready(sched.schedule(&offered, &full_context(r, &step, &c))).cloned();
            log.push(format!("{} {:?} -> {:?}", step.to_string(), c, got.as_ref().map(|g| &g.id)));
            let fits = |o: &RunnerMetadata| if is_host(&c) { host_match(o, c.as_ref().unwrap()) } else { o.support_docker };
            match &got {
              Some(g) if !fits(g) => bad.push(("S01", format!("{} with {:?} was placed on {:?}", step.to_string(), c, g))),
              None if runners.iter().any(fits) => bad.push(("S01", format!("{} with {:?} was not placed", step.to_string(), c))),
              _ => {}
            }
            if !is_host(&c) {
              match (bound.get(&job), &got) {
                (Some(b), Some(g)) if *b != g.id => bad.push(("S02", format!("{} was placed on {} although its job is bound to {}", step.to_string(), g.id, b))),
                (Some(b), None) => bad.push(("S02", format!("{} was not placed although its job is bound to {}", step.to_string(), b))),
                _ => {}
              }
              if let Some(g) = &got {
                bound.insert(job, g.id.clone());
              }
            }
            if got.is_some() {
              open.push(step);
            }
          }
        }
      }
      (log, bad)
    }));
  }
  case.count("concurrent_histories", 1);
  let mut sig = 7u64;
  for h in hs {
    let (log, bad) = h.join().expect("thread");
    case.count("concurrent_placements", log.len() as u64);
    for l in &log {
      sig = mix(sig ^ hash_str(1, l));
    }
    if let Some((_, e)) = bad.iter().find(|b| b.0 == id) {
      case.fail(format!("concurrently: {}", e), json!({"errors": bad, "history of the thread": log, "runners": format!("{:?}", runners), "docker": docker}));
    }
  }
  case.nontrivial(sig);
}

fn both(case: &mut Case, id: &str) {
  for _ in 0..20 {
    let mut r = case.rng.fork();
    sequential(case, &mut r, id);
    case.evals(1);
  }
  for _ in 0..2 {
    let mut r = case.rng.fork();
    concurrent_jobs(case, &mut r, id);
    case.evals(1);
  }
}

pub fn s01(case: &mut Case) {
  both(case, "S01");
}

pub fn s02(case: &mut Case) {
  both(case, "S02");
}

pub fn s03(case: &mut Case) {
  for _ in 0..10 {
    let mut r = case.rng.fork();
    sequential(case, &mut r, "S03");
    for _ in 0..6 {
      let mut r = case.rng.fork();
      concurrent(case, &mut r);
    }
    case.evals(7);
  }
}
