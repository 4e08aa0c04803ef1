//! Timeouts in real time: what virtual time cannot show are uses of the wall clock.
use crate::frame::*;
use crate::rng::{hash_str, Rng};
use astro_run::*;
use parking_lot::Mutex;
use serde_json::json;
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum What {
  /// end after so many ms, long before the timeout
  Sleep(u64),
  /// wait for the signal
  Wait,
  /// wait for the signal, then go on for so many ms
  Ignore(u64),
}

#[derive(Clone, Debug)]
struct Plan {
  what: What,
  timeout: Option<u64>,
}

#[derive(Default)]
struct Seen {
  /// in-progress announced, per (job, step)
  started: HashMap<(String, usize), Instant>,
  /// signal, when, and when a sleep of the same length that the runner began was over
  signals: HashMap<(String, usize), (Signal, Instant, Instant)>,
  /// ended without a signal; was the signal there?
  ended: HashMap<(String, usize), (Instant, bool)>,
}

struct Waiting {
  plans: Arc<HashMap<(String, usize), Plan>>,
  seen: Arc<Mutex<Seen>>,
}

#[async_trait]
impl Runner for Waiting {
  async fn run(&self, ctx: Context) -> RunResponse {
    let (tx, rx) = stream();
    let key = (ctx.command.id.job_key(), ctx.command.id.step_number());
    let plan = self.plans[&key].clone();
    let seen = self.seen.clone();
    tokio::spawn(async move {
      let begun = tokio::time::Instant::now();
      match plan.what {
        What::Sleep(ms) => {
          tokio::time::sleep(Duration::from_millis(ms)).await;
          let told = ctx.signal.is_timeout();
          seen.lock().ended.insert(key, (Instant::now(), told));
          tx.succeeded();
        }
        What::Wait | What::Ignore(_) => {
          let limit = Duration::from_millis(plan.timeout.unwrap());
          let reference = tokio::spawn(async move {
            tokio::time::sleep_until(begun + limit).await;
            Instant::now()
          });
          let s = ctx.signal.recv().await;
          let at = Instant::now();
          if let What::Ignore(ms) = plan.what {
            tokio::time::sleep(Duration::from_millis(ms)).await;
          }
          let reference = reference.await.unwrap();
          seen.lock().signals.insert(key, (s, at, reference));
          tx.timeout();
        }
      }
    });
    Ok(rx)
  }
}

struct Watch(Arc<Mutex<Seen>>);

#[async_trait]
impl Plugin for Watch {
  fn name(&self) -> &'static str {
    "watch"
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    if let WorkflowStateEvent::StepStateUpdated { id, state: WorkflowState::InProgress } = e {
      self.0.lock().started.insert((id.job_key(), id.step_number()), Instant::now());
    }
    Ok(())
  }
}

struct Found {
  early: Vec<String>,
  /// may be the machine's fault
  late: Vec<String>,
  deadlines: u64,
  quiet: u64,
}

fn attempt(plans: &HashMap<(String, usize), Plan>, config: &str) -> Found {
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let seen = Arc::new(Mutex::new(Seen::default()));
  let mut stuck = false;
  let res = rt.block_on(async {
    let astro = AstroRun::builder().runner(Waiting { plans: Arc::new(plans.clone()), seen: seen.clone() }).plugin(Watch(seen.clone())).build();
    let wf = Workflow::builder().id("wf").config(config).build(&astro).await.expect("config");
    let ctx = astro.execution_context().build();
    let run = wf.run(ctx);
    tokio::pin!(run);
    let begun = Instant::now();
    loop {
      // waiting is what the scripts do
      tokio::select! {
        x = &mut run => break Some(x),
        _ = tokio::time::sleep(Duration::from_millis(500)) => progress(),
      }
      // (they take a few seconds at most)
      if begun.elapsed() > Duration::from_secs(30) {
        stuck = true;
        break None;
      }
    }
  });
  rt.shutdown_background();
  let _ = res;
  let seen = seen.lock();
  let mut f = Found { early: vec![], late: vec![], deadlines: 0, quiet: 0 };
  if stuck {
    let mut waiting: Vec<_> = seen.started.keys().filter(|k| !seen.signals.contains_key(k) && !seen.ended.contains_key(k)).collect();
    waiting.sort();
    f.late.push(format!("the workflow is not over after 30 s; steps that were given no signal at their timeout: {:?}", waiting));
    return f;
  }
  for (k, p) in plans {
    let Some(started) = seen.started.get(k) else {
      f.early.push(format!("step {:?} was never in progress", k));
      continue;
    };
    if let Some((s, at, reference)) = seen.signals.get(k) {
      f.deadlines += 1;
      let limit = Duration::from_millis(p.timeout.unwrap());
      if !matches!(s, Signal::Timeout) {
        f.early.push(format!("step {:?} got {:?}, it ran into its timeout", k, s));
      }
      if *at + Duration::from_millis(2) < *started + limit {
        f.early.push(format!("step {:?} got its signal {:?} after it was announced, its timeout is {:?}", k, *at - *started, limit));
      }
      if *at > *reference + Duration::from_millis(700) {
        f.late.push(format!("step {:?} got its signal {:?} after a sleep of its timeout {:?} was over", k, *at - *reference, limit));
      }
    }
    if let Some((at, told)) = seen.ended.get(k) {
      f.quiet += 1;
      let limit = Duration::from_millis(p.timeout.unwrap_or(3_600_000));
      if *told && *at + Duration::from_millis(5) < *started + limit {
        f.early.push(format!("step {:?} was told of a timeout {:?} after its start, its timeout is {:?}", k, *at - *started, limit));
      }
    }
  }
  f
}

pub fn real(case: &mut Case) {
  let mut r = case.rng.fork();
  let mut plans = HashMap::new();
  let mut config = String::from("jobs:\n");
  for j in 0..r.range(6, 14) {
    let key = format!("j{}", j);
    config += &format!("  {}:\n    steps:\n", key);
    let mut budget = 2600i64;
    // one long step first, more often than not
    for i in 0..r.range(2, 5) as usize {
      let p = plan(&mut r, i, budget.max(1) as u64);
      budget -= match &p.what {
        What::Sleep(ms) => *ms as i64,
        What::Wait => p.timeout.unwrap() as i64,
        What::Ignore(ms) => p.timeout.unwrap() as i64 + *ms as i64,
      };
      config += &format!("      - run: x\n        continue-on-error: true\n");
      if let Some(t) = p.timeout {
        config += &format!("        timeout: {}ms\n", t);
      }
      plans.insert((key.clone(), i), p);
    }
  }
  case.describe("real-time deadlines");
  let mut last = None;
  for _ in 0..3 {
    let f = attempt(&plans, &config);
    progress();
    let late = !f.late.is_empty();
    let early = !f.early.is_empty();
    last = Some(f);
    if early || !late {
      break;
    }
  }
  let f = last.unwrap();
  let detail = json!({"config": config, "plans": format!("{:?}", plans)});
  for m in f.early.iter().chain(&f.late).take(3) {
    case.fail(m.clone(), detail.clone());
  }
  case.count("real_time_deadlines", f.deadlines);
  case.count("real_time_quiet_steps", f.quiet);
  case.nontrivial(hash_str(case.idx, &config));
  case.no_cut_panics();
}

fn plan(r: &mut Rng, i: usize, budget: u64) -> Plan {
  let short = 1 + r.below(150);
  match r.below(if i == 0 { 2 } else { 5 }) {
    0 | 3 => {
      let ms = if i == 0 { r.below(2200) } else { r.below(budget.min(400)) };
      Plan { what: What::Sleep(ms), timeout: *r.pick(&[None, Some(ms + 3000), Some(20_000)]) }
    }
    1 if i == 0 => Plan { what: What::Ignore(r.below(2000)), timeout: Some(short) },
    1 => Plan { what: What::Ignore(r.below(budget.min(400))), timeout: Some(short) },
    _ => Plan { what: What::Wait, timeout: Some(short) },
  }
}
