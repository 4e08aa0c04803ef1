//! Signals of steps that log faster than their lines are handled: a backlog of lines must not
//! keep a timeout or a cancellation from the step. In virtual time, with slow log hooks.
use crate::engine::rt_virtual;
use crate::frame::*;
use crate::rng::{hash_str, mix, Rng};
use astro_run::*;
use parking_lot::Mutex;
use serde_json::json;
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;
use tokio::time::{sleep, Instant};

#[derive(Clone, Debug)]
struct Plan {
  /// lines written at once
  burst: u64,
  /// then one line every so many ms (0: none) until the signal
  every: u64,
  /// ends by itself after so many ms
  ends: Option<u64>,
  timeout: Option<u64>,
  /// goes on writing for so many lines after the signal
  more: u64,
}

type Key = (String, usize);

#[derive(Default)]
struct Seen {
  started: HashMap<Key, Instant>,
  signals: HashMap<Key, Vec<(Signal, Instant)>>,
  handles: HashMap<Key, AstroRunSignal>,
  sent: HashMap<Key, u64>,
  got: [HashMap<Key, u64>; 2],
  cancelled: HashMap<String, (bool, Instant)>,
}

struct Writer {
  plans: Arc<HashMap<Key, Plan>>,
  seen: Arc<Mutex<Seen>>,
  slow: u64,
}

async fn handle(seen: &Mutex<Seen>, who: usize, log: &WorkflowLog, slow: u64) {
  {
    let mut s = seen.lock();
    let key = (log.step_id.job_key(), log.step_id.step_number());
    let n = s.got[who].entry(key).or_insert(0);
    if log.message == n.to_string() {
      *n += 1;
    } else {
      *n += 1 << 32; // (lost, or out of order)
    }
  }
  if slow > 0 {
    sleep(Duration::from_millis(slow)).await;
  }
}

#[async_trait]
impl Runner for Writer {
  async fn run(&self, ctx: Context) -> RunResponse {
    let (tx, rx) = stream();
    let key = (ctx.command.id.job_key(), ctx.command.id.step_number());
    let p = self.plans[&key].clone();
    let seen = self.seen.clone();
    tokio::spawn(async move {
      seen.lock().handles.insert(key.clone(), ctx.signal.clone());
      let mut n = 0u64;
      let line = |n: &mut u64| {
        if *n % 3 == 2 {
          tx.error(n.to_string());
        } else {
          tx.log(n.to_string());
        }
        *n += 1;
      };
      for _ in 0..p.burst {
        line(&mut n);
      }
      let signal = ctx.signal.clone();
      let wait = signal.recv();
      tokio::pin!(wait);
      let end = sleep(Duration::from_millis(p.ends.unwrap_or(3_000_000)));
      tokio::pin!(end);
      let got = loop {
        tokio::select! {
          s = &mut wait => break Some(s),
          _ = &mut end => break None,
          _ = sleep(Duration::from_millis(p.every.max(1))), if p.every > 0 && n < 4000 => line(&mut n),
        }
      };
      if let Some(s) = &got {
        seen.lock().signals.entry(key.clone()).or_default().push((s.clone(), Instant::now()));
        for _ in 0..p.more {
          line(&mut n);
        }
      }
      seen.lock().sent.insert(key, n);
      match got {
        Some(Signal::Cancel) => tx.cancelled(),
        Some(Signal::Timeout) => tx.timeout(),
        None => tx.succeeded(),
      }
    });
    Ok(rx)
  }
  async fn on_log(&self, log: WorkflowLog) -> HookNoopResult {
    handle(&self.seen, 1, &log, self.slow).await;
    Ok(())
  }
}

struct Slow {
  seen: Arc<Mutex<Seen>>,
  slow: u64,
}

#[async_trait]
impl Plugin for Slow {
  fn name(&self) -> &'static str {
    "slow"
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    if let WorkflowStateEvent::StepStateUpdated { id, state: WorkflowState::InProgress } = e {
      self.seen.lock().started.insert((id.job_key(), id.step_number()), Instant::now());
    }
    Ok(())
  }
  async fn on_log(&self, log: WorkflowLog) -> HookNoopResult {
    handle(&self.seen, 0, &log, self.slow).await;
    Ok(())
  }
}

pub fn run(case: &mut Case, cancels: bool) {
  let mut r: Rng = case.rng.fork();
  let (a, b) = *r.pick(&[(1, 0), (0, 1), (2, 0), (3, 2), (0, 5), (10, 0)]);
  // a sleep takes up to a millisecond longer
  let per_line = a + b + (a > 0) as u64 + (b > 0) as u64;
  let mut plans = HashMap::new();
  let mut config = String::from("jobs:\n");
  let mut when: Vec<(String, u64)> = vec![];
  for j in 0..r.range(1, 4) {
    let key = format!("j{}", j);
    config += &format!("  {}:\n    steps:\n", key);
    let cancelled = cancels && (j == 0 || r.chance(1, 3));
    if cancelled {
      when.push((key.clone(), *r.pick(&[0, 3, 50, 400]) + r.below(20)));
    }
    for i in 0..r.range(1, 3) as usize {
      let timeout = if cancelled { None } else { (!cancels || r.chance(1, 3)).then(|| *r.pick(&[5, 60, 500]) + r.below(30)) };
      let mut p = Plan { burst: *r.pick(&[0, 20, 300, 900]), every: *r.pick(&[0, 1, 1, 2]), ends: None, timeout, more: *r.pick(&[0, 0, 1, 40]) };
      if (timeout.is_none() && !cancelled) || r.chance(1, 8) {
        p.ends = Some(r.below(300));
      }
      config += "      - run: x\n        continue-on-error: true\n";
      if let Some(t) = timeout {
        config += &format!("        timeout: {}ms\n", t);
      }
      plans.insert((key.clone(), i), p);
    }
  }
  case.describe("signals of steps with a backlog of lines");
  let rt = rt_virtual();
  let seen = Arc::new(Mutex::new(Seen::default()));
  let plans = Arc::new(plans);
  let res = rt.block_on(async {
    let astro = Arc::new(AstroRun::builder().runner(Writer { plans: plans.clone(), seen: seen.clone(), slow: b }).plugin(Slow { seen: seen.clone(), slow: a }).build());
    let wf = Workflow::builder().id("wf").config(config.clone()).build(&astro).await.expect("config");
    for (job, at) in when.clone() {
      let (astro, seen) = (astro.clone(), seen.clone());
      tokio::spawn(async move {
        sleep(Duration::from_millis(at)).await;
        let mut ok = false;
        for _ in 0..3000 {
          // (not before the job is announced)
          ok = astro.cancel_job(&JobId::new("wf", job.clone())).is_ok();
          if ok {
            break;
          }
          sleep(Duration::from_millis(1)).await;
        }
        seen.lock().cancelled.insert(job, (ok, Instant::now()));
      });
    }
    let ctx = astro.execution_context().build();
    tokio::time::timeout(Duration::from_secs(3000), wf.run(ctx)).await
  });
  let seen = seen.lock();
  let detail = json!({"config": config, "plans": format!("{:?}", plans), "cancelled_at_ms": when, "log_hooks_take_ms": [a, b]});
  let mut errs: Vec<String> = vec![];
  let results = match res {
    Ok(x) => x,
    Err(_) => {
      case.fail("a step that was signalled does not end: the signal has not reached it", detail);
      return;
    }
  };
  // the line at hand may be handled first, and a few more by chance, but not the backlog
  let grace = Duration::from_millis(80 * per_line + 3);
  let mut sig = 0;
  for (k, p) in plans.iter() {
    let Some(begun) = seen.started.get(k) else { continue };
    let state = results.jobs[&k.0].steps[k.1].state.clone();
    let sent = seen.sent.get(k).cloned();
    for (who, name) in ["plugin", "runner"].iter().enumerate() {
      let got = seen.got[who].get(k).cloned().unwrap_or(0);
      if sent != Some(got) {
        errs.push(format!("step {:?} wrote {:?} lines, {} of them reached the {} in order", k, sent, got & 0xffff_ffff, name));
      }
    }
    let signals = seen.signals.get(k).cloned().unwrap_or_default();
    let cancel = seen.cancelled.get(&k.0).filter(|c| c.0).map(|c| c.1);
    let mut due = vec![];
    if let Some(t) = p.timeout {
      due.push((Signal::Timeout, *begun + Duration::from_millis(t)));
    }
    if let Some(c) = cancel {
      due.push((Signal::Cancel, c.max(*begun)));
    }
    due.sort_by_key(|d| d.1);
    match (signals.first(), due.first()) {
      (Some((s, at)), Some((want, from))) => {
        case.count(if matches!(s, Signal::Timeout) { "timeouts_with_backlog" } else { "cancellations_with_backlog" }, 1);
        if std::mem::discriminant(s) != std::mem::discriminant(want) {
          errs.push(format!("step {:?} got {:?} instead of {:?}", k, s, want));
        } else if *at + Duration::from_millis(2) < *from {
          errs.push(format!("step {:?} got its signal {:?} too early", k, *from - *at));
        } else if *at > *from + grace {
          errs.push(format!("step {:?} got {:?} {:?} late, a line is handled in {} ms", k, s, *at - *from, per_line));
        }
        let want = if matches!(s, Signal::Timeout) { WorkflowState::Failed } else { WorkflowState::Cancelled };
        if state != want {
          errs.push(format!("step {:?} ended as {:?} after {:?}", k, state, s));
        }
        sig = mix(sig ^ hash_str(at.duration_since(*begun).as_millis() as u64, &k.0));
      }
      (Some((s, _)), None) => errs.push(format!("step {:?} got {:?} for nothing", k, s)),
      (None, d) => {
        if p.ends.is_none() {
          errs.push(format!("step {:?} ended without a signal", k));
        } else if state != WorkflowState::Succeeded {
          errs.push(format!("step {:?} ended as {:?}, it succeeded", k, state));
        }
        let told = seen.handles.get(k).is_some_and(|h| h.is_timeout() || h.is_cancelled());
        if told && d.is_none() {
          errs.push(format!("step {:?} was signalled for nothing", k));
        }
      }
    }
  }
  for e in errs.into_iter().take(3) {
    case.fail(e, detail.clone());
  }
  case.nontrivial(mix(sig ^ hash_str(7, &config)));
  case.evals(1);
}
