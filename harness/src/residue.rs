//! What is left when a run is over: tasks, memory, files, processes, and the instance itself.
use crate::frame::*;
use crate::remote::{address, listening};
use crate::rng::{hash_str, Rng};
use astro_run::*;
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer};
use astro_runner::AstroRunner;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Weak};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ the observer of memory

/// Counts the bytes in use.
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
    System.realloc(p, l, n)
  }
}

fn open_files() -> i64 {
  std::fs::read_dir("/proc/self/fd").map(|d| d.count() as i64).unwrap_or(0)
}

fn children() -> i64 {
  let me = std::process::id().to_string();
  let Ok(d) = std::fs::read_dir("/proc") else { return 0 };
  d.filter_map(|e| e.ok()?.file_name().into_string().ok())
    .filter(|n| n.bytes().all(|b| b.is_ascii_digit()))
    .filter_map(|n| std::fs::read_to_string(format!("/proc/{}/stat", n)).ok())
    .filter(|s| s.rsplit(')').next().and_then(|r| r.split_whitespace().nth(1)) == Some(&me))
    .count() as i64
}

// ------------------------------------------------------------------ the workload

struct Marker;

/// The script of a step says how its runner behaves.
struct Acting(Arc<Marker>);

#[async_trait]
impl Runner for Acting {
  async fn run(&self, ctx: Context) -> RunResponse {
    let what = ctx.command.run.clone();
    let (tx, rx) = stream();
    match what.as_str() {
      "ok" => {
        tx.log("one");
        tx.error("two");
        tx.succeeded();
      }
      "refuse" => return Err(Error::error("refused")),
      "panic" => panic!("{}", SCRIPTED),
      _ => {
        tokio::spawn(async move {
          match what.as_str() {
            "lines" => {
              for i in 0..40 {
                tx.log(format!("line {}", i));
                if i % 7 == 0 {
                  tokio::task::yield_now().await;
                }
              }
              tx.failed(7);
            }
            "slow" => {
              tokio::time::sleep(Duration::from_millis(5)).await;
              tx.succeeded();
            }
            "cancelled" => tx.cancelled(),
            "vanish" => drop(tx),
            "wait" => match ctx.signal.recv().await {
              Signal::Cancel => tx.cancelled(),
              Signal::Timeout => tx.timeout(),
            },
            _ => {
              ctx.signal.recv().await;
              tokio::time::sleep(Duration::from_millis(3)).await;
              tx.succeeded();
            }
          }
        });
      }
    }
    Ok(rx)
  }
}

struct Watching(Arc<Marker>, u64);

#[async_trait]
impl Plugin for Watching {
  fn name(&self) -> &'static str {
    "watching"
  }
  async fn on_log(&self, _: WorkflowLog) -> HookNoopResult {
    if self.1 == 1 {
      return Err(Error::error("no"));
    }
    Ok(())
  }
  async fn on_before_run_step(&self, mut s: Step) -> HookBeforeRunStepResult {
    if self.1 == 1 {
      return Err(Error::error("no"));
    }
    s.environments.insert("A".into(), "b".into());
    Ok(s)
  }
}

#[derive(serde::Serialize, serde::Deserialize)]
struct Note(String);

#[typetag::serde(name = "residue")]
impl ContextPayloadExt for Note {
  fn as_any(&self) -> &dyn std::any::Any {
    self
  }
}

struct Shape {
  config: String,
  jobs: usize,
  kinds: Vec<&'static str>,
  cancel: Option<(String, u64)>,
  event: bool,
}

fn shape(r: &mut Rng, kinds: &[&'static str], container: Option<&str>) -> Shape {
  let n = r.range(1, 4) as usize;
  let mut used = vec![];
  let mut c = String::from("jobs:\n");
  for j in 0..n {
    c += &format!("  j{}:\n", j);
    if j > 0 && r.chance(1, 2) {
      c += &format!("    depends-on: [j{}]\n", r.below(j as u64));
    }
    if let Some(x) = container {
      c += &format!("    container: {}\n", x);
    }
    c += "    steps:\n";
    for _ in 0..r.range(1, 3) {
      let k = *r.pick(kinds);
      used.push(k);
      c += &format!("      - run: {:?}\n", k);
      // the default is an hour: nothing may wait that long once the run is over
      if k == "wait" || k == "ignore" || k == "sleep 30" || r.chance(1, 5) {
        c += "        timeout: 30ms\n";
      }
      if r.chance(1, 3) {
        c += "        continue-on-error: true\n";
      }
    }
  }
  let cancel = r.chance(1, 3).then(|| (format!("j{}", r.below(n as u64)), *r.pick(&[0, 1, 4, 10])));
  Shape { config: c, jobs: n, kinds: used, cancel, event: r.chance(1, 2) }
}

/// One run under a fresh id of constant length.
async fn once(astro: &AstroRun, s: &Shape, n: u64) -> std::result::Result<WorkflowRunResult, String> {
  let id = format!("wf{:08}", n);
  let wf = Workflow::builder().id(&id).config(s.config.as_str()).build(astro).await.map_err(|e| format!("build: {}", e))?;
  let mut b = astro.execution_context();
  if s.event {
    b = b.event(TriggerEvent { sha: id.clone(), ..Default::default() }).payload(Note(id.clone()));
  }
  let ctx = b.build();
  if let Some((job, after)) = &s.cancel {
    let run = wf.run(ctx);
    tokio::pin!(run);
    let out = tokio::select! {
      x = &mut run => Some(x),
      _ = tokio::time::sleep(Duration::from_millis(*after)) => None,
    };
    if let Some(x) = out {
      return Ok(x);
    }
    astro.cancel_job(&JobId::new(id, job.clone())).ok();
    Ok(run.await)
  } else {
    Ok(wf.run(ctx).await)
  }
}

fn alive() -> i64 {
  tokio::runtime::Handle::current().metrics().num_alive_tasks() as i64
}

#[derive(Clone, Copy, Debug)]
struct Level {
  tasks: i64,
  bytes: i64,
  files: i64,
  children: i64,
}

impl Level {
  fn now() -> Level {
    Level { tasks: alive(), bytes: LIVE.load(Ordering::SeqCst), files: open_files(), children: children() }
  }
}

/// What grew in every one of the windows, by at least so much per run.
fn growth(levels: &[Level], runs: i64) -> Option<String> {
  let all = |f: fn(&Level) -> i64, by: i64| levels.windows(2).all(|w| f(&w[1]) - f(&w[0]) >= by);
  let list = |f: fn(&Level) -> i64| levels.iter().map(f).collect::<Vec<_>>();
  if all(|l| l.tasks, runs) {
    return Some(format!("tasks after every {} runs: {:?}", runs, list(|l| l.tasks)));
  }
  if all(|l| l.files, runs) {
    return Some(format!("open files after every {} runs: {:?}", runs, list(|l| l.files)));
  }
  if all(|l| l.children, runs) {
    return Some(format!("child processes after every {} runs: {:?}", runs, list(|l| l.children)));
  }
  if all(|l| l.bytes, 24 * runs) {
    return Some(format!("bytes in use after every {} runs: {:?}", runs, list(|l| l.bytes)));
  }
  None
}

const WINDOWS: usize = 7;

fn detail(s: &Shape, how: &str, levels: &[Level]) -> Value {
  json!({"how": how, "config": s.config, "cancel": format!("{:?}", s.cancel), "event": s.event, "levels": levels.iter().map(|l| format!("{:?}", l)).collect::<Vec<_>>()})
}

fn released(w: &[Weak<Marker>]) -> usize {
  w.iter().filter(|m| m.upgrade().is_some()).count()
}

/// The engine alone, on paused time: nothing goes on once a run has returned, down to the last task.
fn engine(case: &mut Case, r: &mut Rng) {
  let s = shape(r, &["ok", "ok", "lines", "slow", "cancelled", "refuse", "vanish", "panic", "wait", "ignore"], None);
  let runs = 12;
  let rt = crate::engine::rt_virtual();
  let plugins = r.below(3);
  let verdict: std::result::Result<Vec<Level>, (String, Vec<Level>)> = rt.block_on(async {
    let mut weak: Vec<Weak<Marker>> = vec![];
    let mark = |weak: &mut Vec<Weak<Marker>>| {
      let m = Arc::new(Marker);
      weak.push(Arc::downgrade(&m));
      m
    };
    let mut b = AstroRun::builder().runner(Acting(mark(&mut weak)));
    for p in 0..plugins {
      b = b.plugin(Watching(mark(&mut weak), p));
    }
    let astro = b.build();
    let mut levels = vec![];
    let mut n = 0;
    for _ in 0..WINDOWS {
      for _ in 0..runs {
        n += 1;
        once(&astro, &s, n).await.map_err(|e| (e, vec![]))?;
        progress();
        // the clock stands still here: whatever still waits for it goes on after the run
        for _ in 0..200 {
          if alive() == 0 {
            break;
          }
          tokio::task::yield_now().await;
        }
        if alive() > 0 {
          return Err((format!("{} tasks go on after the run has returned", alive()), levels));
        }
      }
      levels.push(Level::now());
    }
    drop(astro);
    for _ in 0..50 {
      tokio::task::yield_now().await;
    }
    match released(&weak) {
      0 => Ok(levels),
      n => Err((format!("{} of {} runners and plugins are still held after the instance was dropped", n, weak.len()), levels)),
    }
  });
  finish(case, &s, "engine", runs, verdict);
}

fn finish(case: &mut Case, s: &Shape, how: &str, runs: i64, verdict: std::result::Result<Vec<Level>, (String, Vec<Level>)>) {
  match verdict {
    Err((m, l)) => {
      case.fail(m, detail(s, how, &l));
      return;
    }
    Ok(levels) => {
      // the first window is the warming up
      if let Some(m) = growth(&levels[1..], runs) {
        case.fail(format!("what a run leaves behind grows with the number of runs: {}", m), detail(s, how, &levels));
        return;
      }
      let sig = hash_str(case.idx, &s.config);
      case.nontrivial(sig);
      case.count(&format!("{}_runs", how), runs as u64 * WINDOWS as u64);
      case.count("jobs", (runs as u64 * WINDOWS as u64) * s.jobs as u64);
      case.evals(runs as u64 * WINDOWS as u64);
      for k in &s.kinds {
        if matches!(*k, "vanish" | "panic" | "refuse" | "wait" | "ignore" | "sleep 30") {
          case.count(&format!("shapes_with_{}", k.split(' ').next().unwrap()), 1);
        }
      }
      case.count("shapes_with_cancellation", s.cancel.is_some() as u64);
      case.sample(|| detail(s, how, &levels));
    }
  }
}

/// Wait until nothing changes any more.
async fn settle() {
  let mut last = (alive(), LIVE.load(Ordering::SeqCst));
  let mut same = Instant::now();
  let begin = Instant::now();
  while same.elapsed() < Duration::from_millis(60) && begin.elapsed() < Duration::from_secs(3) {
    tokio::time::sleep(Duration::from_millis(4)).await;
    let now = (alive(), LIVE.load(Ordering::SeqCst));
    if now != last {
      last = now;
      same = Instant::now();
    }
  }
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

/// Windows of runs. What seems to grow is looked at again over longer windows: buffers and tables
/// of the transport take a while to reach their size.
async fn windows(astro: &AstroRun, s: &Shape, runs: &mut i64) -> std::result::Result<Vec<Level>, (String, Vec<Level>)> {
  let first = *runs;
  loop {
    let mut levels = vec![];
    for _ in 0..WINDOWS {
      for _ in 0..*runs {
        let n = SERIAL.fetch_add(1, Ordering::Relaxed);
        once(astro, s, n).await.map_err(|e| (e, vec![]))?;
        progress();
      }
      settle().await;
      progress();
      levels.push(Level::now());
    }
    if growth(&levels[1..], *runs).is_none() || *runs >= first * 16 {
      return Ok(levels);
    }
    *runs *= 4;
  }
}

/// Over remote runners placed by the default scheduler, everything in this process.
fn remote(case: &mut Case, r: &mut Rng) {
  let container = *r.pick(&["alpine", "host/linux"]);
  let s = shape(r, &["ok", "ok", "lines", "slow", "cancelled", "refuse", "vanish", "panic", "wait", "ignore"], Some(container));
  let mut runs = 4;
  let servers = r.range(1, 2);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let verdict = rt.block_on(async {
    let mut urls = vec![];
    for i in 0..servers {
      let addr = address();
      let server = AstroRunRemoteRunnerServer::builder()
        .id(format!("r{}", i))
        .runner(Acting(Arc::new(Marker)))
        .plugin(Watching(Arc::new(Marker), i))
        .support_docker(true)
        .support_host(true)
        .build()
        .unwrap();
      let a = addr.clone();
      tokio::spawn(async move { server.serve(&a).await.ok() });
      let a = addr.clone();
      tokio::task::spawn_blocking(move || listening(&a)).await.ok();
      urls.push(format!("http://{}", addr));
    }
    let client = AstroRunRemoteRunnerClient::builder().build().unwrap();
    let mut c = client.clone();
    tokio::spawn(async move { c.start(urls).await.ok() });
    let astro = AstroRun::builder().runner(client).build();
    // connected once a step is placed
    let probe = Shape { config: "jobs:\n  j:\n    steps:\n      - run: ok\n".into(), jobs: 1, kinds: vec![], cancel: None, event: false };
    for _ in 0..500 {
      let n = SERIAL.fetch_add(1, Ordering::Relaxed);
      let res = once(&astro, &probe, n).await.map_err(|e| (e, vec![]))?;
      progress();
      if res.state == WorkflowState::Succeeded {
        break;
      }
      tokio::time::sleep(Duration::from_millis(10)).await;
    }
    windows(&astro, &s, &mut runs).await
  });
  rt.shutdown_background();
  finish(case, &s, "remote", runs, verdict);
}

/// With the bundled runner and real commands.
fn bundled(case: &mut Case, r: &mut Rng) {
  let dir = shard_dir().join(format!("res{}", case.idx));
  std::fs::create_dir_all(&dir).expect("scratch");
  let s = shape(r, &["true", "echo a; echo b >&2", "exit 3", "sleep 30", "no-such-command-xyz", "echo x > f; cat f", "kill -9 $$"], Some("host/linux"));
  let mut runs = 3;
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let verdict = rt.block_on(async {
    let runner = AstroRunner::builder().working_directory(dir.join("work")).build().unwrap();
    let astro = AstroRun::builder().runner(runner).build();
    windows(&astro, &s, &mut runs).await
  });
  rt.shutdown_background();
  std::fs::remove_dir_all(&dir).ok();
  finish(case, &s, "bundled", runs, verdict);
}

pub fn c21(case: &mut Case) {
  let mut r = case.rng.fork();
  match r.below(10) {
    0..=5 => {
      for _ in 0..4 {
        engine(case, &mut r);
      }
    }
    6 | 7 => remote(case, &mut r),
    _ => bundled(case, &mut r),
  }
  case.no_cut_panics();
}
