//! The same step executed again by the same remote runner while earlier executions of it, cut off by lost
//! connections, are still going on there: a signal has to reach the current execution.
use crate::frame::*;
use crate::remote::{address, listening};
use crate::rng::{hash_str, mix, Rng};
use astro_run::*;
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer};
use parking_lot::Mutex;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::Notify;
use tokio::time::sleep;

#[derive(Default)]
struct Exec {
  release: Arc<Notify>,
  got: Option<Signal>,
  over: bool,
}

#[derive(Default)]
struct Seen {
  execs: Mutex<Vec<Exec>>,
  hooks: AtomicU64,
}

struct Lingering(Arc<Seen>);

#[async_trait]
impl Runner for Lingering {
  async fn run(&self, ctx: Context) -> RunResponse {
    let (tx, rx) = stream();
    let seen = self.0.clone();
    let release = Arc::new(Notify::new());
    let n = {
      let mut e = seen.execs.lock();
      e.push(Exec { release: release.clone(), ..Default::default() });
      e.len() - 1
    };
    progress();
    tokio::spawn(async move {
      tx.log(format!("execution {}", n));
      let got = tokio::select! {
        s = ctx.signal.recv() => Some(s),
        _ = release.notified() => None,
      };
      seen.execs.lock()[n].got = got.clone();
      progress();
      match got {
        Some(Signal::Cancel) => tx.cancelled(),
        Some(Signal::Timeout) => tx.timeout(),
        None => tx.succeeded(),
      }
      drop(tx);
      seen.execs.lock()[n].over = true;
    });
    Ok(rx)
  }
  async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
    self.0.hooks.fetch_add(1, Ordering::SeqCst);
    Ok(step)
  }
}

struct Proxy {
  url: String,
  pipes: Arc<Mutex<Vec<tokio::task::AbortHandle>>>,
}

impl Proxy {
  async fn start(to: String) -> Proxy {
    let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.expect("bind");
    let url = format!("http://{}", listener.local_addr().unwrap());
    let pipes: Arc<Mutex<Vec<tokio::task::AbortHandle>>> = Default::default();
    let p = pipes.clone();
    tokio::spawn(async move {
      while let Ok((mut a, _)) = listener.accept().await {
        let to = to.clone();
        let h = tokio::spawn(async move {
          if let Ok(mut b) = tokio::net::TcpStream::connect(to).await {
            tokio::io::copy_bidirectional(&mut a, &mut b).await.ok();
          }
        });
        p.lock().push(h.abort_handle());
      }
    });
    Proxy { url, pipes }
  }
  fn cut(&self) {
    for h in self.pipes.lock().drain(..) {
      h.abort();
    }
  }
}

async fn until(limit: Duration, f: impl Fn() -> bool) -> bool {
  let begin = Instant::now();
  while begin.elapsed() < limit {
    if f() {
      return true;
    }
    sleep(Duration::from_millis(2)).await;
    progress();
  }
  f()
}

struct Side {
  astro: Arc<AstroRun>,
  proxy: Proxy,
  start: tokio::task::JoinHandle<()>,
}

impl Side {
  async fn new(addr: &str, seen: &Seen) -> Option<Side> {
    let proxy = Proxy::start(addr.to_string()).await;
    let client = AstroRunRemoteRunnerClient::builder().build().ok()?;
    let mut c = client.clone();
    let url = proxy.url.clone();
    let start = tokio::spawn(async move {
      c.start(vec![url]).await.ok();
    });
    let before = seen.hooks.load(Ordering::SeqCst);
    let begin = Instant::now();
    loop {
      let step = Step { id: StepId::new("probe", "j", 0), run: "x".into(), ..Default::default() };
      client.on_before_run_step(step).await.ok();
      if seen.hooks.load(Ordering::SeqCst) > before {
        break;
      }
      if begin.elapsed() > Duration::from_secs(30) {
        return None;
      }
      sleep(Duration::from_millis(3)).await;
      progress();
    }
    Some(Side { astro: Arc::new(AstroRun::builder().runner(client).build()), proxy, start })
  }
}

type Run = tokio::task::JoinHandle<WorkflowRunResult>;

/// Run the workflow until an execution has begun at the remote side (what runs into the broken connection fails).
async fn begin(side: &Side, seen: &Seen, timeout: Option<u64>) -> std::result::Result<(usize, Run), String> {
  let t = timeout.map(|t| format!("\n        timeout: {}ms", t)).unwrap_or_default();
  let config = format!("jobs:\n  j:\n    steps:\n      - run: x{}\n", t);
  let n = seen.execs.lock().len();
  for _ in 0..200 {
    let wf = Workflow::builder().id("wf").config(config.clone()).build(&side.astro).await.expect("config");
    let ctx = side.astro.execution_context().build();
    let run: Run = tokio::spawn(async move { wf.run(ctx).await });
    if !until(Duration::from_secs(60), || seen.execs.lock().len() > n || run.is_finished()).await {
      return Err("a workflow over a remote runner neither begins nor ends".into());
    }
    if seen.execs.lock().len() > n {
      return Ok((n, run));
    }
    sleep(Duration::from_millis(10)).await;
  }
  Err(String::new())
}

pub fn run(case: &mut Case) {
  let mut r: Rng = case.rng.fork();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
  let seen = Arc::new(Seen::default());
  let addr = address();
  let server = AstroRunRemoteRunnerServer::builder().id("r").runner(Lingering(seen.clone())).support_docker(true).build().unwrap();
  let a = addr.clone();
  rt.spawn(async move {
    server.serve(&a).await.ok();
  });
  listening(&addr);
  case.describe("a step executed again after its connection was lost");
  let mut hist: Vec<String> = vec![];
  let mut bad: Option<String> = None;
  let mut unsure: Option<String> = None;
  let mut counts = [0u64; 3];
  rt.block_on(async {
    let Some(mut side) = Side::new(&addr, &seen).await else {
      unsure = Some("not connected".into());
      return;
    };
    let rounds = r.range(2, 5);
    for k in 0..rounds {
      let last = k + 1 == rounds;
      let timeout = if last && r.chance(1, 3) { Some(r.range(60, 200)) } else { None };
      let (n, run) = match begin(&side, &seen, timeout).await {
        Ok(x) => x,
        Err(e) if e.is_empty() => {
          unsure = Some("the connection did not recover".into());
          return;
        }
        Err(e) => {
          bad = Some(e);
          return;
        }
      };
      hist.push(format!("execution {} begun", n));
      if timeout.is_none() {
        // (otherwise time is pressing)
        let left: Vec<usize> = (0..n).filter(|i| !seen.execs.lock()[*i].over).collect();
        for i in left {
          if r.chance(2, 3) {
            seen.execs.lock()[i].release.notify_one();
            hist.push(format!("execution {} released", i));
            until(Duration::from_secs(10), || seen.execs.lock()[i].over).await;
            counts[1] += 1;
          }
        }
        sleep(Duration::from_millis(r.below(40))).await;
      }
      let mut cut = false;
      match if last { 0 } else { r.below(4) } {
        0 => {
          let want = if timeout.is_some() { Signal::Timeout } else { Signal::Cancel };
          if timeout.is_none() {
            if let Err(e) = side.astro.cancel_job(&JobId::new("wf", "j")) {
              bad = Some(format!("the job of a running step cannot be cancelled: {}", e));
              return;
            }
          }
          hist.push(format!("execution {} to be told {}", n, want));
          until(Duration::from_secs(20), || seen.execs.lock()[n].got.is_some()).await;
          let got = seen.execs.lock()[n].got.clone();
          if got.as_ref().map(|g| g.to_string()) != Some(want.to_string()) {
            bad = Some(format!("the execution that is going on was told {:?} and not {:?}", got, want));
            return;
          }
          counts[0] += 1;
        }
        1 => {
          seen.execs.lock()[n].release.notify_one();
          hist.push(format!("execution {} ended", n));
        }
        _ => {
          side.proxy.cut();
          hist.push("connection cut".into());
          counts[2] += 1;
          cut = true;
        }
      }
      if !until(Duration::from_secs(60), || run.is_finished()).await {
        bad = Some("a workflow does not end".into());
        return;
      }
      let res = run.await.expect("run");
      if cut && res.state != WorkflowState::Failed {
        bad = Some(format!("the connection of a step was lost and its workflow is {:?}", res.state));
        return;
      }
      if cut && r.chance(1, 3) {
        side.start.abort();
        match Side::new(&addr, &seen).await {
          Some(s) => side = s,
          None => {
            unsure = Some("not connected again".into());
            return;
          }
        }
        hist.push("another client".into());
      }
    }
  });
  for e in seen.execs.lock().iter() {
    e.release.notify_one();
  }
  rt.shutdown_background();
  case.count("signalled_executions", counts[0]);
  case.count("earlier_executions_ended_meanwhile", counts[1]);
  case.count("connections_cut", counts[2]);
  case.nontrivial(mix(hash_str(3, &format!("{:?}", hist))));
  case.evals(1);
  if let Some(b) = bad {
    case.fail(b, json!({"history": hist}));
  } else if let Some(u) = unsure {
    case.inconclusive(u);
  }
}
