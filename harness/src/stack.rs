//! The whole stack: engine, remote client, default scheduler, runner servers, bundled runners, real
//! commands — observed at the client's plugins, in the results and on the machine.
use crate::docker;
use crate::frame::*;
use crate::host::{host_name, idle, running, trigger, Ground};
use crate::puppet::{Node, Op, Tree};
use crate::remote::{address, listening};
use crate::rng::{hash_str, mix, Rng};
use astro_run::*;
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer};
use astro_runner::AstroRunner;
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
  Code(i32),
  Timeout,
  Cancel,
}

#[derive(Clone, Debug)]
struct SPlan {
  host: bool,
  coe: bool,
  end: End,
  timeout: Option<u64>,
  out: Vec<String>,
  err: Vec<String>,
  env: Vec<(String, String)>,
  script: String,
  mark: String,
  dump: String,
  ls: String,
  put: Option<(String, String)>,
}

#[derive(Clone, Debug)]
struct JPlan {
  key: String,
  deps: Vec<String>,
  steps: Vec<SPlan>,
}

#[derive(Clone, Debug)]
struct WPlan {
  id: String,
  event: Option<(String, String)>,
  jobs: Vec<JPlan>,
}

impl WPlan {
  fn config(&self) -> String {
    let mut jobs = serde_json::Map::new();
    for j in &self.jobs {
      let steps: Vec<Value> = j
        .steps
        .iter()
        .map(|s| {
          let mut m = json!({"run": s.script, "container": if s.host { s.host_container() } else { "alpine".into() }});
          if s.coe {
            m["continue-on-error"] = json!(true);
          }
          if let Some(t) = s.timeout {
            m["timeout"] = json!(format!("{}ms", t));
          }
          if !s.env.is_empty() {
            m["environments"] = s.env.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<serde_json::Map<_, _>>().into();
          }
          m
        })
        .collect();
      jobs.insert(j.key.clone(), json!({"depends-on": j.deps, "steps": steps}));
    }
    // (a JSON text may hold characters a YAML text must not)
    json!({ "jobs": jobs }).to_string().replace('\u{7f}', "\\u007f").replace('\u{2028}', "\\u2028")
  }
}

impl SPlan {
  fn host_container(&self) -> String {
    format!("host/{}", std::env::consts::OS)
  }
}

/// What has to come of the steps of a job.
fn expected(j: &JPlan) -> (Vec<WorkflowState>, WorkflowState) {
  let mut state = WorkflowState::Succeeded;
  let mut v = vec![];
  for s in &j.steps {
    let run = match state {
      WorkflowState::Cancelled => false,
      WorkflowState::Failed => s.coe,
      _ => true,
    };
    if !run {
      v.push(WorkflowState::Skipped);
      continue;
    }
    let x = match s.end {
      End::Code(0) => WorkflowState::Succeeded,
      End::Code(_) | End::Timeout => WorkflowState::Failed,
      End::Cancel => WorkflowState::Cancelled,
    };
    if x != WorkflowState::Succeeded && state != WorkflowState::Cancelled {
      state = x.clone();
    }
    v.push(x);
  }
  (v, state)
}

type Lines = HashMap<StepId, Vec<(bool, String)>>;

struct Ears {
  lines: Arc<Mutex<Lines>>,
  cancel: Arc<Mutex<HashMap<String, JobId>>>,
  found: tokio::sync::mpsc::UnboundedSender<JobId>,
}

#[async_trait]
impl Plugin for Ears {
  fn name(&self) -> &'static str {
    "ears"
  }
  async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
    progress();
    if let Some(j) = self.cancel.lock().remove(&l.message) {
      self.found.send(j).ok();
    }
    self.lines.lock().entry(l.step_id.clone()).or_default().push((l.is_error(), l.message));
    Ok(())
  }
}

fn plan(r: &mut Rng, g: &Ground, w: usize, n_jobs: u64, cancels: &mut HashMap<String, JobId>) -> WPlan {
  let id = format!("{}{}", r.pick(&["wf-", "w", "a b "]), w);
  let mut jobs: Vec<JPlan> = vec![];
  for j in 0..n_jobs {
    let key = format!("j{}", j);
    let deps = if j > 0 && r.chance(1, 3) { vec![format!("j{}", r.below(j))] } else { vec![] };
    let mut steps = vec![];
    let mut cancelled = r.chance(1, 6);
    for s in 0..r.range(1, 4) {
      let tag = format!("{}-{}-{}", w, j, s);
      let host = r.chance(1, 2);
      let end = match r.below(10) {
        0 | 1 => End::Code(*r.pick(&[1, 2, 42, 127, 255])),
        2 => End::Timeout,
        3 | 4 if cancelled => {
          cancelled = false;
          End::Cancel
        }
        _ => End::Code(0),
      };
      let mut ops = vec![Op::Mark(g.out(&format!("mark-{}", tag)))];
      let dump = g.out(&format!("env-{}", tag));
      let ls = g.out(&format!("ls-{}", tag));
      ops.push(Op::Dump(dump.clone()));
      ops.push(Op::Ls { dir: ".".into(), out: ls.clone() });
      let put = r.chance(2, 3).then(|| (format!("file-{}", s), format!("{} {}", id, tag)));
      if let Some((p, d)) = &put {
        ops.push(Op::Put { path: p.clone(), data: d.clone() });
      }
      let (mut out, mut err) = (vec![], vec![]);
      let burst = if r.chance(1, 10) { 300 } else { 6 };
      for i in 0..r.below(burst) {
        let to_err = r.chance(1, 3);
        let line = match r.below(6) {
          0 => r.text(8).replace(['\n', '\r'], " "),
          1 => String::new(),
          _ => format!("{} {}", tag, i),
        };
        ops.push(Op::Write { fd: if to_err { 2 } else { 1 }, data: format!("{}\n", line).into_bytes(), n: 1 });
        if to_err {
          err.push(line);
        } else {
          out.push(line);
        }
      }
      let mut timeout = None;
      match end {
        End::Code(c) => {
          if r.chance(1, 4) {
            ops.push(Op::Sleep(r.below(60)));
          }
          ops.push(Op::Exit(c));
          if r.chance(1, 5) {
            timeout = Some(900_000);
          }
        }
        End::Timeout | End::Cancel => {
          let line = format!("{} is waiting", tag);
          if end == End::Cancel {
            cancels.insert(line.clone(), JobId::new(&id, &key));
          } else {
            timeout = Some(r.range(250, 700));
          }
          ops.push(Op::Write { fd: 1, data: format!("{}\n", line).into_bytes(), n: 1 });
          out.push(line);
          if r.chance(1, 2) {
            ops.push(Op::Fork { ops: vec![Op::Sleep(600_000)], null: r.chance(1, 2) });
          }
          if r.chance(1, 3) {
            ops.push(Op::Stubborn);
          }
          ops.push(Op::Sleep(600_000));
        }
      }
      let script = g.script(r, &format!("p-{}", tag), &ops);
      let mut env: BTreeMap<String, String> = BTreeMap::new();
      for k in 0..r.below(3) {
        env.insert(format!("V{}", k), r.text(5).replace('\0', ""));
      }
      steps.push(SPlan {
        host,
        coe: r.chance(1, 2),
        end,
        timeout,
        out,
        err,
        env: env.into_iter().collect(),
        script,
        mark: g.out(&format!("mark-{}", tag)),
        dump,
        ls,
        put,
      });
    }
    jobs.push(JPlan { key, deps, steps });
  }
  let event = r.chance(1, 2).then(|| (r.pick(&["o", "p"]).to_string(), r.pick(&["r", "s"]).to_string()));
  WPlan { id, event, jobs }
}

fn read(path: &str) -> String {
  std::fs::read_to_string(path).unwrap_or_default()
}

/// Directories of this name under a working directory.
fn left(dir: &Path, name: &str, depth: usize, v: &mut Vec<PathBuf>) {
  for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
    if e.file_name().to_string_lossy() == name {
      v.push(e.path());
    } else if depth > 0 && e.path().is_dir() {
      left(&e.path(), name, depth - 1, v);
    }
  }
}

pub fn e01(case: &mut Case) {
  let mut r = case.rng.clone();
  let g = Ground::new(case);
  let mut cancels = HashMap::new();
  let n_wf = *r.pick(&[1, 1, 2, 3]);
  let n_jobs = r.range(1, 4);
  let plans: Vec<WPlan> = (0..n_wf).map(|w| plan(&mut r, &g, w, n_jobs, &mut cancels)).collect();
  let servers = r.range(1, 3);
  // one machine for host steps: they are not bound to a runner, but share files here
  let host_server = r.below(servers);
  let all_cancels = cancels.clone();
  let lines: Arc<Mutex<Lines>> = Default::default();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
  let heard = lines.clone();
  let _ = host_name;
  let wds: Vec<PathBuf> = (0..servers).map(|i| g.wd().join(format!("s{}", i))).collect();
  let (results, hang, remaining) = rt.block_on(async {
    let mut urls = vec![];
    for i in 0..servers {
      let addr = address();
      std::fs::create_dir_all(&wds[i as usize]).unwrap();
      let runner = AstroRunner::builder().working_directory(wds[i as usize].clone()).build().unwrap();
      let server = AstroRunRemoteRunnerServer::builder()
        .id(format!("r{}", i))
        .runner(runner)
        .support_docker(true)
        .support_host(i == host_server)
        .build()
        .unwrap();
      let a = addr.clone();
      tokio::spawn(async move { server.serve(&a).await.ok() });
      let a = addr.clone();
      tokio::task::spawn_blocking(move || listening(&a)).await.ok();
      urls.push(format!("http://{}", addr));
    }
    let client = AstroRunRemoteRunnerClient::builder().build().unwrap();
    let mut c = client.clone();
    tokio::spawn(async move { c.start(urls).await.ok() });
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let astro = AstroRun::builder().runner(client).plugin(Ears { lines: heard, cancel: Arc::new(Mutex::new(cancels)), found: tx }).build();
    // all connected once the last one, which is connected in order, has taken a step
    let probe_container = |i: u64| if i == host_server { format!("host/{}", std::env::consts::OS) } else { "alpine".to_string() };
    for i in 0..servers {
      for k in 0..600 {
        // container steps go to the least loaded of the connected: the probes only have to succeed
        let id = format!("probe-{}-{}", i, k);
        let wf = Workflow::builder().id(&id).config(json!({"jobs": {"j": {"steps": [{"run": "true", "container": probe_container(i)}]}}}).to_string().as_str()).build(&astro).await.unwrap();
        let ctx = astro.execution_context().build();
        progress();
        if wf.run(ctx).await.state == WorkflowState::Succeeded {
          break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
      }
    }
    let canceller = astro.clone();
    tokio::spawn(async move {
      while let Some(j) = rx.recv().await {
        canceller.cancel_job(&j).ok();
      }
    });
    let mut hs = vec![];
    for p in &plans {
      let (p, astro) = (p.clone(), astro.clone());
      hs.push(tokio::spawn(async move {
        let wf = Workflow::builder().id(&p.id).config(p.config().as_str()).build(&astro).await.expect("plan");
        let mut b = astro.execution_context();
        if let Some((o, n)) = &p.event {
          b = b.event(trigger(o, n));
        }
        let ctx = b.build();
        wf.run(ctx).await
      }));
    }
    let mut results: Vec<Option<WorkflowRunResult>> = vec![];
    let mut hang = false;
    for mut h in hs {
      let begin = Instant::now();
      loop {
        match tokio::time::timeout(Duration::from_millis(400), &mut h).await {
          Ok(x) => {
            results.push(x.ok());
            break;
          }
          Err(_) => {
            progress();
            if begin.elapsed() > Duration::from_secs(25) {
              // only the waiting commands are left: nothing goes on any more
              hang = idle().await || begin.elapsed() > Duration::from_secs(120);
              if hang {
                results.push(None);
                break;
              }
            }
          }
        }
      }
      if hang {
        break;
      }
    }
    // the completed event reaches the runners after the run has returned
    let mut remaining: Vec<String> = vec![];
    let begin = Instant::now();
    while !hang {
      remaining.clear();
      for p in g.processes() {
        if running(p) {
          let stat = read(&format!("/proc/{}/stat", p));
          let status: Vec<String> = read(&format!("/proc/{}/status", p)).lines().filter(|l| l.starts_with("Sig") || l.starts_with("Shd")).map(|l| l.replace('\t', " ")).collect();
          remaining.push(format!("process {}: {} [{}] {}", p, read(&format!("/proc/{}/cmdline", p)).replace('\0', " "), stat.rsplit(')').next().unwrap_or_default().split_whitespace().take(4).collect::<Vec<_>>().join(" "), status.join(",")));
        }
      }
      for d in &wds {
        for p in &plans {
          let mut v = vec![];
          left(d, &p.id, 2, &mut v);
          remaining.extend(v.iter().map(|p| p.display().to_string()));
        }
      }
      if remaining.is_empty() || begin.elapsed() > Duration::from_secs(15) && (idle().await || begin.elapsed() > Duration::from_secs(60)) {
        break;
      }
      progress();
      tokio::time::sleep(Duration::from_millis(15)).await;
    }
    (results, hang, remaining)
  });
  rt.shutdown_background();
  let calls = docker::runs();
  let detail = json!({
    "servers": servers,
    "plans": plans.iter().map(|p| json!({"config": p.config(), "event": p.event, "ends": p.jobs.iter().map(|j| format!("{} {:?}", j.key, j.steps.iter().map(|s| (s.end, s.coe, s.host)).collect::<Vec<_>>())).collect::<Vec<_>>()})).collect::<Vec<_>>(),
    "results": results.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>(),
    "cancels": all_cancels.keys().collect::<Vec<_>>(),
    "containers": calls.iter().map(|c| c.names.clone()).collect::<Vec<_>>(),
  });
  if hang {
    case.fail("a workflow run over remote runners does not return".to_string(), detail.clone());
    return;
  }
  let mut bad: Vec<String> = vec![];
  let lines = lines.lock();
  let mut sig = 0u64;
  for (p, res) in plans.iter().zip(&results) {
    let Some(res) = res else {
      bad.push(format!("the run of {} crashed", p.id));
      continue;
    };
    let mut states = vec![];
    for j in &p.jobs {
      let (steps, state) = expected(j);
      states.push(state.clone());
      let Some(jr) = res.jobs.get(&j.key) else {
        bad.push(format!("{}/{} has no result", p.id, j.key));
        continue;
      };
      let got: Vec<WorkflowState> = jr.steps.iter().map(|s| s.state.clone()).collect();
      if jr.state != state || got != steps {
        bad.push(format!("job {}/{} ended {:?} {:?}, expected {:?} {:?}", p.id, j.key, jr.state, got, state, steps));
        continue;
      }
      case.count("jobs", 1);
      // files written so far, per kind of step
      let mut files: [Tree; 2] = [Tree::new(), Tree::new()];
      for (i, s) in j.steps.iter().enumerate() {
        let what = format!("{}/{}/{}", p.id, j.key, i);
        let ran = read(&s.mark).lines().count();
        // a command may be so slow to start that its deadline comes first
        let late = ran == 0 && s.end == End::Timeout && steps[i] != WorkflowState::Skipped;
        if (ran == 1) != (steps[i] != WorkflowState::Skipped) && !late || ran > 1 {
          bad.push(format!("the command of {} was executed {} times, the step is {:?}", what, ran, steps[i]));
          continue;
        }
        let seen = lines.get(&StepId::new(&p.id, &j.key, i)).cloned().unwrap_or_default();
        if ran == 0 {
          if late {
            case.count("late_starts", 1);
          } else {
            if !seen.is_empty() {
              bad.push(format!("the skipped step {} has logs", what));
            }
            case.count("steps_skipped", 1);
          }
          continue;
        }
        case.count(if s.host { "host_steps" } else { "container_steps" }, 1);
        case.count("lines", seen.len() as u64);
        let code = match s.end {
          End::Code(0) | End::Cancel => None,
          End::Code(c) => Some(c),
          End::Timeout => Some(123),
        };
        match s.end {
          End::Timeout => case.count("timeouts", 1),
          End::Cancel => case.count("cancellations", 1),
          _ => {}
        }
        if s.end != End::Timeout && jr.steps[i].exit_code != code {
          bad.push(format!("step {} has exit code {:?}, its command gave {:?}", what, jr.steps[i].exit_code, code));
        }
        for (is_err, want) in [(false, &s.out), (true, &s.err)] {
          let got: Vec<&String> = seen.iter().filter(|l| l.0 == is_err).map(|l| &l.1).collect();
          let cut = s.end == End::Timeout && want.iter().collect::<Vec<_>>().starts_with(&got);
          if got != want.iter().collect::<Vec<_>>() && !cut {
            bad.push(format!("step {}: lines of {} are {:?}, written were {:?}", what, if is_err { "stderr" } else { "stdout" }, few(&got), few(&want.iter().collect::<Vec<_>>())));
          }
        }
        let env: Value = serde_json::from_str(&read(&s.dump)).unwrap_or_default();
        for (k, v) in &s.env {
          if env["env"][k] != json!(v) {
            bad.push(format!("step {}: variable {} is {}, configured {:?}", what, k, env["env"][k], v));
          }
        }
        let listing: Tree = serde_json::from_str(&read(&s.ls)).unwrap_or_default();
        let mine = &mut files[s.host as usize];
        for (f, n) in mine.iter() {
          if listing.get(f) != Some(n) {
            bad.push(format!("step {} does not see {} of an earlier step: {:?}", what, f, listing));
          }
        }
        for (f, n) in &listing {
          let own = format!("{} ", p.id);
          if let Node::File(t) = n {
            let mut parts = t.trim_start_matches(&own).split('-');
            let (_, job) = (parts.next(), parts.next());
            if !t.starts_with(&own) || job != Some(&j.key[1..]) {
              bad.push(format!("step {} sees {} of another job: {}", what, f, t));
            }
          }
        }
        if let Some((f, d)) = &s.put {
          mine.insert(f.clone(), Node::File(d.clone()));
        }
        if !s.host {
          let name = format!("{}-{}-{}", p.id, j.key, i);
          if calls.iter().filter(|c| c.names == [name.clone()]).count() != 1 {
            bad.push(format!("{} containers were started for step {}", calls.iter().filter(|c| c.names == [name.clone()]).count(), what));
          }
        }
        sig = mix(sig ^ hash_str(7, &format!("{}{:?}{}{}", what, s.end, s.host, seen.len())));
      }
    }
    let ok = match &res.state {
      WorkflowState::Succeeded => states.iter().all(|s| *s == WorkflowState::Succeeded),
      x => states.contains(x),
    };
    if !ok {
      bad.push(format!("workflow {} is {:?}, its jobs are {:?}", p.id, res.state, states));
    }
  }
  if !remaining.is_empty() {
    bad.push(format!("left on the runners after the workflows completed: {:?}", few(&remaining)));
  }
  for m in bad.into_iter().take(4) {
    case.fail(m, detail.clone());
  }
  case.count("workflows", plans.len() as u64);
  case.count("servers", servers);
  case.nontrivial(sig);
  case.evals(1);
  case.sample(|| detail.clone());
  case.no_cut_panics();
}

fn few<T: std::fmt::Debug>(v: &[T]) -> Vec<String> {
  v.iter().take(12).map(|x| format!("{:?}", x).chars().take(400).collect()).collect()
}
