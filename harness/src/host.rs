//! The bundled runner: host and container steps executed for real, observed from outside.
use crate::docker;
use crate::engine::rt_real;
use crate::frame::{process_idle_for, progress, shard_dir, Case};
use crate::puppet::{self, Node, Op, Plan, Tree};
use crate::rng::{hash_str, mix, Rng};
use astro_run::*;
use astro_runner::AstroRunner;
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio_stream::StreamExt;

/// Scratch directory of one case; strays are ended and files removed when it is dropped.
pub(crate) struct Ground {
  pub(crate) dir: PathBuf,
}

impl Ground {
  pub(crate) fn new(c: &Case) -> Ground {
    let dir = shard_dir().join(format!("c{}", c.idx));
    for d in ["wd", "plans", "out"] {
      std::fs::create_dir_all(dir.join(d)).expect("case directory");
    }
    docker::reset();
    Ground { dir }
  }
  pub(crate) fn wd(&self) -> PathBuf {
    self.dir.join("wd")
  }
  pub(crate) fn out(&self, name: &str) -> String {
    self.dir.join("out").join(name).to_string_lossy().to_string()
  }
  fn pids(&self) -> String {
    self.out("pids")
  }
  /// A shell script executing the operations.
  pub(crate) fn script(&self, r: &mut Rng, name: &str, ops: &[Op]) -> String {
    let file = self.dir.join("plans").join(name);
    std::fs::write(&file, serde_json::to_string(&Plan { pids: self.pids(), ops: ops.to_vec() }).unwrap()).expect("plan");
    let exe = std::env::current_exe().unwrap();
    let call = format!("{} puppet {}", exe.display(), file.display());
    if ops.iter().any(|o| matches!(o, Op::Kill(_))) {
      // a shell in between would report the signal
      return format!("exec {}", call);
    }
    match r.below(4) {
      0 => call,
      1 => format!("{}; exit $?", call),
      2 => format!("# do it\n({})", call),
      _ => format!("exec {}", call),
    }
  }
  pub(crate) fn processes(&self) -> Vec<i32> {
    std::fs::read_to_string(self.pids()).unwrap_or_default().lines().filter_map(|l| l.trim().parse().ok()).collect()
  }
}

/// One of our own processes that is still running (not a zombie).
pub(crate) fn running(pid: i32) -> bool {
  match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
    Ok(s) => s.rfind(')').is_some_and(|p| !s[p + 1..].trim_start().starts_with(['Z', 'X'])),
    Err(_) => false,
  }
}

impl Drop for Ground {
  fn drop(&mut self) {
    for p in self.processes() {
      if running(p) {
        unsafe { libc::kill(p, libc::SIGKILL) };
      }
    }
    std::fs::remove_dir_all(&self.dir).ok();
  }
}

/// What a command sees of a value.
fn env_text(v: &EnvironmentVariable) -> String {
  match v {
    EnvironmentVariable::String(s) => s.clone(),
    EnvironmentVariable::Number(n) => n.to_string(),
    EnvironmentVariable::Boolean(b) => (if *b { "true" } else { "false" }).to_string(),
  }
}

pub(crate) fn host_name(r: &mut Rng) -> String {
  if r.chance(1, 2) {
    format!("host/{}", std::env::consts::OS)
  } else {
    format!("host/{}-{}", std::env::consts::OS, std::env::consts::ARCH)
  }
}

fn container(name: impl Into<String>) -> Option<ContainerOptions> {
  Some(ContainerOptions { name: name.into(), volumes: None, security_opts: None })
}

pub(crate) fn trigger(owner: &str, repo: &str) -> TriggerEvent {
  TriggerEvent { event: "push".into(), repo_owner: owner.into(), repo_name: repo.into(), branch: "main".into(), ..Default::default() }
}

fn ctx(id: StepId, run: String, container: Option<ContainerOptions>, event: Option<TriggerEvent>) -> Context {
  Context {
    id: id.clone(),
    signal: AstroRunSignal::new(),
    command: Command { id, run, container, ..Default::default() },
    event,
    payload: None,
  }
}

#[derive(Debug, Clone, Default)]
struct Out {
  lines: Vec<(bool, String)>,
  result: Option<RunResult>,
  /// the stream did not end although nothing happens any more
  hang: bool,
  inconclusive: bool,
  refused: Option<String>,
  ended: Option<Instant>,
}

const END_WITHIN: Duration = Duration::from_secs(20);

pub(crate) async fn idle() -> bool {
  tokio::task::spawn_blocking(|| process_idle_for(1500)).await.unwrap_or(false)
}

/// Execute one step and read its stream to the end. `limit`: how long it may take at most.
async fn drive(runner: Arc<AstroRunner>, ctx: Context, limit: Duration, seen: impl Fn(&str)) -> Out {
  let mut out = Out::default();
  let mut rx = match runner.run(ctx).await {
    Ok(rx) => rx,
    Err(e) => {
      out.refused = Some(e.to_string());
      return out;
    }
  };
  let mut last = Instant::now();
  loop {
    match tokio::time::timeout(Duration::from_millis(300), rx.next()).await {
      Ok(Some(l)) => {
        progress();
        last = Instant::now();
        seen(&l.message);
        out.lines.push((l.is_error(), l.message));
      }
      Ok(None) => break,
      Err(_) => {
        progress();
        if last.elapsed() > limit {
          if idle().await {
            out.hang = true;
          } else if last.elapsed() > limit * 4 {
            out.inconclusive = true;
          } else {
            continue;
          }
          return out;
        }
      }
    }
  }
  out.result = rx.result();
  out.ended = Some(Instant::now());
  progress();
  out
}

// ------------------------------------------------------------------ output

fn lines_of(bytes: &[u8]) -> Vec<Vec<u8>> {
  let mut v: Vec<Vec<u8>> = bytes.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
  if v.last().is_some_and(|l| l.is_empty()) {
    v.pop();
  }
  v
}

/// Does the logged text stand for these bytes? Bytes that are not text may be represented freely.
fn same_line(raw: &[u8], got: &str) -> bool {
  match std::str::from_utf8(raw) {
    // one carriage return may belong to the line's end
    Ok(s) => s == got || s.strip_suffix('\r') == Some(got),
    Err(_) => {
      let plain = |s: &str| s.chars().filter(|c| *c != '\u{fffd}').collect::<String>();
      let lossy = String::from_utf8_lossy(raw);
      let (a, b) = (plain(&lossy), plain(got));
      a == b || a.chars().filter(|c| c.is_ascii_alphanumeric()).all(|c| b.contains(c))
    }
  }
}

#[derive(Default, Clone)]
struct Expect {
  out: [Vec<u8>; 2],
  code: Option<i32>,
  killed: bool,
}

fn piece(r: &mut Rng) -> Vec<u8> {
  match r.below(14) {
    0..=3 => format!("{}\n", r.ident(12)).into_bytes(),
    12 => format!("{}\0{}{}", r.ident(3), r.ident(2), r.pick(&["\n", "\0\n", "\0"])).into_bytes(),
    13 => format!("10%\r{}%{}", r.below(100), r.pick(&["\r\n", "\r\r\n", "\n\r\n", "\r"])).into_bytes(),
    4 => r.text(6).replace('\r', "").into_bytes(),
    5 => b"\n".to_vec(),
    6 => vec![*r.pick(&[0xffu8, 0x80, 0xc3, 0xf0, 0xed]), b'x', b'\n'],
    7 => b"half ".to_vec(),
    8 => vec![b'y'; r.range(1, 9000) as usize],
    9 => format!("{}é\n\n", r.ident(3)).into_bytes(),
    10 => vec![b'\t', b' ', b'\n', 1, 27, b'[', b'0', b'm', b'\n'],
    _ => format!("{} {}\n", r.next(), r.next()).into_bytes(),
  }
}

/// A random program writing to both streams, and what it has to be reported as.
fn writer(r: &mut Rng, c: &mut Vec<&'static str>) -> (Vec<Op>, Expect) {
  let mut ops = vec![];
  let mut e = Expect::default();
  let mut open = [true, true];
  let n = r.below(14);
  for _ in 0..n {
    match r.below(20) {
      0..=11 => {
        let k = r.us(2);
        if open[k] {
          let p = piece(r);
          let times = if r.chance(1, 8) { r.range(2, 400) } else { 1 };
          for _ in 0..times {
            e.out[k].extend(&p);
          }
          if std::str::from_utf8(&p).is_err() {
            c.push("invalid_bytes");
          }
          if !open[1 - k] {
            c.push("late_after_close");
          }
          ops.push(Op::Write { fd: k as i32 + 1, data: p, n: times });
        }
      }
      12..=13 => ops.push(Op::Sleep(r.below(25))),
      14..=15 => {
        let k = r.us(2);
        if open[k] && r.chance(1, 2) {
          open[k] = false;
          ops.push(Op::Close(k as i32 + 1));
          ops.push(Op::Sleep(r.below(30)));
        }
      }
      16 => {
        // a child that may outlive the command itself, with the same streams
        let k = r.us(2);
        if open[k] && !c.contains(&"background_writers") {
          c.push("background_writers");
          let p = format!("child {}\n", r.ident(6)).into_bytes();
          // keep the lines of parent and child apart
          let whole = e.out[k].is_empty() || e.out[k].ends_with(b"\n");
          if whole {
            ops.push(Op::Fork { ops: vec![Op::Write { fd: k as i32 + 1, data: p.clone(), n: 1 }, Op::Mark("WAIT".into())], null: false });
            ops.push(Op::Sleep(0));
            e.out[k].extend(&p);
          }
        }
      }
      _ => {}
    }
  }
  if e.out.iter().any(|o| !o.is_empty() && !o.ends_with(b"\n")) {
    c.push("no_final_newline");
  }
  match r.below(10) {
    0..=4 => {}
    5..=8 => {
      let code = if r.chance(1, 2) { r.below(256) as i32 } else { *r.pick(&[0, 1, 2, 3, 42, 77, 123, 126, 127, 128, 130, 137, 143, 254, 255]) };
      e.code = Some(code);
      ops.push(Op::Exit(code));
    }
    _ => {
      e.killed = true;
      ops.push(Op::Kill(*r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGABRT])));
    }
  }
  (ops, e)
}

/// Children that write on their own would interleave with the parent: the line order within the
/// stream is then unknown, so their lines are written with everything else of the stream complete.
fn settle(ops: Vec<Op>, e: &mut Expect, mark: &str, r: &mut Rng) -> Vec<Op> {
  let Some(at) = ops.iter().position(|o| matches!(o, Op::Fork { .. })) else { return ops };
  // the child writes last: after a delay longer than anything the parent still does is no
  // guarantee, so the child simply is the only one to write to that stream from here on
  let mut out = vec![];
  let mut fd = 0;
  for (i, o) in ops.into_iter().enumerate() {
    match o {
      Op::Fork { ops: sub, null } => {
        let Op::Write { fd: f, data, n } = sub[0].clone() else { unreachable!() };
        fd = f;
        out.push(Op::Fork { ops: vec![Op::Sleep(r.below(120)), Op::Write { fd: f, data, n }, Op::Mark(mark.to_string())], null });
      }
      Op::Write { fd: f, .. } if i > at && f == fd => {}
      o => out.push(o),
    }
  }
  // recompute what the stream gets
  let mut bytes = [vec![], vec![]];
  let mut late = vec![];
  for o in &out {
    match o {
      Op::Write { fd, data, n } => (0..*n).for_each(|_| bytes[*fd as usize - 1].extend(data)),
      Op::Fork { ops, .. } => {
        if let Op::Write { fd, data, .. } = &ops[1] {
          late.push((*fd, data.clone()));
        }
      }
      _ => {}
    }
  }
  for (fd, d) in late {
    bytes[fd as usize - 1].extend(&d);
  }
  e.out = bytes;
  out
}

fn judge_output(case: &mut Case, what: &str, e: &Expect, o: &Out, detail: &Value) {
  if let Some(x) = &o.refused {
    case.fail(format!("{}: the runner refused the step: {}", what, x), detail.clone());
    return;
  }
  if o.hang {
    case.fail(format!("{}: the step does not end although its command has", what), detail.clone());
    return;
  }
  if o.inconclusive {
    case.inconclusive("a step took too long");
    return;
  }
  for k in 0..2 {
    let want = lines_of(&e.out[k]);
    let got: Vec<&String> = o.lines.iter().filter(|(err, _)| *err == (k == 1)).map(|(_, m)| m).collect();
    case.count("lines", want.len() as u64);
    let n = want.len().min(got.len());
    let bad = (0..n).find(|i| !same_line(&want[*i], got[*i]));
    if bad.is_some() || want.len() != got.len() {
      let i = bad.unwrap_or(n);
      case.fail(
        format!("{}: {} lines written to fd {}, {} logged, first difference at {}", what, want.len(), k + 1, got.len(), i),
        json!({"written": want.get(i).map(|l| String::from_utf8_lossy(l).chars().take(200).collect::<String>()),
          "logged": got.get(i).map(|l| l.chars().take(200).collect::<String>()), "case": detail}),
      );
      return;
    }
  }
  let want = match (e.killed, e.code) {
    (true, _) => None,
    (_, Some(0)) | (_, None) => Some(RunResult::Succeeded),
    (_, Some(c)) => Some(RunResult::Failed { exit_code: c }),
  };
  let ok = match (&want, &o.result) {
    (None, Some(RunResult::Failed { exit_code })) => *exit_code != 0,
    (Some(w), Some(g)) => w == g,
    _ => false,
  };
  if !ok {
    case.fail(format!("{}: command ended with {:?} (killed: {}), step with {:?}", what, e.code, e.killed, o.result), detail.clone());
  }
}

fn rt(r: &mut Rng) -> tokio::runtime::Runtime {
  rt_real(1 + r.us(3))
}

pub fn h01(case: &mut Case) {
  let mut r = case.rng.clone();
  let g = Ground::new(case);
  let runner = Arc::new(AstroRunner::builder().working_directory(g.wd()).build().unwrap());
  let n = 1 + r.us(4);
  let mut jobs = vec![];
  let mut tags = vec![];
  for i in 0..n {
    let mut t = vec![];
    let (ops, mut e) = writer(&mut r, &mut t);
    let ops = settle(ops, &mut e, &g.out("late"), &mut r);
    if e.code.is_some_and(|c| c != 0) {
      t.push("nonzero_exits");
    }
    tags.extend(t);
    let big = r.chance(1, 12);
    let (ops, e) = if big {
      // a lot at once, in one stream and then the other
      let k = r.us(2);
      let line = format!("{}\n", "z".repeat(r.range(0, 3000) as usize)).into_bytes();
      let times = r.range(100, 1500);
      let mut e = Expect::default();
      (0..times).for_each(|_| e.out[k].extend(&line));
      e.out[1 - k].extend(b"end");
      e.code = Some(7);
      tags.push("big_outputs");
      (vec![Op::Write { fd: k as i32 + 1, data: line, n: times }, Op::Write { fd: 2 - k as i32, data: b"end".to_vec(), n: 1 }, Op::Exit(7)], e)
    } else {
      (ops, e)
    };
    let script = g.script(&mut r, &format!("s{}", i), &ops);
    let id = StepId::new("wf", format!("j{}", i), r.us(4));
    let c = ctx(id, script, container(host_name(&mut r)), None);
    jobs.push((ops, e, c));
  }
  let outs: Vec<Out> = rt(&mut r).block_on(async {
    let hs: Vec<_> = jobs.iter().map(|(_, _, c)| tokio::spawn(drive(runner.clone(), c.clone(), END_WITHIN, |_| {}))).collect();
    let mut v = vec![];
    for h in hs {
      v.push(h.await.expect("driver"));
    }
    v
  });
  let mut sig = 0;
  for ((ops, e, c), o) in jobs.iter().zip(&outs) {
    case.count("steps", 1);
    let what = format!("step {}", c.id.to_string());
    judge_output(case, &what, e, o, &json!({"plan": compact_ops(ops), "script": c.command.run}));
    sig = mix(sig ^ hash_str(1, &format!("{:?}{:?}{:?}", o.lines.len(), o.result, o.lines.iter().map(|l| l.0).collect::<Vec<_>>())));
  }
  for t in tags {
    case.count(t, 1);
  }
  case.nontrivial(sig);
  case.evals(1);
  case.sample(|| json!({"plans": jobs.iter().map(|(o, _, _)| compact_ops(o)).collect::<Vec<_>>(), "results": outs.iter().map(|o| format!("{:?}", o.result)).collect::<Vec<_>>()}));
}

fn compact_ops(ops: &[Op]) -> Value {
  json!(ops
    .iter()
    .map(|o| match o {
      Op::Write { fd, data, n } => format!("write {} x{} {:?}", fd, n, String::from_utf8_lossy(&data[..data.len().min(40)])),
      o => format!("{:?}", o).chars().take(300).collect(),
    })
    .collect::<Vec<_>>())
}

// ------------------------------------------------------------------ environment and directory

fn names(r: &mut Rng) -> Vec<String> {
  // related names, so that a mix-up of directories shows
  let base = r.ident(3);
  let long = format!("{}{}", base, "-and-more".repeat(r.range(3, 12) as usize));
  let mut v = vec![
    base.clone(),
    format!("{}-{}", base, r.below(3)),
    format!("{}{}", base, base),
    base.to_uppercase(),
    format!("{}1", long),
    format!("{}2", long),
    format!("{}.x", base),
    format!("{}_x", base),
    format!("{}-x", base),
    format!("w {}", base),
    format!("{}\u{e9}", base),
  ];
  r.shuffle(&mut v);
  v.truncate(4);
  v.push("data".into());
  v.push("caches".into());
  v
}

pub fn h02(case: &mut Case) {
  let mut r = case.rng.clone();
  let g = Ground::new(case);
  let runner = Arc::new(AstroRunner::builder().working_directory(g.wd()).build().unwrap());
  let ns = names(&mut r);
  let n = 2 + r.us(5);
  let mut steps: Vec<(Context, HashMap<String, String>, PathBuf)> = vec![];
  for i in 0..n {
    let (wf, job, num) = (r.pick(&ns[..3]).clone(), r.pick(&ns).clone(), r.us(3));
    let event = match r.below(3) {
      0 => None,
      1 => Some(trigger(&ns[0], &ns[1])),
      _ => Some(trigger(&ns[1], &ns[2])),
    };
    let mut want = g.wd();
    if let Some(e) = &event {
      want = want.join(&e.repo_owner).join(&e.repo_name);
    }
    let want = want.join(&wf).join(&job).join("data");
    let ops = vec![Op::Dump(g.out(&format!("dump{}", i))), Op::Sleep(r.below(20))];
    let script = g.script(&mut r, &format!("s{}", i), &ops);
    let mut c = ctx(StepId::new(wf, job, num), script, container(host_name(&mut r)), event);
    let mut env = HashMap::new();
    for _ in 0..if r.chance(1, 10) { r.range(50, 200) } else { r.below(8) } {
      let k = match r.below(12) {
        0 => r.pick(&["HOME", "LANG", "TZ", "TMPDIR", "USER"]).to_string(),
        _ => format!("VHE_{}", r.ident(5).replace('-', "_")),
      };
      let (v, text) = match r.below(8) {
        0 => {
          let (x, text) = crate::rng::number(&mut r);
          (EnvironmentVariable::Number(x), text)
        }
        1 => {
          let b = r.chance(1, 2);
          (EnvironmentVariable::Boolean(b), b.to_string())
        }
        2 => (EnvironmentVariable::String(String::new()), String::new()),
        3 => {
          let s = "v".repeat(r.range(1, 20000) as usize);
          (EnvironmentVariable::String(s.clone()), s)
        }
        _ => {
          let s = r.text(8);
          (EnvironmentVariable::String(s.clone()), s)
        }
      };
      c.command.environments.insert(k.clone(), v);
      env.insert(k, text);
    }
    case.count("variables", env.len() as u64);
    steps.push((c, env, want));
  }
  let outs: Vec<Out> = rt(&mut r).block_on(async {
    let hs: Vec<_> = steps.iter().map(|(c, _, _)| tokio::spawn(drive(runner.clone(), c.clone(), END_WITHIN, |_| {}))).collect();
    let mut v = vec![];
    for h in hs {
      v.push(h.await.expect("driver"));
    }
    v
  });
  let mut dirs: HashMap<(String, String), Vec<String>> = HashMap::new();
  let mut sig = 0;
  for (i, ((c, env, want), o)) in steps.iter().zip(&outs).enumerate() {
    case.count("steps", 1);
    let d = json!({"id": c.id.to_string(), "event": c.event, "env": env.iter().map(|(k, v)| (k, v.chars().take(100).collect::<String>())).collect::<BTreeMap<_, _>>()});
    if o.hang || o.inconclusive {
      judge_output(case, "step", &Expect::default(), o, &d);
      continue;
    }
    let Some(dump) = std::fs::read_to_string(g.out(&format!("dump{}", i))).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else {
      case.fail(format!("the command of step {} was not executed: {:?} {:?}", c.id.to_string(), o.result, o.lines), d);
      continue;
    };
    for (k, v) in env {
      if dump["env"][k] != json!(v) {
        case.fail(format!("step {}: variable {} is configured as {:?} and is {}", c.id.to_string(), k, v.chars().take(200).collect::<String>(), dump["env"][k]), d.clone());
        return;
      }
    }
    for (k, v) in dump["env"].as_object().unwrap() {
      if k.starts_with("VHE_") && !env.contains_key(k) {
        case.fail(format!("step {}: variable {} = {} is not configured", c.id.to_string(), k, v), d.clone());
        return;
      }
    }
    let cwd = dump["cwd"].as_str().unwrap().to_string();
    sig = mix(sig ^ hash_str(2, &cwd) ^ env.len() as u64);
    if Path::new(&cwd) != std::fs::canonicalize(want).unwrap_or_else(|_| want.clone()) {
      case.fail(format!("step {} runs in {} and not in {}", c.id.to_string(), cwd, want.display()), d.clone());
      return;
    }
    let key = (format!("{:?}", c.event.as_ref().map(|e| (&e.repo_owner, &e.repo_name))), c.id.job_id().to_string());
    dirs.entry(key).or_default().push(cwd);
  }
  // same job, same directory; different jobs, different directories
  let mut owner: HashMap<String, (String, String)> = HashMap::new();
  for (k, ds) in dirs {
    case.count("directories", 1);
    for d in ds {
      if let Some(o) = owner.insert(d.clone(), k.clone()) {
        if o != k {
          case.fail(format!("jobs {:?} and {:?} share the directory {}", o, k, d), json!({}));
        }
      }
    }
  }
  case.nontrivial(sig);
  case.evals(1);
  case.sample(|| json!({"steps": steps.iter().map(|(c, e, d)| json!({"id": c.id.to_string(), "variables": e.len(), "dir": d})).collect::<Vec<_>>()}));
}

// ------------------------------------------------------------------ files

struct Rec {
  evs: Arc<Mutex<Vec<(Instant, String)>>>,
}

#[async_trait]
impl Plugin for Rec {
  fn name(&self) -> &'static str {
    "rec"
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    progress();
    self.evs.lock().push((Instant::now(), format!("{:?}", e)));
    Ok(())
  }
  async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
    progress();
    self.evs.lock().push((Instant::now(), format!("{} {}", l.step_id.to_string(), l.message)));
    Ok(())
  }
}

/// Operations on the job's directory, and their effect on the model.
fn file_ops(r: &mut Rng, t: &mut Tree, outside: &str) -> Vec<Op> {
  let mut ops = vec![];
  for _ in 0..1 + r.below(4) {
    let dirs: Vec<String> = t.iter().filter(|(_, n)| **n == Node::Dir).map(|(k, _)| format!("{}/", k)).chain([String::new()]).collect();
    let pre = r.pick(&dirs).clone();
    let name = format!("{}{}", pre, r.pick(&["a", "b", "out.txt", "0", "1", "data", "entrypoint", ".hidden", "x y", "caches"]));
    match r.below(8) {
      0..=3 => {
        if matches!(t.get(&name), None | Some(Node::File(_))) {
          let d = r.text(5);
          ops.push(Op::Put { path: name.clone(), data: d.clone() });
          t.insert(name, Node::File(d));
        }
      }
      4..=5 => {
        if t.get(&name).is_none() {
          ops.push(Op::Mkdir(name.clone()));
          t.insert(name, Node::Dir);
        }
      }
      6 => {
        if t.get(&name).is_none() {
          ops.push(Op::Link { to: outside.to_string(), path: name.clone() });
          t.insert(name, Node::Link(outside.to_string()));
        }
      }
      _ => {
        if t.get(&name).is_some() {
          ops.push(Op::Rm(name.clone()));
          t.retain(|k, _| *k != name && !k.starts_with(&format!("{}/", name)));
        }
      }
    }
  }
  ops
}

pub fn h03(case: &mut Case) {
  let mut r = case.rng.clone();
  let g = Ground::new(case);
  let wd = g.wd();
  // things that must survive
  let outside = g.dir.join("outside");
  std::fs::create_dir_all(outside.join("d")).unwrap();
  std::fs::write(outside.join("secret"), "s").unwrap();
  std::fs::write(outside.join("d/f"), "f").unwrap();
  let base = r.ident(3);
  let ids = if r.chance(1, 2) {
    vec![base.clone(), format!("{}-1", base), format!("{}x", base)]
  } else {
    let long = format!("{}{}", base, "-and-more".repeat(r.range(3, 12) as usize));
    let mut v = vec![base.clone(), base.to_uppercase() + "Q", base.clone() + "q", format!("{}1", long), format!("{}2", long), format!("{} 1", base), format!("{}.1", base)];
    r.shuffle(&mut v);
    v
  };
  let repos = [("o1", "r1"), ("o1", "r2"), ("o2", "r1")];
  let mut keep = Tree::new();
  for (i, (o, p)) in repos.iter().enumerate() {
    // often nothing but the caches, or nothing but another workflow's directory
    for f in ["caches/c.txt".to_string(), format!("{}-other/j/data/f", base), format!("{}-1x/j/data/f", base)] {
      if r.chance(2, 5) {
        let p = wd.join(o).join(p).join(&f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, format!("keep{}", i)).unwrap();
        keep.insert(p.to_string_lossy().to_string(), Node::File(format!("keep{}", i)));
      }
    }
  }
  for f in ["top.txt".to_string(), "caches/c".into(), format!("{}y/j/data/f", base)] {
    if r.chance(1, 3) {
      continue;
    }
    let p = wd.join(&f);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, "top").unwrap();
    keep.insert(p.to_string_lossy().to_string(), Node::File("top".into()));
  }
  let evs = Arc::new(Mutex::new(vec![]));
  let runner = AstroRunner::builder().working_directory(wd.clone()).build().unwrap();
  let astro = AstroRun::builder().runner(runner).github_personal_token(crate::github::TOKEN).plugin(Rec { evs: evs.clone() }).build();
  let rt = rt(&mut r);
  let rounds = 1 + r.below(2);
  let mut sig = 0u64;
  let mut sample = Value::Null;
  for round in 0..rounds {
    let n = 1 + r.us(3);
    struct Check {
      out: String,
      want: Tree,
      what: String,
      /// only meaningful if that job was not cancelled
      unless: Option<String>,
    }
    let mut checks: Vec<Check> = vec![];
    let mut timed: Vec<String> = vec![];
    let mut runs = vec![];
    let mut texts = vec![];
    let mut left_out = 0u64;
    for (w, wid) in ids.iter().enumerate().take(n) {
      let event = match r.below(3) {
        0 => None,
        _ => Some(*r.pick(&repos)),
      };
      // some steps are left out by a condition, the first ones in particular
      let conditions = event.is_some() && r.chance(1, 3);
      let sha = format!("{:040x}", r.next());
      if let Some((o, p)) = event.filter(|_| conditions) {
        crate::github::known_commit(o, p, &sha, &["a/b.txt".to_string()]);
      }
      let mut dir = wd.clone();
      if let Some((o, p)) = event {
        dir = dir.join(o).join(p);
      }
      let dir = dir.join(wid);
      let nj = 1 + r.us(3);
      let mut jobs = serde_json::Map::new();
      let mut finals: Vec<(String, Tree)> = vec![];
      let mut cancel = None;
      let mut last = String::new();
      for j in 0..nj {
        let key = format!("{}{}", r.pick(&["j", "data", "0"]), j);
        let ns = 1 + r.us(4);
        let mut t = Tree::new();
        let mut steps = vec![];
        let mut dead = false;
        let mut first = true;
        let cancelled = r.chance(1, 8);
        for s in 0..ns {
          let out = g.out(&format!("ls-{}-{}-{}-{}", round, w, j, s));
          let mut ops = vec![Op::Ls { dir: ".".into(), out: out.clone() }];
          let coe = r.chance(2, 3);
          // is it executed? (a failed step only lets steps through that go on)
          let on = (conditions && r.chance(if s == 0 { 60 } else { 20 }, 100)).then(|| r.chance(3, 4));
          let executed = (!dead || coe) && on != Some(true);
          left_out += (on == Some(true)) as u64;
          if executed {
            checks.push(Check {
              out,
              want: t.clone(),
              what: format!("round {} step {}/{}/{}", round, wid, key, s),
              unless: cancelled.then(|| key.clone()),
            });
          }
          if executed && first && !finals.is_empty() {
            // the files of a finished job stay while the workflow runs
            let (k, ft) = r.pick(&finals).clone();
            let o = g.out(&format!("peer-{}-{}-{}", round, w, j));
            ops.push(Op::Ls { dir: dir.join(&k).join("data").to_string_lossy().to_string(), out: o.clone() });
            checks.push(Check { out: o, want: ft, what: format!("round {} files of finished job {}/{}", round, wid, k), unless: Some(if cancelled { "*".into() } else { k }) });
          }
          first &= !executed;
          let mut scratch = t.clone();
          ops.extend(file_ops(&mut r, &mut scratch, &outside.to_string_lossy()));
          if executed {
            t = scratch;
          }
          let mut timeout = None;
          match r.below(10) {
            0..=5 => {}
            6..=8 => {
              ops.push(Op::Exit(3));
              dead |= executed;
            }
            _ => {
              // killed by its timeout, long after its file operations are done
              let done = g.out(&format!("done-{}-{}-{}-{}", round, w, j, s));
              ops.push(Op::Mark(done.clone()));
              if executed {
                timed.push(done);
              }
              ops.push(Op::Beat { path: g.out(&format!("beat-{}-{}-{}-{}", round, w, j, s)), every: 20, n: 3000 });
              timeout = Some("1500ms");
              dead |= executed;
            }
          }
          let script = g.script(&mut r, &format!("s-{}-{}-{}-{}", round, w, j, s), &ops);
          let mut m = serde_json::Map::new();
          m.insert("run".into(), json!(script));
          if r.chance(2, 3) {
            m.insert("container".into(), json!(host_name(&mut r)));
          }
          if coe {
            m.insert("continue-on-error".into(), json!(true));
          }
          if let Some(no) = on {
            m.insert("on".into(), json!({"push": {"branches": [if no { "another" } else { "main" }]}}));
          }
          if let Some(t) = timeout {
            m.insert("timeout".into(), json!(t));
          }
          steps.push(Value::Object(m));
        }
        let mut m = serde_json::Map::new();
        m.insert("steps".into(), json!(steps));
        if j > 0 {
          // one after the other, so that finished jobs exist
          m.insert("depends-on".into(), json!([last]));
        }
        jobs.insert(key.clone(), Value::Object(m));
        if cancelled {
          cancel = Some((key.clone(), r.below(300)));
        }
        last = key.clone();
        if !first {
          finals.push((key, t));
        }
      }
      let text = serde_yaml::to_string(&json!({"jobs": jobs})).unwrap();
      texts.push(text.clone());
      runs.push((wid.clone(), text, event.map(|(o, p)| TriggerEvent { sha: sha.clone(), ..trigger(o, p) }), dir, cancel));
    }
    let timed_out = texts.iter().filter(|t| t.contains("1500ms")).count() as u64;
    let (astro2, runs2) = (astro.clone(), runs.iter().map(|(a, b, c, _, e)| (a.clone(), b.clone(), c.clone(), e.clone())).collect::<Vec<_>>());
    let results: Vec<std::result::Result<(WorkflowRunResult, bool, bool), String>> = rt.block_on(async move {
      let mut hs = vec![];
      for (id, text, event, cancel) in runs2 {
        let astro = astro2.clone();
        hs.push(tokio::spawn(async move {
          let wf = Workflow::builder().id(id.clone()).config(text).build(&astro).await.map_err(|e| format!("build: {}", e))?;
          let mut b = astro.execution_context();
          if let Some(e) = event {
            b = b.event(e);
          }
          let c = b.build();
          let a2 = astro.clone();
          let cj = cancel.clone();
          let id2 = id.clone();
          let canceller = tokio::spawn(async move {
            let Some((job, ms)) = cj else { return false };
            tokio::time::sleep(Duration::from_millis(ms)).await;
            a2.cancel_job(&JobId::new(id2, job)).is_ok()
          });
          let mut h = tokio::spawn(async move { wf.run(c).await });
          let begin = Instant::now();
          let res = loop {
            match tokio::time::timeout(Duration::from_millis(300), &mut h).await {
              Ok(r) => break r.map_err(|e| e.to_string())?,
              Err(_) => {
                progress();
                if begin.elapsed() > Duration::from_secs(60) {
                  return Err(if idle().await { "hang".into() } else { "slow".into() });
                }
              }
            }
          };
          Ok((res, canceller.await.unwrap_or(false), cancel.is_some()))
        }));
      }
      let mut v = vec![];
      for h in hs {
        v.push(h.await.unwrap_or_else(|e| Err(e.to_string())));
      }
      v
    });
    let detail = json!({"workflows": runs.iter().map(|(i, t, e, _, c)| json!({"id": i, "config": t, "event": e, "cancel": c})).collect::<Vec<_>>(), "results": results.iter().map(|r| format!("{:?}", r).chars().take(600).collect::<String>()).collect::<Vec<_>>()});
    for ((id, _, _, dir, _), res) in runs.iter().zip(&results) {
      match res {
        Err(e) if e == "hang" => case.fail(format!("workflow {} does not end", id), detail.clone()),
        Err(e) => case.inconclusive(format!("workflow {}: {}", id, e)),
        Ok((res, _, _)) => {
          case.count(&format!("workflows_{:?}", res.state).to_lowercase(), 1);
          sig = mix(sig ^ hash_str(3, &format!("{:?}", res.jobs.iter().map(|(k, j)| (k.clone(), j.steps.iter().map(|s| s.state.clone()).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>())));
          if std::fs::symlink_metadata(dir).is_ok() {
            case.fail(format!("{} is still there after workflow {} has completed ({:?})", dir.display(), id, res.state), json!({"left": tree_value(dir), "case": detail}));
            return;
          }
        }
      }
    }
    if results.iter().any(|r| r.is_err()) {
      return;
    }
    let any_cancelled = results.iter().any(|r| matches!(r, Ok((_, true, _))));
    if !any_cancelled && timed.iter().any(|t| std::fs::metadata(t).is_err()) {
      case.inconclusive("a step was timed out before it was done with its files");
      return;
    }
    for ck in &checks {
      let touched = ck.unless.as_ref().is_some();
      if touched && results.iter().any(|r| matches!(r, Ok((_, true, _)))) {
        continue;
      }
      match std::fs::read_to_string(&ck.out).ok().and_then(|t| serde_json::from_str::<Tree>(&t).ok()) {
        Some(got) => {
          case.count("listings", 1);
          if got.len() > 1 {
            case.count("listings_with_files", 1);
          }
          if got != ck.want {
            case.fail(format!("{}: the directory holds {:?} and should hold {:?}", ck.what, got, ck.want), detail.clone());
            return;
          }
        }
        None if results.iter().any(|r| matches!(r, Ok((_, true, _)))) => {}
        None => {
          case.fail(format!("{}: no listing, the step was not executed", ck.what), detail.clone());
          return;
        }
      }
    }
    case.count("steps_timed_out", timed_out);
    case.count("steps_left_out", left_out);
    if round == 0 {
      sample = json!({"config": texts[0].chars().take(1500).collect::<String>()});
    }
    // nothing else was touched
    let mut now = Tree::new();
    for (k, n) in puppet::tree(&wd) {
      if n != Node::Dir {
        now.insert(wd.join(&k).to_string_lossy().to_string(), n);
      }
    }
    if now != keep {
      let gone: Vec<_> = keep.keys().filter(|k| !now.contains_key(*k)).collect();
      let left: Vec<_> = now.keys().filter(|k| !keep.contains_key(*k)).collect();
      case.fail(format!("files outside of the workflows: gone {:?}, left over {:?}", gone, left), detail.clone());
      return;
    }
    let o = puppet::tree(&outside);
    if o.len() != 3 {
      case.fail(format!("files behind a link were changed: {:?}", o), detail.clone());
      return;
    }
    case.count("workflows", n as u64);
  }
  case.nontrivial(sig);
  case.evals(1);
  case.sample(|| sample);
}

fn tree_value(dir: &Path) -> Value {
  json!(puppet::tree(dir).iter().take(20).map(|(k, n)| format!("{} {:?}", k, n)).collect::<Vec<_>>())
}

// ------------------------------------------------------------------ signals

#[derive(Clone, Debug, PartialEq)]
enum Sig {
  None,
  Before,
  /// once the command is known to be running, plus so many ms
  Running(u64),
  /// so many ms after the call
  At(u64),
}

struct Sent {
  at: Option<Instant>,
  ok: bool,
}

fn raise(s: &AstroRunSignal, timeout: bool) -> bool {
  if timeout { s.timeout() } else { s.cancel() }.is_ok()
}

async fn raiser(signal: AstroRunSignal, timeout: bool, how: Sig, started: String) -> Sent {
  match how {
    Sig::None | Sig::Before => return Sent { at: None, ok: false },
    Sig::Running(ms) => {
      let begin = Instant::now();
      while std::fs::metadata(&started).is_err() {
        tokio::time::sleep(Duration::from_millis(3)).await;
        progress();
        if begin.elapsed() > Duration::from_secs(60) {
          return Sent { at: None, ok: false };
        }
      }
      tokio::time::sleep(Duration::from_millis(ms)).await;
    }
    Sig::At(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
  }
  let ok = raise(&signal, timeout);
  Sent { at: Some(Instant::now()), ok }
}

fn stopped_result(timeout: bool, r: &Option<RunResult>) -> bool {
  match r {
    Some(RunResult::Cancelled) => !timeout,
    Some(RunResult::Failed { exit_code }) => timeout && *exit_code != 0,
    _ => false,
  }
}

pub fn h04(case: &mut Case) {
  let mut r = case.rng.clone();
  let g = Ground::new(case);
  let runner = Arc::new(AstroRunner::builder().working_directory(g.wd()).build().unwrap());
  let n = 1 + r.us(4);
  struct S {
    ctx: Context,
    timeout: bool,
    how: Sig,
    started: String,
    beats: Vec<String>,
    /// ends by itself with this
    own: Option<i32>,
  }
  let mut steps = vec![];
  for i in 0..n {
    let started = g.out(&format!("started{}", i));
    let mut beats = vec![];
    let mut ops = vec![];
    let mut beat = |r: &mut Rng| {
      let p = g.out(&format!("beat{}-{}", i, beats.len()));
      beats.push(p.clone());
      Op::Beat { path: p, every: 5 + r.below(20), n: 4000 }
    };
    if r.chance(1, 3) {
      ops.push(Op::Stubborn);
    }
    for _ in 0..r.below(3) {
      let mut sub = vec![];
      if r.chance(1, 2) {
        sub.push(Op::Stubborn);
      }
      if r.chance(1, 3) {
        sub.push(Op::Fork { ops: vec![beat(&mut r)], null: r.chance(1, 2) });
      }
      sub.push(beat(&mut r));
      ops.push(Op::Fork { ops: sub, null: r.chance(1, 2) });
    }
    let race = r.chance(1, 4);
    let how = match r.below(8) {
      0 | 1 => Sig::Before,
      2 => Sig::At(r.below(10)),
      3 => Sig::None,
      _ => Sig::Running(r.below(60)),
    };
    let own = (race || how == Sig::None).then(|| r.below(3) as i32);
    if r.chance(1, 2) {
      ops.push(Op::Write { fd: 1, data: b"running\n".to_vec(), n: 1 + r.below(200) });
    }
    ops.push(Op::Mark(started.clone()));
    match own {
      Some(code) => {
        // the children must not keep the step open
        ops.retain(|o| !matches!(o, Op::Fork { .. }));
        beats.clear();
        ops.push(Op::Sleep(r.below(40)));
        ops.push(Op::Exit(code));
      }
      None => {
        if r.chance(1, 4) {
          ops.push(Op::Close(1));
        }
        if r.chance(1, 4) {
          ops.push(Op::Close(2));
        }
        ops.push(beat(&mut r));
      }
    }
    let mut script = g.script(&mut r, &format!("s{}", i), &ops);
    if own.is_none() && r.chance(1, 5) {
      // a plain shell script instead
      let p = g.out(&format!("beat{}-sh", i));
      script = format!("echo x >> {}\ntrap '' TERM INT HUP\nwhile :; do printf . >> {}; sleep 0.02; done", started, p);
      beats = vec![p];
    }
    let mut c = ctx(StepId::new("wf", format!("j{}", i), 0), script, container(host_name(&mut r)), None);
    for k in 0..few(&mut r, 5, 40) {
      c.command.environments.insert(format!("VHE_{}", k), EnvironmentVariable::String(r.ident(5)));
    }
    steps.push(S { ctx: c, timeout: r.chance(1, 2), how, started, beats, own });
  }
  let outs: Vec<(Out, Sent)> = rt(&mut r).block_on(async {
    let mut hs = vec![];
    for s in &steps {
      if s.how == Sig::Before {
        raise(&s.ctx.signal, s.timeout);
      }
      let d = tokio::spawn(drive(runner.clone(), s.ctx.clone(), Duration::from_secs(12), |_| {}));
      let w = tokio::spawn(raiser(s.ctx.signal.clone(), s.timeout, s.how.clone(), s.started.clone()));
      hs.push((d, w));
    }
    let mut v = vec![];
    for (d, w) in hs {
      v.push((d.await.expect("driver"), w.await.expect("raiser")));
    }
    v
  });
  std::thread::sleep(Duration::from_millis(250));
  progress();
  let size = |p: &String| std::fs::metadata(p).map(|m| m.len()).unwrap_or(0);
  let before: Vec<Vec<u64>> = steps.iter().map(|s| s.beats.iter().map(size).collect()).collect();
  std::thread::sleep(Duration::from_millis(250));
  let after: Vec<Vec<u64>> = steps.iter().map(|s| s.beats.iter().map(size).collect()).collect();
  let mut sig = 0;
  for (i, (s, (o, sent))) in steps.iter().zip(&outs).enumerate() {
    let d = json!({"signal": format!("{:?}", s.how), "timeout": s.timeout, "script": s.ctx.command.run, "result": format!("{:?}", o.result), "own": s.own,
      "plan": std::fs::read_to_string(g.dir.join("plans").join(format!("s{}", i))).unwrap_or_default()});
    let what = format!("step {} ({}, {:?})", i, if s.timeout { "timeout" } else { "cancel" }, s.how);
    sig = mix(sig ^ hash_str(4, &format!("{:?}{:?}{}{:?}{}", s.how, o.result, s.timeout, s.own, s.beats.len())));
    if let Some(e) = &o.refused {
      case.fail(format!("{}: the runner refused the step: {}", what, e), d);
      return;
    }
    if o.hang {
      case.fail(format!("{}: the step does not end after its signal", what), d);
      return;
    }
    if o.inconclusive {
      case.inconclusive("slow step");
      continue;
    }
    let signalled = s.how == Sig::Before || sent.ok;
    let by_signal = stopped_result(s.timeout, &o.result);
    let by_itself = s.own.is_some_and(|c| o.result == Some(if c == 0 { RunResult::Succeeded } else { RunResult::Failed { exit_code: c } }));
    if s.how == Sig::Before {
      case.count("signals_before_start", 1);
      if !by_signal {
        case.fail(format!("{}: the step ended as {:?}", what, o.result), d);
        return;
      }
      if std::fs::metadata(&s.started).is_ok() {
        case.fail(format!("{}: the command was started although the signal came before", what), d);
        return;
      }
    } else if signalled {
      let late = match (sent.at, o.ended) {
        (Some(a), Some(e)) => e.saturating_duration_since(a),
        _ => Duration::ZERO,
      };
      case.max("ms_to_end_after_signal", late.as_millis() as u64);
      if s.own.is_none() {
        case.count("stopped_while_running", 1);
      } else {
        case.count("signal_close_to_the_end", 1);
      }
      if !by_signal && !by_itself {
        case.fail(format!("{}: the step ended as {:?}", what, o.result), d);
        return;
      }
    } else if !by_itself && s.own.is_some() {
      case.fail(format!("{}: the command exits with {:?}, the step ended as {:?}", what, s.own, o.result), d);
      return;
    }
    // nothing goes on
    for (k, (b, a)) in before[i].iter().zip(&after[i]).enumerate() {
      case.count("processes_checked", 1);
      if a > b {
        case.fail(format!("{}: process {} of the step goes on after the step has ended", what, k), d);
        return;
      }
    }
  }
  if let Some(p) = g.processes().into_iter().find(|p| running(*p)) {
    // every step has ended: no process of theirs may be left
    std::thread::sleep(Duration::from_millis(500));
    if running(p) && outs.iter().all(|(o, _)| !o.inconclusive) {
      case.fail(format!("process {} of a step is still running after all steps have ended", p), json!({"steps": steps.iter().map(|s| s.ctx.command.run.clone()).collect::<Vec<_>>()}));
    }
  }
  case.nontrivial(sig);
  case.evals(1);
  case.sample(|| json!({"steps": steps.iter().zip(&outs).map(|(s, (o, _))| format!("{:?} timeout={} -> {:?}", s.how, s.timeout, o.result)).collect::<Vec<_>>()}));
}

// ------------------------------------------------------------------ containers

/// Text that would do something if a shell looked at it.
fn hostile(r: &mut Rng, canary: &str) -> String {
  let s = match r.below(9) {
    // special at the beginning of a word, or as a word
    8 => {
      let rest = r.ident(3);
      format!("{}{}", r.pick(&["~", "~/", "#", "*", "?", "!", "{a,b}", "[a-z]", "&", "|", ">", "<", "(", ")", "\t", " ", "%", "^", "="]), if r.chance(1, 2) { rest } else { String::new() })
    }
    0 => format!("$(touch {})", canary),
    1 => format!("`touch {}`", canary),
    2 => format!("; touch {};", canary),
    3 => format!("\" && touch {} && \"", canary),
    4 => format!("' ; touch {} '", canary),
    5 => "$HOME ${PATH} ~ \\n \\".into(),
    6 => format!("a\ntouch {}\n", canary),
    _ => r.text(6),
  };
  s.replace('\0', "")
}

/// A name usable as one path component and one part of a volume.
fn component(r: &mut Rng, canary_name: &str) -> String {
  let s = if r.chance(1, 3) { hostile(r, canary_name) } else { r.ident(6) };
  let s: String = s.replace(['/', ':'], "_");
  let s = s.trim_matches('.').to_string();
  if s.is_empty() || s.starts_with('-') {
    format!("n{}", s)
  } else {
    s
  }
}

pub fn h05(case: &mut Case) {
  let mut r = case.rng.clone();
  let g = Ground::new(case);
  let runner = Arc::new(AstroRunner::builder().working_directory(g.wd()).build().unwrap());
  // wherever a shell would run: in the worker's directory or in a step's
  let canary = g.dir.join("canary").to_string_lossy().to_string();
  let n = 1 + r.us(3);
  struct S {
    ctx: Context,
    host: bool,
    out: String,
    body: String,
  }
  let mut steps = vec![];
  for i in 0..n {
    let out = g.out(&format!("dump{}", i));
    let ops = vec![Op::Dump(out.clone()), Op::Write { fd: 1, data: b"done\n".to_vec(), n: 1 }];
    let mut body = g.script(&mut r, &format!("s{}", i), &ops);
    if r.chance(1, 3) {
      body = format!("#!/bin/sh{}\n{}", r.pick(&["", " -e", "\n# comment $(x)"]), body);
    }
    if r.chance(1, 4) {
      body = format!("{}\n# {}", body, r.text(20).replace(['\n', '\r'], " "));
    }
    if r.chance(1, 8) {
      body = format!("{}{}", r.pick(&["\n", " ", "\n\n\t", "# x\n", "\n#\n"]), body);
    }
    let host = r.chance(1, 5);
    if !host && r.chance(1, 6) {
      // too long to be written at once (and for an argument of a host shell)
      body = format!("{}\n# {}", body, "p".repeat(r.range(100_000, 3_000_000) as usize));
    }
    let event = r.chance(1, 2).then(|| trigger(&component(&mut r, "canary"), &component(&mut r, "canary")));
    let id = StepId::new(format!("{}{}", component(&mut r, "canary"), i), component(&mut r, "canary"), r.us(4));
    let name = if host {
      Some(host_name(&mut r))
    } else {
      match r.below(6) {
        0 => None,
        1 => Some(r.pick(&["host/windows", "host/linux-riscv", "host", "host/", "linux", "HOST/linux", "host/linux "]).to_string()),
        2 => Some({
          let h = hostile(&mut r, &canary);
          if h.is_empty() || h.starts_with('-') { format!("i{}", h) } else { h }
        }),
        _ => Some(r.pick(&["alpine", "ghcr.io/a/b:1.2@sha256:00", "registry:5000/x"]).to_string()),
      }
    };
    let opt = name.map(|name| ContainerOptions {
      name,
      volumes: r.chance(1, 2).then(|| {
        (0..few(&mut r, 4, 40))
          .map(|k| {
            let side = |r: &mut Rng| {
              let t = if r.chance(1, 2) { hostile(r, &canary) } else { format!("/{}", r.ident(6)) };
              t.replace(':', "_")
            };
            format!("/v{}{}:/{}", k, side(&mut r), side(&mut r))
          })
          .collect::<Vec<_>>()
      }).map(|mut vs| {
        // one directory at two places, two at one place, and the same twice
        if !vs.is_empty() && r.chance(1, 3) {
          let v = r.pick(&vs).clone();
          let (from, to) = v.split_once(':').unwrap();
          vs.push(match r.below(4) {
            0 => format!("/another:{}", to),
            1 => v.clone(),
            _ => format!("{}:/another", from),
          });
          r.shuffle(&mut vs);
        }
        vs
      }),
      security_opts: r.chance(1, 2).then(|| (0..r.below(4)).map(|k| match r.below(4) {
        0 | 1 => format!("s{}={}", k, hostile(&mut r, &canary)),
        2 => hostile(&mut r, &canary),
        _ => "seccomp=unconfined".into(),
      }).collect()),
    });
    let mut c = ctx(id, body.clone(), opt, event);
    for _ in 0..few(&mut r, 5, 60) {
      let k = match r.below(10) {
        0 => format!("{}{}", r.ident(3), hostile(&mut r, &canary).replace('=', "_")),
        _ => format!("VHE_{}", r.ident(6).replace('-', "_")),
      };
      let v = match r.below(6) {
        0 => EnvironmentVariable::Number(crate::rng::number(&mut r).0),
        1 => EnvironmentVariable::Boolean(r.chance(1, 2)),
        2 => EnvironmentVariable::String(String::new()),
        _ => EnvironmentVariable::String(hostile(&mut r, &canary)),
      };
      // for the host only names a shell passes on
      if !host || k.starts_with("VHE_") {
        c.command.environments.insert(k, v);
      }
    }
    steps.push(S { ctx: c, host, out, body });
  }
  // the runner died in the middle of an earlier run of one of the steps
  if r.chance(1, 6) {
    if let Some(s) = steps.iter().find(|s| !s.host) {
      let mut c = s.ctx.clone();
      c.signal = AstroRunSignal::new();
      c.command.run = format!("#!/bin/sh\nsleep 600\n# {}\nfalse\n", "q".repeat(r.range(1, 200_000) as usize));
      let before = rt(&mut r);
      let life = AstroRunner::builder().working_directory(g.wd()).build().unwrap();
      let rx = before.block_on(async { life.run(c).await });
      let begin = Instant::now();
      while docker::running().is_empty() && begin.elapsed() < END_WITHIN {
        before.block_on(async { tokio::time::sleep(Duration::from_millis(3)).await });
        progress();
      }
      before.shutdown_timeout(Duration::from_secs(5));
      drop(rx);
      docker::abandon();
      docker::reset();
      case.count("interrupted_before", 1);
    }
  }
  // one thread for file operations, often busy: work that is not waited for comes late
  let busy = r.chance(1, 2);
  let rtm = tokio::runtime::Builder::new_multi_thread().worker_threads(2).max_blocking_threads(if busy { 1 } else { 8 }).enable_all().build().unwrap();
  let outs: Vec<Out> = rtm.block_on(async {
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut noise = vec![];
    if busy {
      for _ in 0..3 {
        let stop = stop.clone();
        noise.push(tokio::spawn(async move {
          while !stop.load(std::sync::atomic::Ordering::Relaxed) {
            tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_millis(4))).await.ok();
          }
        }));
      }
    }
    let mut hs = vec![];
    for s in &steps {
      hs.push(tokio::spawn(drive(runner.clone(), s.ctx.clone(), END_WITHIN, |_| {})));
    }
    let mut v = vec![];
    for h in hs {
      v.push(h.await.expect("driver"));
    }
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    for n in noise {
      n.await.ok();
    }
    v
  });
  let calls = docker::runs();
  let mut sig = 0;
  if calls.len() != steps.iter().filter(|s| !s.host).count() {
    case.fail(
      format!("{} container steps, docker was run {} times", steps.iter().filter(|s| !s.host).count(), calls.len()),
      json!({"calls": calls, "steps": steps.iter().map(|s| json!({"command": short(&s.ctx), "host": s.host})).collect::<Vec<_>>(), "outs": outs.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>()}),
    );
    return;
  }
  if !docker::kills().is_empty() {
    case.fail(format!("unexpected docker calls {:?}", docker::kills()), json!({}));
    return;
  }
  for (s, o) in steps.iter().zip(&outs) {
    case.count(if s.host { "host_steps" } else { "container_steps" }, 1);
    let d = json!({"command": short(&s.ctx), "lines": o.lines.iter().take(5).collect::<Vec<_>>(), "result": format!("{:?}", o.result)});
    if o.inconclusive {
      case.inconclusive("slow step");
      continue;
    }
    if o.hang {
      case.fail("a step does not end", d);
      return;
    }
    let dumped = std::fs::metadata(&s.out).is_ok();
    if !dumped || o.result != Some(RunResult::Succeeded) {
      case.fail(format!("the script of the step was not executed as a whole: {:?}", o.result), json!({"step": d, "calls": calls}));
      return;
    }
    if s.host {
      continue;
    }
    let mut base = g.wd();
    if let Some(e) = &s.ctx.event {
      base = base.join(&e.repo_owner).join(&e.repo_name);
    }
    let id = &s.ctx.id;
    let job = base.join(id.workflow_id().inner()).join(id.job_key());
    let name = format!("{}-{}-{}", id.workflow_id().inner(), id.job_key(), id.step_number());
    let Some(c) = calls.iter().find(|c| c.names == vec![name.clone()]) else {
      case.fail(format!("no docker call is named {:?}", name), json!({"step": d, "calls": calls}));
      return;
    };
    sig = mix(sig ^ hash_str(5, &format!("{}{}{}{}{}", c.argv.len(), c.volumes.len(), c.envs.len(), c.security.len(), c.image)));
    let opt = s.ctx.command.container.clone();
    let sorted = |mut v: Vec<String>| {
      v.sort();
      v
    };
    let mut bad = vec![];
    if !c.bad.is_empty() || !c.rest.is_empty() {
      bad.push(format!("arguments that are nothing configured: {:?} {:?}", c.bad, c.rest));
    }
    let image = opt.as_ref().map(|o| o.name.clone()).unwrap_or("ubuntu".into());
    if c.image != image {
      bad.push(format!("image {:?} instead of {:?}", c.image, image));
    }
    let envs = sorted(s.ctx.command.environments.iter().map(|(k, v)| format!("{}={}", k, env_text(v))).collect());
    if sorted(c.envs.clone()) != envs {
      bad.push(format!("variables {:?} instead of {:?}", c.envs, envs));
    }
    let sec = sorted(opt.as_ref().and_then(|o| o.security_opts.clone()).unwrap_or_default());
    if sorted(c.security.clone()) != sec {
      bad.push(format!("security options {:?} instead of {:?}", c.security, sec));
    }
    // the configured volumes, and exactly the runner's three
    let mut rest = c.volumes.clone();
    for v in opt.as_ref().and_then(|o| o.volumes.clone()).unwrap_or_default() {
      match rest.iter().position(|x| *x == v) {
        Some(p) => {
          rest.remove(p);
        }
        None => bad.push(format!("volume {:?} is not passed", v)),
      }
    }
    let entry = c.entrypoints.last().cloned().unwrap_or_default();
    let work = c.workdirs.last().cloned().unwrap_or_default();
    let own = sorted(vec![
      format!("{}:{}", job.join(id.step_number().to_string()).join("entrypoint").display(), entry),
      format!("{}:{}", job.join("data").display(), work),
      format!("{}:/home/work/caches", base.join("caches").display()),
    ]);
    if sorted(rest.clone()) != own {
      bad.push(format!("volumes of the runner {:?} instead of {:?}", rest, own));
    }
    if c.entrypoints.len() != 1 || c.workdirs.len() != 1 {
      bad.push(format!("entrypoints {:?}, directories {:?}", c.entrypoints, c.workdirs));
    }
    if !c.flags.iter().any(|f| f == "--rm") {
      bad.push(format!("the container is not removed when it ends: {:?}", c.flags));
    }
    let script = c.script.clone().unwrap_or_default();
    let ok = if s.body.starts_with("#!") {
      script == s.body.as_bytes()
    } else {
      script.starts_with(b"#!") && script.iter().position(|b| *b == b'\n').is_some_and(|p| &script[p + 1..] == s.body.as_bytes())
    };
    if !ok {
      bad.push(format!("the entrypoint holds {} bytes and not the script of {} bytes", script.len(), s.body.len()));
    }
    if !c.executable {
      bad.push("the entrypoint is not executable".into());
    }
    if !bad.is_empty() {
      case.fail(format!("docker run: {}", bad.join("; ").chars().take(1500).collect::<String>()), json!({"step": d, "call": c.argv}));
      return;
    }
    case.count("options_checked", (c.envs.len() + c.volumes.len() + c.security.len()) as u64);
  }
  if let Some(p) = find_canary(&shard_dir()) {
    case.fail(format!("configured text was executed by a shell: {} exists", p.display()), json!({"steps": steps.iter().map(|s| short(&s.ctx)).collect::<Vec<_>>()}));
    std::fs::remove_file(&p).ok();
    return;
  }
  case.nontrivial(sig);
  case.evals(1);
  case.sample(|| json!({"argv": calls.first().map(|c| c.argv.clone())}));
}

/// mostly below n, now and then up to m
fn few(r: &mut Rng, n: u64, m: u64) -> u64 {
  let top = if r.chance(1, 8) { m } else { n };
  r.below(top)
}

fn short(c: &Context) -> Value {
  let mut v = serde_json::to_value(&c.command).unwrap();
  if c.command.run.len() > 500 {
    v["run"] = json!(format!("{} bytes", c.command.run.len()));
  }
  v
}

fn find_canary(dir: &Path) -> Option<PathBuf> {
  for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
    let k = e.file_type().ok()?;
    if e.file_name() == "canary" && k.is_file() {
      return Some(e.path());
    }
    if k.is_dir() && e.file_name() != "plans" {
      if let Some(p) = find_canary(&e.path()) {
        return Some(p);
      }
    }
  }
  None
}

pub fn h06(case: &mut Case) {
  let mut r = case.rng.clone();
  let g = Ground::new(case);
  let runner = Arc::new(AstroRunner::builder().working_directory(g.wd()).plugin(After { g: g.dir.clone(), wd: g.wd(), evs: Default::default() }).build().unwrap());
  let n = 1 + r.us(4);
  // ids that are alike over a long part, or in all but their end
  let long = r.chance(1, 3);
  let wf = if long { format!("wf{}", "-of-some-length".repeat(r.us(3))) } else { r.pick(&["wf", "wf", "wF", "WF_1.x"]).to_string() };
  struct S {
    ctx: Context,
    timeout: bool,
    how: Sig,
    started: String,
    e: Option<Expect>,
    ops: Vec<Op>,
    name: String,
    private: PathBuf,
  }
  let mut steps: Vec<S> = vec![];
  for i in 0..n {
    let started = g.out(&format!("started{}", i));
    let how = match r.below(8) {
      0 | 1 => Sig::Before,
      2..=4 => Sig::Running(r.below(40)),
      _ => Sig::None,
    };
    let (ops, e) = if how == Sig::None {
      let (ops, mut e) = loop {
        let w = writer(&mut r, &mut vec![]);
        // a container ends with its first process
        if !w.0.iter().any(|o| matches!(o, Op::Fork { .. })) {
          break w;
        }
      };
      // a killed container reports 128 + signal, which is not this runner's business
      let ops: Vec<Op> = settle(ops, &mut e, &g.out("late"), &mut r).into_iter().filter(|o| !matches!(o, Op::Kill(_))).collect();
      e.killed = false;
      (ops, Some(e))
    } else {
      let mut ops = vec![];
      if r.chance(1, 2) {
        ops.push(Op::Stubborn);
      }
      ops.push(Op::Write { fd: 1, data: b"up\n".to_vec(), n: 1 });
      ops.push(Op::Mark(started.clone()));
      ops.push(Op::Beat { path: g.out(&format!("beat{}", i)), every: 10, n: 4000 });
      (ops, None)
    };
    let body = g.script(&mut r, &format!("s{}", i), &ops);
    let event = r.chance(1, 3).then(|| trigger("o", "r"));
    let key = if long { "the-key-of-a-job-".repeat(1 + r.us(3)) } else { r.pick(&["j", "j 1", "j$1", "J_x.", "Job"]).to_string() };
    let id = StepId::new(wf.clone(), format!("{}{}", key, if r.chance(1, 2) { i } else { i * 10 }), r.us(3));
    let mut base = g.wd();
    if event.is_some() {
      base = base.join("o/r");
    }
    let private = base.join(&wf).join(id.job_key()).join(id.step_number().to_string());
    let name = format!("{}-{}-{}", wf, id.job_key(), id.step_number());
    if steps.iter().any(|s| s.name == name) {
      continue;
    }
    let c = ctx(id, body, r.chance(2, 3).then(|| container("alpine").unwrap()), event);
    steps.push(S { ctx: c, timeout: r.chance(1, 2), how, started, e, ops, name, private });
  }
  let outs: Vec<(Out, Sent)> = rt(&mut r).block_on(async {
    let mut hs = vec![];
    for s in &steps {
      if s.how == Sig::Before {
        raise(&s.ctx.signal, s.timeout);
      }
      let d = tokio::spawn(drive(runner.clone(), s.ctx.clone(), END_WITHIN, |_| {}));
      let w = tokio::spawn(raiser(s.ctx.signal.clone(), s.timeout, s.how.clone(), s.started.clone()));
      hs.push((d, w));
    }
    let mut v = vec![];
    for (d, w) in hs {
      v.push((d.await.expect("driver"), w.await.expect("raiser")));
    }
    // private files are removed when the steps have ended, at the latest before their after-run hooks
    let begin = Instant::now();
    while begin.elapsed() < Duration::from_secs(10) && steps.iter().any(|s| s.private.exists()) {
      tokio::time::sleep(Duration::from_millis(10)).await;
      progress();
    }
    v
  });
  let runs = docker::runs();
  let kills = docker::kills();
  let all = json!({"runs": runs.iter().map(|c| c.argv.clone()).collect::<Vec<_>>(), "kills": kills, "steps": steps.iter().zip(&outs).map(|(s, (o, _))| json!({"name": s.name, "signal": format!("{:?}", s.how), "timeout": s.timeout, "result": format!("{:?}", o.result)})).collect::<Vec<_>>()});
  let mut sig = 0;
  for (s, (o, sent)) in steps.iter().zip(&outs) {
    let what = format!("container step {} ({:?})", s.name, s.how);
    sig = mix(sig ^ hash_str(6, &format!("{:?}{:?}{}{}", s.how, o.result, s.timeout, o.lines.len())));
    if o.inconclusive {
      case.inconclusive("slow step");
      continue;
    }
    if o.hang {
      case.fail(format!("{}: the step does not end", what), all.clone());
      return;
    }
    let run = runs.iter().filter(|c| c.names == vec![s.name.clone()]).count();
    let killed = kills.iter().filter(|k| **k == vec!["kill".to_string(), s.name.clone()]).count();
    match &s.e {
      Some(e) => {
        case.count("ended_by_themselves", 1);
        judge_output(case, &what, e, o, &json!({"plan": compact_ops(&s.ops), "all": all}));
        if case.failed() {
          return;
        }
        if killed != 0 || run != 1 {
          case.fail(format!("{}: docker run {} times, killed {} times", what, run, killed), all.clone());
          return;
        }
      }
      None => {
        if s.how == Sig::Before {
          case.count("signals_before_start", 1);
          if run != 0 {
            case.fail(format!("{}: docker was started", what), all.clone());
            return;
          }
        } else if !sent.ok {
          case.fail(format!("{}: the container was never started ({:?} {:?})", what, o.result, o.lines), all.clone());
          return;
        } else {
          case.count("killed_containers", 1);
          if killed == 0 || run != 1 {
            case.fail(format!("{}: docker run {} times, killed {} times", what, run, killed), all.clone());
            return;
          }
          if let (Some(a), Some(e)) = (sent.at, o.ended) {
            case.max("ms_to_end_after_signal", e.saturating_duration_since(a).as_millis() as u64);
          }
        }
        if !stopped_result(s.timeout, &o.result) {
          case.fail(format!("{}: the step ended as {:?} on {}", what, o.result, if s.timeout { "timeout" } else { "cancel" }), all.clone());
          return;
        }
      }
    }
    if s.private.exists() {
      case.fail(format!("{}: its private directory {} is left", what, s.private.display()), all.clone());
      return;
    }
  }
  let names: Vec<&String> = steps.iter().filter(|s| s.e.is_none() && s.how != Sig::Before).map(|s| &s.name).collect();
  if let Some(k) = kills.iter().find(|k| k.len() != 2 || (!names.contains(&&k[1]) && !steps.iter().any(|s| s.name == k[1] && s.how == Sig::Before))) {
    case.fail(format!("docker {:?} concerns no signalled step", k), all);
    return;
  }
  case.nontrivial(sig);
  case.evals(1);
  case.sample(|| all);
}

// ------------------------------------------------------------------ runner plugins

struct After {
  g: PathBuf,
  wd: PathBuf,
  evs: Mutex<Vec<String>>,
}

#[async_trait]
impl astro_runner::Plugin for After {
  fn name(&self) -> &'static str {
    "after"
  }
  async fn on_after_run(&self, ctx: Context) -> HookNoopResult {
    progress();
    self.evs.lock().push(ctx.id.to_string());
    let _ = (&self.g, &self.wd);
    Ok(())
  }
}

#[derive(Clone, Debug)]
struct HookEv {
  after: bool,
  plugin: usize,
  id: String,
  run: String,
  env: BTreeMap<String, String>,
  container: Option<String>,
  /// the context with all its parts
  whole: Value,
}

fn hook_ev(after: bool, plugin: usize, c: &Context) -> HookEv {
  HookEv {
    after,
    plugin,
    id: c.id.to_string(),
    run: c.command.run.clone(),
    env: c.command.environments.iter().map(|(k, v)| (k.clone(), env_text(v))).collect(),
    container: c.command.container.as_ref().map(|c| c.name.clone()),
    whole: serde_json::to_value(c).expect("context"),
  }
}

struct Watch {
  n: usize,
  seed: u64,
  evs: Arc<Mutex<Vec<HookEv>>>,
  /// steps whose reader has seen the end of the stream
  ended: Arc<Mutex<HashMap<String, bool>>>,
  late: Arc<Mutex<Vec<String>>>,
}

impl Watch {
  fn roll(&self, what: &str, id: &str) -> u64 {
    hash_str(self.seed, &format!("{} {} {}", what, self.n, id))
  }
  fn change(&self, mut c: Context) -> Context {
    let x = self.roll("change", &c.id.to_string());
    if x % 3 != 0 {
      c.command.environments.insert(format!("VHE_P{}", self.n), EnvironmentVariable::Number((x % 1000) as f64));
    }
    if x % 5 == 0 {
      c.command.environments.insert("VHE_SHARED".into(), EnvironmentVariable::String(format!("p{}", self.n)));
    }
    if x % 4 == 0 {
      c.command.run = format!("# plugin {}\n{}", self.n, c.command.run);
    }
    // elsewhere: in a container, on the host, for another repository
    let y = self.roll("more", &c.id.to_string());
    match y % 8 {
      0 => c.command.container = container(&format!("host/{}", std::env::consts::OS)),
      1 => c.command.container = container("alpine"),
      2 => c.command.container = None,
      _ => {}
    }
    match y / 8 % 8 {
      0 => c.event = Some(trigger(&format!("p{}", self.n), "r")),
      1 => c.event = None,
      _ => {}
    }
    if y / 64 % 4 == 0 {
      c.payload = Some(format!("payload {}", self.n));
      c.command.name = Some(format!("plugin {}", self.n));
      c.command.secrets.push(format!("secret {}", self.n));
      c.command.timeout += Duration::from_secs(1);
    }
    c
  }
}

#[async_trait]
impl astro_runner::Plugin for Watch {
  fn name(&self) -> &'static str {
    "watch"
  }
  async fn on_before_run(&self, ctx: Context) -> astro_run::Result<Context> {
    progress();
    let id = ctx.id.to_string();
    self.evs.lock().push(hook_ev(false, self.n, &ctx));
    tokio::time::sleep(Duration::from_millis(self.roll("delay", &id) % 4)).await;
    if self.roll("fail", &id) % 5 == 0 {
      return Err(Error::error("scripted"));
    }
    Ok(self.change(ctx))
  }
  async fn on_after_run(&self, ctx: Context) -> HookNoopResult {
    progress();
    let id = ctx.id.to_string();
    self.evs.lock().push(hook_ev(true, self.n, &ctx));
    // the step has ended: its reader gets to know that without this hook returning
    let begin = Instant::now();
    while !self.ended.lock().get(&id).copied().unwrap_or(false) {
      tokio::time::sleep(Duration::from_millis(2)).await;
      progress();
      if begin.elapsed() > Duration::from_secs(10) {
        self.late.lock().push(id);
        break;
      }
    }
    if self.roll("after", &ctx.id.to_string()) % 4 == 0 {
      return Err(Error::error("scripted"));
    }
    Ok(())
  }
}

pub fn h07(case: &mut Case) {
  let mut r = case.rng.clone();
  let g = Ground::new(case);
  let (evs, ended, late) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(HashMap::new())), Arc::new(Mutex::new(vec![])));
  let np = if r.chance(1, 10) { 12 } else { 1 + r.us(4) };
  let seed = r.next();
  let mut b = AstroRunner::builder().working_directory(g.wd());
  for n in 0..np {
    b = b.plugin(Watch { n, seed, evs: evs.clone(), ended: ended.clone(), late: late.clone() });
  }
  let runner = Arc::new(b.build().unwrap());
  let n = 1 + r.us(4);
  struct S {
    ctx: Context,
    timeout: bool,
    how: Sig,
    started: String,
    dump: String,
    kind: &'static str,
    /// executed on this host
    host: bool,
  }
  let mut steps = vec![];
  for i in 0..n {
    let started = g.out(&format!("started{}", i));
    let dump = g.out(&format!("dump{}", i));
    let how = match r.below(8) {
      0 => Sig::Before,
      1 | 2 => Sig::Running(r.below(30)),
      _ => Sig::None,
    };
    let mut kind = "ended";
    let mut ops = vec![Op::Dump(dump.clone()), Op::Mark(started.clone())];
    if how != Sig::None {
      kind = "signalled";
      ops.push(Op::Beat { path: g.out(&format!("beat{}", i)), every: 10, n: 4000 });
    } else {
      ops.push(Op::Sleep(r.below(20)));
      ops.push(Op::Exit(*r.pick(&[0, 0, 3])));
    }
    let mut body = g.script(&mut r, &format!("s{}", i), &ops);
    let host = r.chance(2, 3);
    if how == Sig::None && r.chance(1, 8) {
      // cannot be started at all
      kind = "not_startable";
      body = "echo \0".into();
    }
    let c = ctx(StepId::new("wf", format!("j{}", i), r.us(3)), body, if host { container(host_name(&mut r)) } else { None }, r.chance(1, 3).then(|| trigger("o", "r")));
    // what is executed in the end
    let id = c.id.to_string();
    let mut last = c.clone();
    for n in 0..np {
      let w = Watch { n, seed, evs: Default::default(), ended: Default::default(), late: Default::default() };
      if w.roll("fail", &id) % 5 != 0 {
        last = w.change(last);
      }
    }
    let host = last.command.container.as_ref().is_some_and(|c| c.name.starts_with("host/"));
    if !host && kind == "not_startable" {
      kind = "ended";
    }
    steps.push(S { ctx: c, host, timeout: r.chance(1, 2), how, started, dump, kind });
  }
  let outs: Vec<(Out, Sent)> = rt(&mut r).block_on(async {
    let mut hs = vec![];
    for s in &steps {
      if s.how == Sig::Before {
        raise(&s.ctx.signal, s.timeout);
      }
      let (runner, c, ended) = (runner.clone(), s.ctx.clone(), ended.clone());
      let d = tokio::spawn(async move {
        let id = c.id.to_string();
        let o = drive(runner, c, END_WITHIN, |_| {}).await;
        ended.lock().insert(id, true);
        o
      });
      let w = tokio::spawn(raiser(s.ctx.signal.clone(), s.timeout, s.how.clone(), s.started.clone()));
      hs.push((d, w));
    }
    let mut v = vec![];
    for (d, w) in hs {
      v.push((d.await.expect("driver"), w.await.expect("raiser")));
    }
    let begin = Instant::now();
    while begin.elapsed() < Duration::from_secs(15) && evs.lock().iter().filter(|e: &&HookEv| e.after).count() < np * steps.len() {
      tokio::time::sleep(Duration::from_millis(5)).await;
      progress();
    }
    tokio::time::sleep(Duration::from_millis(30)).await;
    v
  });
  let docker_runs = docker::runs();
  let evs = evs.lock().clone();
  let all = json!({"plugins": np, "events": evs.iter().take(60).map(|e| format!("{:?}", e)).collect::<Vec<_>>(), "steps": steps.iter().zip(&outs).map(|(s, (o, _))| format!("{} {} {:?} {:?}", s.ctx.id.to_string(), s.kind, s.how, o.result)).collect::<Vec<_>>()});
  if let Some(id) = late.lock().first() {
    case.fail(format!("the after-run hook of {} was called before the step had ended", id), all);
    return;
  }
  let mut sig = 0;
  for (s, (o, _)) in steps.iter().zip(&outs) {
    let id = s.ctx.id.to_string();
    case.count(s.kind, 1);
    if o.hang || o.inconclusive {
      judge_output(case, &format!("step {}", id), &Expect::default(), o, &all);
      return;
    }
    let before: Vec<&HookEv> = evs.iter().filter(|e| e.id == id && !e.after).collect();
    let after: Vec<&HookEv> = evs.iter().filter(|e| e.id == id && e.after).collect();
    let order: Vec<usize> = (0..np).collect();
    case.count("hooks", (before.len() + after.len()) as u64);
    if before.iter().map(|e| e.plugin).collect::<Vec<_>>() != order {
      case.fail(format!("before-run hooks of {} were called for plugins {:?} of {}", id, before.iter().map(|e| e.plugin).collect::<Vec<_>>(), np), all.clone());
      return;
    }
    if after.iter().map(|e| e.plugin).collect::<Vec<_>>() != order {
      case.fail(format!("after-run hooks of {} ({}) were called for plugins {:?} of {}", id, s.kind, after.iter().map(|e| e.plugin).collect::<Vec<_>>(), np), all.clone());
      return;
    }
    // the chain
    let mut c = s.ctx.clone();
    for (n, e) in before.iter().enumerate() {
      let want = hook_ev(false, n, &c);
      if want.whole != e.whole {
        case.fail(format!("plugin {} received {:?} instead of {:?}", n, e, want), all.clone());
        return;
      }
      let w = Watch { n, seed, evs: Default::default(), ended: Default::default(), late: Default::default() };
      if w.roll("fail", &id) % 5 != 0 {
        c = w.change(c);
        case.count("rewrites", 1);
      } else {
        case.count("failed_hooks", 1);
      }
    }
    for e in &after {
      let want = hook_ev(true, e.plugin, &c);
      if want.whole != e.whole {
        case.fail(format!("after-run hook received {:?} instead of {:?}", e, want), all.clone());
        return;
      }
    }
    sig = mix(sig ^ hash_str(7, &format!("{}{:?}{:?}{:?}", s.kind, s.how, o.result, evs.iter().map(|e| (e.after, e.plugin)).collect::<Vec<_>>())));
    if let Some(dump) = std::fs::read_to_string(&s.dump).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
      for (k, v) in &c.command.environments {
        if dump["env"][k] != json!(env_text(v)) {
          case.fail(format!("step {}: {} is {} instead of {}", id, k, dump["env"][k], v), all.clone());
          return;
        }
      }
      if dump["env"].as_object().unwrap().keys().any(|k| k.starts_with("VHE_") && !c.command.environments.contains_key(k)) {
        case.fail(format!("step {}: variables {} not of the last context", id, dump["env"]), all.clone());
        return;
      }
      case.count("executed", 1);
      let mut want = g.wd();
      if let Some(e) = &c.event {
        want = want.join(&e.repo_owner).join(&e.repo_name);
      }
      let want = want.join("wf").join(s.ctx.id.job_key()).join("data");
      let cwd = dump["cwd"].as_str().unwrap_or_default();
      if Path::new(cwd) != std::fs::canonicalize(&want).unwrap_or_else(|_| want.clone()) {
        case.fail(format!("step {} is executed in {} instead of {}", id, cwd, want.display()), all.clone());
        return;
      }
      let name = format!("wf-{}-{}", s.ctx.id.job_key(), s.ctx.id.step_number());
      let in_docker = docker_runs.iter().filter(|c| c.names.contains(&name)).count();
      if in_docker != if s.host { 0 } else { 1 } {
        case.fail(format!("step {} has to be executed {} and docker was run {} times for it", id, if s.host { "on the host" } else { "in a container" }, in_docker), all.clone());
        return;
      }
      case.count(if s.host { "executed_on_the_host" } else { "executed_in_containers" }, 1);
    } else if s.how == Sig::None && s.kind == "ended" && !s.ctx.command.run.contains('\0') {
      case.fail(format!("step {} was not executed: {:?}", id, o), all.clone());
      return;
    }
    if s.kind == "not_startable" && !matches!(o.result, Some(RunResult::Failed { .. })) {
      case.fail(format!("step {} cannot be started and ended as {:?}", id, o.result), all.clone());
      return;
    }
  }
  case.nontrivial(sig);
  case.evals(1);
  case.sample(|| all);
}
