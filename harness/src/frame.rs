//! Check framework: sharded worker processes, case bookkeeping, verdicts, evidence, watchdog.
use crate::rng::{hash_str, mix, Rng};
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
static ARMED: AtomicBool = AtomicBool::new(false);
static CURRENT: Mutex<Option<CaseId>> = Mutex::new(None);
static OUT: Mutex<Option<(String, String)>> = Mutex::new(None); // (property, out file)
/// Panics raised inside the code under test (location in /repo/crates), not scripted ones.
pub static CUT_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static HARNESS_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub const SCRIPTED: &str = "vh-scripted-panic";

#[derive(Clone, Debug)]
pub struct CaseId {
  pub property: String,
  pub seed: u64,
  pub idx: u64,
  pub desc: String,
}

pub fn progress() {
  PROGRESS.fetch_add(1, Ordering::Relaxed);
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".to_string()
    };
    if msg.contains(SCRIPTED) || msg.contains("it is being shutdown") {
      return;
    }
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let text = format!("{} at {}", msg, loc);
    if loc.contains("/repo/crates/") || loc.starts_with("crates/") {
      CUT_PANICS.lock().push(text);
    } else {
      eprintln!("panic outside the code under test: {}", text);
      HARNESS_PANICS.lock().push(text);
    }
  }));
}

pub fn take_cut_panics() -> Vec<String> {
  std::mem::take(&mut *CUT_PANICS.lock())
}

#[derive(Default)]
pub struct Report {
  pub evaluations: u64,
  pub distinct: HashSet<u64>,
  pub counters: BTreeMap<String, u64>,
  pub samples: Vec<Value>,
  pub violations: Vec<Value>,
  pub inconclusive: Vec<String>,
}

pub struct Case<'a> {
  pub rng: Rng,
  pub idx: u64,
  pub seed: u64,
  pub thorough: bool,
  pub property: String,
  pub report: &'a mut Report,
  failed: bool,
  pub verbose: bool,
}

impl<'a> Case<'a> {
  pub fn fail(&mut self, msg: impl Into<String>, detail: Value) {
    let msg = msg.into();
    if self.verbose {
      println!("case {} FAIL {}\n{}", self.idx, msg, serde_json::to_string_pretty(&detail).unwrap());
    }
    // keep only a few per worker
    if !self.failed || self.report.violations.len() < 3 {
      self.report.violations.push(json!({
        "property": self.property, "seed": self.seed, "case": self.idx, "message": msg, "detail": detail,
      }));
    }
    self.failed = true;
  }
  pub fn failed(&self) -> bool {
    self.failed
  }
  pub fn inconclusive(&mut self, msg: impl Into<String>) {
    let msg = msg.into();
    if self.verbose {
      println!("case {} INCONCLUSIVE {}", self.idx, msg);
    }
    if self.report.inconclusive.len() < 20 {
      self.report.inconclusive.push(msg);
    }
  }
  pub fn count(&mut self, name: &str, n: u64) {
    *self.report.counters.entry(name.to_string()).or_insert(0) += n;
  }
  pub fn max(&mut self, name: &str, n: u64) {
    let e = self.report.counters.entry(format!("max_{}", name)).or_insert(0);
    *e = (*e).max(n);
  }
  /// Record that this evaluation was non-trivial; `sig` identifies it.
  pub fn nontrivial(&mut self, sig: u64) {
    if self.report.distinct.len() < 400_000 {
      self.report.distinct.insert(sig);
    }
  }
  pub fn evals(&mut self, n: u64) {
    self.report.evaluations += n;
    progress();
  }
  pub fn sample(&mut self, f: impl FnOnce() -> Value) {
    if self.report.samples.len() < 2 {
      let v = f();
      self.report.samples.push(v);
    }
  }
  pub fn describe(&self, d: impl Into<String>) {
    if let Some(c) = CURRENT.lock().as_mut() {
      c.desc = d.into();
    }
  }
  /// Panics of the code under test since the last call become violations.
  pub fn no_cut_panics(&mut self) {
    for p in take_cut_panics() {
      self.fail(format!("code under test panicked: {}", p), json!({}));
    }
  }
}

pub struct PropDef {
  pub id: &'static str,
  pub rule: &'static str,
  pub quick_s: u64,
  pub thorough_s: u64,
  pub shards: usize,
  /// counters that must reach at least this value for a verdict "held"
  pub required: &'static [(&'static str, u64)],
  pub max_cases: u64,
  pub case: fn(&mut Case),
  /// extra args
  pub hang_is_violation: bool,
  /// run the workers as users of their own that can write nothing but a scratch directory
  pub unprivileged: bool,
  pub assumptions: &'static [&'static str],
}

fn env_u64(k: &str, d: u64) -> u64 {
  std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

// ---------------------------------------------------------------- watchdog

fn others_cpu_and_idle() -> (u64, bool) {
  let me = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
  let mut total = 0;
  let mut idle = true;
  if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
    for e in rd.flatten() {
      let tid: u64 = e.file_name().to_string_lossy().parse().unwrap_or(0);
      if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
        if let Some(p) = s.rfind(')') {
          let f: Vec<&str> = s[p + 2..].split(' ').collect();
          let cpu = f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
          if tid != me {
            total += cpu;
            if f[0] != "S" {
              idle = false;
            }
          }
        }
      }
    }
  }
  (total, idle)
}

/// True if every other thread of this process slept throughout `ms` without using processor time
/// (call from any thread; the calling thread is excluded).
pub fn process_idle_for(ms: u64) -> bool {
  let (c0, i0) = others_cpu_and_idle();
  if !i0 {
    return false;
  }
  let n = (ms / 20).max(1);
  for _ in 0..n {
    std::thread::sleep(Duration::from_millis(20));
    let (c, i) = others_cpu_and_idle();
    if !i || c != c0 {
      return false;
    }
  }
  true
}

/// Watches for a case that stops making progress. Quiescence (all threads asleep, nothing recorded)
/// for a long time is a hang of the code under test; so is a very long spin without any event.
fn watchdog(hang_is_violation: bool) {
  std::thread::spawn(move || {
    let mut last = PROGRESS.load(Ordering::Relaxed);
    let mut since = Instant::now();
    let (mut cpu0, _) = others_cpu_and_idle();
    loop {
      std::thread::sleep(Duration::from_millis(500));
      let p = PROGRESS.load(Ordering::Relaxed);
      if p != last || !ARMED.load(Ordering::Relaxed) {
        last = p;
        since = Instant::now();
        cpu0 = others_cpu_and_idle().0;
        continue;
      }
      let quiet = since.elapsed();
      let (cpu, idle) = others_cpu_and_idle();
      let spun = cpu.saturating_sub(cpu0); // ticks of 10ms
      let dead = quiet > Duration::from_secs(20) && idle && process_idle_for(3000) && PROGRESS.load(Ordering::Relaxed) == last;
      let live = spun > 9000; // 90 s of processor time in one step of one case
      if dead || live {
        let cur = CURRENT.lock().clone();
        if let Some(c) = cur {
          let kind = if dead { "no thread made progress (deadlock or lost wake-up)" } else { "endless spinning without any event" };
          let v = json!({"property": c.property, "seed": c.seed, "case": c.idx,
            "message": format!("execution hangs: {} in {}", kind, c.desc), "detail": {}});
          if let Some((_, out)) = OUT.lock().clone() {
            let r = if hang_is_violation {
              json!({"evaluations": 1, "distinct": [], "counters": {}, "samples": [], "violations": [v], "inconclusive": []})
            } else {
              json!({"evaluations": 1, "distinct": [], "counters": {}, "samples": [], "violations": [], "inconclusive": [v["message"]]})
            };
            std::fs::write(out, r.to_string()).ok();
          } else {
            println!("{}", v);
          }
        }
        std::process::exit(if hang_is_violation { 1 } else { 2 });
      }
      if quiet > Duration::from_secs(240) {
        eprintln!("watchdog: no progress for 240 s, giving up (inconclusive)");
        std::process::exit(2);
      }
    }
  });
}

// ---------------------------------------------------------------- worker

pub fn case_rng(property: &str, seed: u64, idx: u64) -> Rng {
  Rng::new(mix(hash_str(seed, property) ^ mix(idx)))
}

fn run_one(def: &PropDef, report: &mut Report, seed: u64, idx: u64, thorough: bool, verbose: bool) {
  let mut case = Case {
    rng: case_rng(def.id, seed, idx),
    idx,
    seed,
    thorough,
    property: def.id.to_string(),
    report,
    failed: false,
    verbose,
  };
  *CURRENT.lock() = Some(CaseId { property: def.id.to_string(), seed, idx, desc: String::new() });
  ARMED.store(true, Ordering::Relaxed);
  progress();
  let begun = Instant::now();
  let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (def.case)(&mut case)));
  if begun.elapsed() > Duration::from_secs(2) && std::env::var("VH_SLOW").is_ok() {
    eprintln!("slow case {} {}: {:?}", def.id, idx, begun.elapsed());
  }
  ARMED.store(false, Ordering::Relaxed);
  crate::engine::release();
  case.no_cut_panics();
  if res.is_err() && !case.failed {
    let h = std::mem::take(&mut *HARNESS_PANICS.lock());
    case.inconclusive(format!("harness panic: {:?}", h));
  }
  HARNESS_PANICS.lock().clear();
}

pub fn worker(def: &PropDef, shard: u64, shards: u64, out: &str) -> i32 {
  install_panic_hook();
  *OUT.lock() = Some((def.id.to_string(), out.to_string()));
  watchdog(def.hang_is_violation);
  let seed = env_u64("VERIF_SEED", 1);
  let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
  let budget = env_u64("VH_BUDGET_S", if thorough { def.thorough_s } else { def.quick_s });
  let max_cases = env_u64("VH_MAX_CASES", def.max_cases);
  let start = Instant::now();
  let mut report = Report::default();
  let mut idx = shard;
  while idx < max_cases && start.elapsed() < Duration::from_secs(budget) {
    run_one(def, &mut report, seed, idx, thorough, false);
    idx += shards;
    if !report.violations.is_empty() {
      break;
    }
  }
  let distinct: Vec<u64> = report.distinct.iter().cloned().collect();
  let r = json!({"evaluations": report.evaluations, "distinct": distinct, "counters": report.counters,
    "samples": report.samples, "violations": report.violations, "inconclusive": report.inconclusive,
    "complete": idx >= max_cases});
  std::fs::write(out, r.to_string()).expect("write shard result");
  crate::github::cleanup();
  // Leave without waiting for stray tasks or threads of the code under test.
  std::process::exit(0)
}

/// A copy of this program in the scratch directory, also under the name `docker`.
fn confine(dir: &std::path::Path) -> std::path::PathBuf {
  use std::os::unix::fs::PermissionsExt;
  let exe = dir.join("vh");
  std::fs::copy(std::env::current_exe().unwrap(), &exe).expect("copy of the harness");
  std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).ok();
  std::fs::set_permissions(dir, std::fs::Permissions::from_mode(0o755)).ok();
  std::fs::create_dir_all(dir.join("bin")).expect("bin");
  std::os::unix::fs::symlink("../vh", dir.join("bin/docker")).expect("docker stand-in");
  exe
}

/// Make the worker run as a user of its own, in a directory of its own.
fn confined(cmd: &mut std::process::Command, dir: &std::path::Path, shard: u64) -> std::path::PathBuf {
  use std::os::unix::process::CommandExt;
  let own = dir.join(format!("s{}", shard));
  std::fs::create_dir_all(&own).expect("shard directory");
  if unsafe { libc::geteuid() } == 0 {
    let id = 61000 + (std::process::id() % 400) * 8 + shard as u32 % 8;
    std::os::unix::fs::chown(&own, Some(id), Some(id)).expect("chown");
    cmd.uid(id).gid(id);
  }
  let path = std::env::var("PATH").unwrap_or_else(|_| "/usr/bin:/bin".into());
  cmd.env("PATH", format!("{}:{}", dir.join("bin").display(), path)).env("HOME", &own).env("TMPDIR", &own).env("VH_SHARD_DIR", &own).current_dir(&own);
  own
}

pub fn shard_dir() -> std::path::PathBuf {
  std::env::var("VH_SHARD_DIR").expect("VH_SHARD_DIR").into()
}

/// Replay of a confined property: as a child of its own, cleaned up afterwards.
fn replay_confined(def: &PropDef, seed: u64, idx: u64) -> i32 {
  let dir = std::env::temp_dir().join(format!("vh-replay-{}-{}", def.id, std::process::id()));
  std::fs::create_dir_all(&dir).expect("scratch directory");
  let exe = confine(&dir);
  let mut cmd = std::process::Command::new(exe);
  confined(&mut cmd, &dir, 0);
  let rc = cmd.args(["replay", def.id, &seed.to_string(), &idx.to_string()]).status().ok().and_then(|s| s.code()).unwrap_or(2);
  std::fs::remove_dir_all(&dir).ok();
  rc
}

pub fn replay(def: &PropDef, seed: u64, idx: u64, thorough: bool) -> i32 {
  if def.unprivileged && std::env::var("VH_SHARD_DIR").is_err() {
    return replay_confined(def, seed, idx);
  }
  install_panic_hook();
  watchdog(def.hang_is_violation);
  let mut report = Report::default();
  run_one(def, &mut report, seed, idx, thorough, true);
  println!("evaluations {} counters {:?}", report.evaluations, report.counters);
  for i in &report.inconclusive {
    println!("inconclusive: {}", i);
  }
  for v in &report.violations {
    println!("violation: {}", v["message"]);
  }
  std::process::exit(if report.violations.is_empty() { 0 } else { 1 })
}

// ---------------------------------------------------------------- parent

pub fn root() -> std::path::PathBuf {
  std::env::var("VH_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn parent(def: &PropDef) -> i32 {
  let seed = env_u64("VERIF_SEED", 1);
  let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
  let tier = if tier == "thorough" { "thorough" } else { "quick" };
  let started = Instant::now();
  let dir = std::env::temp_dir().join(format!("vh-{}-{}", def.id, std::process::id()));
  std::fs::create_dir_all(&dir).expect("scratch directory");
  let mut exe = std::env::current_exe().unwrap();
  let shards = env_u64("VH_SHARDS", def.shards as u64).max(1);
  if def.unprivileged {
    exe = confine(&dir);
  }
  let mut kids = vec![];
  for s in 0..shards {
    let mut out = dir.join(format!("shard-{}.json", s));
    let mut cmd = std::process::Command::new(&exe);
    if def.unprivileged {
      out = confined(&mut cmd, &dir, s).join("result.json");
    }
    let child = cmd
      .arg("worker")
      .arg(def.id)
      .arg(s.to_string())
      .arg(shards.to_string())
      .arg(&out)
      .env("VH_SCRATCH", &dir)
      .stdin(std::process::Stdio::null())
      .stdout(if std::env::var("VH_SHOW").is_ok() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
      .spawn()
      .expect("spawn worker");
    kids.push((s, out, child));
  }
  let mut evaluations = 0u64;
  let mut distinct: HashSet<u64> = HashSet::new();
  let mut counters: BTreeMap<String, u64> = BTreeMap::new();
  let mut samples: Vec<Value> = vec![];
  let mut violations: Vec<Value> = vec![];
  let mut inconclusive: Vec<String> = vec![];
  let mut complete = true;
  // A worker that does not come back must not keep the others' findings
  let thorough = tier == "thorough";
  let limit = Duration::from_secs(env_u64("VH_BUDGET_S", if thorough { def.thorough_s } else { def.quick_s }) + 500);
  for (s, out, mut child) in kids {
    let status = loop {
      if let Some(status) = child.try_wait().expect("wait for worker") {
        break status;
      }
      if started.elapsed() > limit {
        child.kill().ok();
      }
      std::thread::sleep(Duration::from_millis(20));
    };
    match std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
      Some(v) => {
        evaluations += v["evaluations"].as_u64().unwrap_or(0);
        for d in v["distinct"].as_array().into_iter().flatten() {
          distinct.insert(d.as_u64().unwrap_or(0));
        }
        for (k, n) in v["counters"].as_object().into_iter().flatten() {
          let n = n.as_u64().unwrap_or(0);
          let e = counters.entry(k.clone()).or_insert(0);
          if k.starts_with("max_") {
            *e = (*e).max(n)
          } else {
            *e += n
          }
        }
        if samples.len() < 3 {
          samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        }
        violations.extend(v["violations"].as_array().cloned().unwrap_or_default());
        for i in v["inconclusive"].as_array().into_iter().flatten() {
          inconclusive.push(i.as_str().unwrap_or("?").to_string());
        }
        complete &= v["complete"].as_bool().unwrap_or(false);
      }
      None => {
        complete = false;
        use std::os::unix::process::ExitStatusExt;
        match status.signal() {
          Some(sig) if sig == libc::SIGSEGV || sig == libc::SIGABRT || sig == libc::SIGBUS || sig == libc::SIGILL => {
            violations.push(json!({"property": def.id, "seed": seed, "case": s,
              "message": format!("worker {} crashed with signal {} while executing the code under test", s, sig), "detail": {}}))
          }
          _ => inconclusive.push(format!("worker {} ended without a result: {:?}", s, status)),
        }
      }
    }
  }
  samples.truncate(3);
  std::fs::remove_dir_all(&dir).ok();
  let known = known_findings(def.id);
  let mut real = vec![];
  let mut printed = HashSet::new();
  for v in violations {
    let msg = v["message"].as_str().unwrap_or("").to_string();
    match known.iter().find(|k| msg.contains(k.as_str())) {
      Some(k) => {
        if printed.insert(k.clone()) {
          println!("KNOWN-FINDING: property={} {}", def.id, k);
        }
      }
      None => real.push(v),
    }
  }
  let mut missing = vec![];
  if real.is_empty() {
    for (k, n) in def.required {
      let have = counters.get(*k).cloned().unwrap_or(0);
      if have < *n {
        missing.push(format!("{}={} (<{})", k, have, n));
      }
    }
  }
  if samples.is_empty() {
    samples.push(json!("no sample recorded"));
  }
  let mut coverage = json!({"evaluations": evaluations, "distinct_nontrivial": distinct.len(), "rule": def.rule,
    "samples": samples, "observed": counters, "workers": shards, "inconclusive_cases": inconclusive.len()});
  if complete && def.max_cases < u64::MAX {
    coverage["exhaustive_case_list"] = json!(true);
  }
  let ev = json!({"property": def.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
    "assumptions": def.assumptions, "wall_s": started.elapsed().as_secs_f64(), "violations": real.len()});
  let evdir = root().join("evidence");
  std::fs::create_dir_all(&evdir).ok();
  std::fs::write(evdir.join(format!("{}.json", def.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
  println!("{}: {} evaluations, {} distinct, {:?}, {:.1}s", def.id, evaluations, distinct.len(), counters, started.elapsed().as_secs_f64());
  for i in inconclusive.iter().take(5) {
    println!("inconclusive: {}", i);
  }
  if !real.is_empty() {
    let rdir = root().join("replays");
    std::fs::create_dir_all(&rdir).ok();
    for v in real.iter().take(3) {
      let path = rdir.join(format!("{}-{}-{}.json", def.id, v["seed"], v["case"]));
      std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).ok();
      println!("  {}", v["message"].as_str().unwrap_or(""));
      println!("VIOLATION property={} replay={}", def.id, path.display());
    }
    return 1;
  }
  if !missing.is_empty() {
    println!("INCONCLUSIVE: too little observed: {}", missing.join(", "));
    return 2;
  }
  if !inconclusive.is_empty() && inconclusive.len() as u64 * 20 > evaluations {
    println!("INCONCLUSIVE: too many cases without a verdict");
    return 2;
  }
  0
}

/// Signatures of recorded, unrepaired findings: lines "property=<id> <signature>".
fn known_findings(id: &str) -> Vec<String> {
  let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
  let pre = format!("property={} ", id);
  text.lines().filter_map(|l| l.strip_prefix(&pre).map(|s| s.trim().to_string())).filter(|s| !s.is_empty()).collect()
}
