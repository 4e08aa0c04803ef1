//! Configuration: dependency graphs, faithful parsing, actions, conditions.
use crate::engine::*;
use crate::frame::Case;
use crate::rng::{hash_str, mix, Rng};
use astro_run::*;
use parking_lot::Mutex;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;

fn instant_step() -> StepSpec {
  StepSpec { coe: false, timeout_ms: None, container: None, env: vec![], secrets: vec![], name: None, on: None, script: Script::default() }
}

fn graph_spec(id: &str, deps: &[Vec<String>], keys: &[String]) -> WfSpec {
  WfSpec {
    id: id.to_string(),
    jobs: deps.iter().enumerate().map(|(i, d)| JobSpec { key: keys[i].clone(), deps: d.clone(), steps: vec![instant_step()], on: None }).collect(),
    on: None,
    cancels: vec![],
  }
}

/// Reference: the graph can be run to completion.
fn runnable(deps: &[Vec<String>], keys: &[String]) -> bool {
  if deps.is_empty() || deps.iter().flatten().any(|d| !keys.contains(d)) {
    return false;
  }
  // depth-first search for a cycle
  fn visit(i: usize, deps: &[Vec<String>], keys: &[String], mark: &mut [u8]) -> bool {
    match mark[i] {
      1 => return false,
      2 => return true,
      _ => {}
    }
    mark[i] = 1;
    for d in &deps[i] {
      let j = keys.iter().position(|k| k == d).unwrap();
      if !visit(j, deps, keys, mark) {
        return false;
      }
    }
    mark[i] = 2;
    true
  }
  let mut mark = vec![0u8; deps.len()];
  (0..deps.len()).all(|i| visit(i, deps, keys, &mut mark))
}

fn c02_graph(case: &mut Case, rt: &tokio::runtime::Runtime, w: &Arc<World>, astro: &AstroRun, deps: Vec<Vec<String>>, keys: &[String], steps: Option<(usize, usize)>, run: bool) {
  case.evals(1);
  let mut spec = graph_spec("g", &deps, keys);
  let empty_job = steps.filter(|s| s.1 == 0).map(|s| s.0);
  if let Some((job, n)) = steps {
    spec.jobs[job].steps = (0..n).map(|_| instant_step()).collect();
  }
  let want = runnable(&deps, keys) && empty_job.is_none();
  let built = rt.block_on(build_workflow(astro, &spec));
  let sig = hash_str(0, &format!("{:?}{:?}{:?}", deps, keys, steps));
  case.nontrivial(sig);
  case.count(if want { "acceptable" } else { "unacceptable" }, 1);
  match (&built, want) {
    (Ok(_), false) => {
      return case.fail("a workflow that cannot be run was accepted", json!({"workflow": spec.to_value(), "jobs_without_steps": empty_job}));
    }
    (Err(e), true) => {
      return case.fail(format!("a runnable workflow was rejected: {}", e), json!({"workflow": spec.to_value()}));
    }
    _ => {}
  }
  if !want || !run {
    return;
  }
  w.add(&spec);
  let out = rt.block_on(run_built(w, astro, &spec, built.unwrap(), CtxOpts { event: None, payload: None }));
  case.count("run_to_completion", 1);
  match out.result {
    Ok(res) => {
      if res.jobs.len() != spec.jobs.len() || res.state != WorkflowState::Succeeded {
        case.fail("an accepted workflow did not run all its jobs", json!({"workflow": spec.to_value(), "result": format!("{:?}", res)}));
      }
    }
    Err(e) => case.fail(format!("an accepted workflow did not run to completion: {}", e), json!({"workflow": spec.to_value()})),
  }
  case.sample(|| spec.to_value());
}

/// Small graphs one by one (case 0: up to 3 jobs with undefined names, cases 1..64: 4 jobs), then random larger ones.
pub fn c02(case: &mut Case) {
  let w = World::new(1, true, HookCfg::default());
  let rt = rt_virtual();
  let _g = rt.enter();
  let astro = build_astro(&w, &PluginPlan { plugins: vec![] }, ScriptRunner { w: w.clone(), obs: RUNNER });
  drop(_g);
  let names: Vec<String> = ["a", "b", "c", "d"].iter().map(|s| s.to_string()).collect();
  const EXHAUSTIVE4: u64 = 32;
  if case.idx < 4 {
    // n <= 3, any dependency sets over the jobs and one undefined name; split over 4 cases
    for n in 0..=3usize {
      let bits = n * (n + 1);
      for m in 0..(1u64 << bits) {
        if m % 4 != case.idx {
          continue;
        }
        let mut deps = vec![vec![]; n];
        for (i, dep) in deps.iter_mut().enumerate() {
          for j in 0..=n {
            if m >> (i * (n + 1) + j) & 1 == 1 {
              dep.push(if j == n { "undefined".to_string() } else { names[j].clone() });
            }
          }
        }
        c02_graph(case, &rt, &w, &astro, deps, &names[..n], None, true);
        if case.failed() {
          return;
        }
      }
    }
    case.count("all_graphs_up_to_3_jobs_quarters", 1);
  } else if case.idx < 4 + EXHAUSTIVE4 {
    let part = case.idx - 4;
    for m in 0..(1u64 << 16) {
      if m % EXHAUSTIVE4 != part {
        continue;
      }
      let deps: Vec<Vec<String>> = (0..4).map(|i| (0..4).filter(|j| m >> (i * 4 + j) & 1 == 1).map(|j| names[j].clone()).collect()).collect();
      c02_graph(case, &rt, &w, &astro, deps, &names, None, true);
      if case.failed() {
        return;
      }
    }
    case.count("all_graphs_of_4_jobs_32nds", 1);
  } else {
    for _ in 0..40 {
      let mut r = case.rng.fork();
      let large = r.chance(1, 400);
      let n = if large { r.range(100, 420) } else { r.range(1, 14) } as usize;
      let mut keys: Vec<String> = (0..n).map(|i| if r.chance(1, 8) { format!("{}-{}", r.text(3), i) } else { format!("{}-{}", r.ident(4), i) }).collect();
      r.shuffle(&mut keys);
      let dens = if large { r.range(0, 3) } else { r.range(1, 60) };
      if large {
        case.count("graphs_of_100_jobs_and_more", 1);
      }
      let mut deps: Vec<Vec<String>> = vec![vec![]; n];
      for i in 0..n {
        for j in 0..i {
          if r.chance(dens, 100) {
            deps[i].push(keys[j].clone());
          }
        }
        if r.chance(1, 10) && !deps[i].is_empty() {
          let d = deps[i][0].clone();
          deps[i].push(d); // named twice
        }
        r.shuffle(&mut deps[i]);
      }
      let mut empty = None;
      match r.below(8) {
        0 | 1 => {
          // close one cycle
          let a = r.us(n);
          let b = r.range(a as u64, n as u64 - 1) as usize;
          deps[a].push(keys[b].clone());
        }
        2 => {
          // a cycle through fresh edges
          let len = r.range(1, n as u64) as usize;
          let mut idx: Vec<usize> = (0..n).collect();
          r.shuffle(&mut idx);
          for k in 0..len {
            deps[idx[k]].push(keys[idx[(k + 1) % len]].clone());
          }
        }
        3 => {
          let i = r.us(n);
          let bad = match r.below(3) {
            0 => keys[i].to_uppercase() + " ",
            1 => String::new(),
            _ => "nobody".to_string(),
          };
          let p = r.us(deps[i].len() + 1);
          deps[i].insert(p, bad);
        }
        4 => empty = Some((r.us(n), 0)),
        _ if r.chance(1, 150) => {
          empty = Some((r.us(n), r.range(60, 400) as usize));
          case.count("jobs_of_60_steps_and_more", 1);
        }
        _ => {}
      }
      c02_graph(case, &rt, &w, &astro, deps, &keys, empty, true);
      if case.failed() {
        return;
      }
    }
  }
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Default)]
struct StepCfg {
  name: Option<String>,
  container: Option<ContCfg>,
  run: String,
  on: Option<(Value, Condition)>,
  coe: Option<bool>,
  env: Option<Vec<(String, EnvCfg)>>,
  secrets: Option<Vec<String>>,
  timeout: Option<(String, Duration)>,
}

#[derive(Clone, Debug)]
enum EnvCfg {
  S(String),
  N(f64),
  B(bool),
}

#[derive(Clone, Debug)]
struct ContCfg {
  name: String,
  volumes: Option<Vec<String>>,
  security: Option<Vec<String>>,
  plain: bool,
}

impl ContCfg {
  fn value(&self) -> Value {
    if self.plain {
      return json!(self.name);
    }
    let mut m = Map::new();
    m.insert("name".into(), json!(self.name));
    if let Some(v) = &self.volumes {
      m.insert("volumes".into(), json!(v));
    }
    if let Some(v) = &self.security {
      m.insert("security-opts".into(), json!(v));
    }
    Value::Object(m)
  }
  fn options(&self) -> Value {
    json!({"name": self.name, "volumes": self.volumes, "security-opts": self.security})
  }
}

impl EnvCfg {
  fn value(&self) -> Value {
    match self {
      EnvCfg::S(s) => json!(s),
      EnvCfg::B(b) => json!(b),
      EnvCfg::N(n) => {
        if n.fract() == 0.0 {
          json!(*n as i64)
        } else {
          json!(n)
        }
      }
    }
  }
  fn var(&self) -> EnvironmentVariable {
    match self {
      EnvCfg::S(s) => EnvironmentVariable::String(s.clone()),
      EnvCfg::B(b) => EnvironmentVariable::Boolean(*b),
      EnvCfg::N(n) => EnvironmentVariable::Number(*n),
    }
  }
}

fn cond(r: &mut Rng) -> (Value, Condition) {
  let list = |r: &mut Rng| -> Option<Vec<String>> {
    if r.chance(1, 3) {
      None
    } else {
      Some((0..r.below(4)).map(|_| r.pick(&["main", "feature/*", "src/**", "[", "a b", "", "*.md"]).to_string()).collect())
    }
  };
  if r.chance(1, 2) {
    let ev: Vec<String> = (0..r.below(3)).map(|_| r.pick(&["push", "pull_request", "tag", ""]).to_string()).collect();
    return (json!(ev), Condition::Event(ev));
  }
  let mut m = Map::new();
  let mut cfg = ConditionConfig { push: None, pull_request: None };
  let entry = |b: &Option<Vec<String>>, p: &Option<Vec<String>>| {
    let mut m = Map::new();
    if let Some(b) = b {
      m.insert("branches".into(), json!(b));
    }
    if let Some(p) = p {
      m.insert("paths".into(), json!(p));
    }
    Value::Object(m)
  };
  if r.chance(2, 3) {
    let (b, p) = (list(r), list(r));
    m.insert("push".into(), entry(&b, &p));
    cfg.push = Some(PushCondition { branches: b, paths: p });
  }
  if r.chance(2, 3) {
    let (b, p) = (list(r), list(r));
    m.insert("pull_request".into(), entry(&b, &p));
    cfg.pull_request = Some(PullRequestCondition { branches: b, paths: p });
  }
  (Value::Object(m), Condition::Config(cfg))
}

fn duration(r: &mut Rng) -> (String, Duration) {
  const U: &[(&str, u64)] = &[
    ("days", 86400_000_000_000),
    ("day", 86400_000_000_000),
    ("d", 86400_000_000_000),
    ("hours", 3600_000_000_000),
    ("hour", 3600_000_000_000),
    ("h", 3600_000_000_000),
    ("minutes", 60_000_000_000),
    ("min", 60_000_000_000),
    ("m", 60_000_000_000),
    ("seconds", 1_000_000_000),
    ("sec", 1_000_000_000),
    ("s", 1_000_000_000),
    ("ms", 1_000_000),
    ("us", 1_000),
    ("ns", 1),
  ];
  let k = r.range(1, 3);
  let mut total: u64 = 0;
  let mut t = String::new();
  for i in 0..k {
    let (u, n) = *r.pick(U);
    let c = *r.pick(&[0u64, 1, 2, 5, 10, 59, 60, 61, 90, 100, 999]);
    total += c * n;
    if i > 0 && r.chance(1, 2) {
      t.push(' ');
    }
    t.push_str(&format!("{}{}{}", c, if r.chance(1, 6) { " " } else { "" }, u));
  }
  (t, Duration::from_nanos(total))
}

fn container(r: &mut Rng) -> ContCfg {
  let name = if r.chance(1, 3) { r.pick(&["host/linux-x86_64", "alpine:3", "registry.example.com:5000/a/b:1"]).to_string() } else { r.text(4) };
  if r.chance(1, 2) {
    ContCfg { name, volumes: None, security: None, plain: true }
  } else {
    let l = |r: &mut Rng| if r.chance(1, 2) { Some((0..r.below(3)).map(|_| r.text(4)).collect()) } else { None };
    ContCfg { name, volumes: l(r), security: l(r), plain: false }
  }
}

fn step_cfg(r: &mut Rng) -> StepCfg {
  StepCfg {
    name: if r.chance(1, 2) { Some(r.text(5)) } else { None },
    container: if r.chance(1, 3) { Some(container(r)) } else { None },
    run: if r.chance(1, 8) { String::new() } else { r.text(12) },
    on: if r.chance(1, 3) { Some(cond(r)) } else { None },
    coe: *r.pick(&[None, None, Some(true), Some(false)]),
    env: if r.chance(1, 2) {
      let n = r.below(4);
      Some(
        (0..n)
          .map(|i| {
            let k = if r.chance(1, 3) { format!("{}{}", r.text(2), i) } else { format!("K{}", i) };
            let v = match r.below(6) {
              0 => EnvCfg::B(r.chance(1, 2)),
              1 => EnvCfg::N(if r.chance(1, 2) { crate::rng::number(r).0 } else { r.below(2_000_001) as f64 - 1_000_000.0 }),
              2 => EnvCfg::N((r.below(4001) as f64 - 2000.0) / 8.0),
              3 => EnvCfg::S(r.pick(&["1", "true", "1.0", "null", "~", "0x10", "no", "1e3", "", " "]).to_string()),
              _ => EnvCfg::S(r.text(6)),
            };
            (k, v)
          })
          .collect(),
      )
    } else {
      None
    },
    secrets: if r.chance(1, 3) { Some((0..r.below(3)).map(|_| r.text(3)).collect()) } else { None },
    timeout: if r.chance(1, 2) { Some(duration(r)) } else { None },
  }
}

impl StepCfg {
  fn value(&self, r: &mut Rng) -> Value {
    let mut m = vec![("run".to_string(), json!(self.run))];
    if let Some(n) = &self.name {
      m.push(("name".into(), json!(n)));
    }
    if let Some(c) = &self.container {
      m.push(("container".into(), c.value()));
    }
    if let Some(o) = &self.on {
      m.push(("on".into(), o.0.clone()));
    }
    if let Some(c) = self.coe {
      m.push(("continue-on-error".into(), json!(c)));
    }
    if let Some(e) = &self.env {
      m.push(("environments".into(), Value::Object(e.iter().map(|(k, v)| (k.clone(), v.value())).collect())));
    }
    if let Some(s) = &self.secrets {
      m.push(("secrets".into(), json!(s)));
    }
    if let Some(t) = &self.timeout {
      m.push(("timeout".into(), json!(t.0)));
    }
    r.shuffle(&mut m);
    Value::Object(m.into_iter().collect())
  }
  fn user(&self) -> UserCommandStep {
    UserCommandStep {
      name: self.name.clone(),
      container: self.container.as_ref().map(|c| {
        if c.plain {
          Container::Name(c.name.clone())
        } else {
          Container::Options(ContainerOptions { name: c.name.clone(), volumes: c.volumes.clone(), security_opts: c.security.clone() })
        }
      }),
      run: self.run.clone(),
      on: self.on.as_ref().map(|o| o.1.clone()),
      continue_on_error: self.coe,
      environments: self.env.as_ref().map(|e| e.iter().map(|(k, v)| (k.clone(), v.var())).collect()),
      secrets: self.secrets.clone(),
      timeout: self.timeout.as_ref().map(|t| t.0.clone()),
    }
  }
}

fn check_step(got: &Step, want: &StepCfg, wf: &str, job: &str, idx: usize, job_container: &Option<ContCfg>) -> Vec<String> {
  let mut e = vec![];
  let at = format!("job {:?} step {}", job, idx);
  if got.id != StepId::new(wf, job, idx) {
    e.push(format!("{}: id is {:?}", at, got.id));
  }
  if got.name != want.name {
    e.push(format!("{}: name is {:?}, configured {:?}", at, got.name, want.name));
  }
  if got.run != want.run {
    e.push(format!("{}: script is {:?}, configured {:?}", at, got.run, want.run));
  }
  if got.on != want.on.as_ref().map(|o| o.1.clone()) {
    e.push(format!("{}: condition is {:?}, configured {:?}", at, got.on, want.on));
  }
  if got.continue_on_error != want.coe.unwrap_or(false) {
    e.push(format!("{}: continue-on-error is {}, configured {:?}", at, got.continue_on_error, want.coe));
  }
  let env: HashMap<String, EnvironmentVariable> = want.env.iter().flatten().map(|(k, v)| (k.clone(), v.var())).collect();
  if got.environments != env {
    e.push(format!("{}: environment is {:?}, configured {:?}", at, got.environments, env));
  }
  for (k, v) in want.env.iter().flatten() {
    let text = match v {
      EnvCfg::S(s) => s.clone(),
      EnvCfg::B(b) => b.to_string(),
      EnvCfg::N(n) => n.to_string(),
    };
    if got.environments.get(k).map(|x| x.to_string()) != Some(text.clone()) {
      e.push(format!("{}: environment {} prints as {:?}, configured {:?}", at, k, got.environments.get(k).map(|x| x.to_string()), text));
    }
  }
  if got.secrets != want.secrets.clone().unwrap_or_default() {
    e.push(format!("{}: secrets are {:?}, configured {:?}", at, got.secrets, want.secrets));
  }
  let timeout = want.timeout.as_ref().map(|t| t.1).unwrap_or(Duration::from_secs(3600));
  if got.timeout != timeout {
    e.push(format!("{}: timeout is {:?}, configured {:?}", at, got.timeout, want.timeout));
  }
  let c = want.container.as_ref().or(job_container.as_ref()).map(|c| c.options()).unwrap_or(Value::Null);
  let g = got.container.as_ref().map(|c| json!({"name": c.name, "volumes": c.volumes, "security-opts": c.security_opts})).unwrap_or(Value::Null);
  if c != g {
    e.push(format!("{}: container is {}, configured {}", at, g, c));
  }
  e
}

#[derive(Clone, Debug)]
struct JobCfg {
  key: String,
  name: Option<String>,
  container: Option<ContCfg>,
  dirs: Option<Vec<String>>,
  steps: Vec<StepCfg>,
  on: Option<(Value, Condition)>,
  deps: Option<Vec<String>>,
}

/// Texts that a YAML emitter of ours may not write unescaped.
fn render(v: &Value, r: &mut Rng) -> Option<String> {
  let esc = |t: String| t.replace('\u{7f}', "\\u007f").replace('\u{2028}', "\\u2028");
  let text = match r.below(3) {
    0 => esc(serde_json::to_string(v).unwrap()),
    1 => esc(serde_json::to_string_pretty(v).unwrap()),
    _ => serde_yaml::to_string(v).unwrap(),
  };
  // the rendering itself must say what we mean (independent reading with the YAML library only)
  match serde_yaml::from_str::<Value>(&text) {
    Ok(back) if same(&back, v) => Some(text),
    _ => None,
  }
}

fn same(a: &Value, b: &Value) -> bool {
  match (a, b) {
    (Value::Number(x), Value::Number(y)) => x.as_f64() == y.as_f64(),
    (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
    (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| same(p, q))),
    _ => a == b,
  }
}

struct NoRunner;
#[async_trait]
impl Runner for NoRunner {
  async fn run(&self, _c: Context) -> RunResponse {
    Err(Error::unsupported_feature("no runner"))
  }
}

pub fn c14(case: &mut Case) {
  let rt = rt_virtual();
  let astro = AstroRun::builder().runner(NoRunner).build();
  // (all those of this process)
  static FRESH: parking_lot::Mutex<std::collections::BTreeSet<String>> = parking_lot::Mutex::new(std::collections::BTreeSet::new());
  for _ in 0..20 {
    let mut r = case.rng.fork();
    let r = &mut r;
    // now and then a large workflow, or one with a long job
    let large = r.chance(1, 60);
    let long = r.chance(1, 60);
    let n = if large { r.range(10, 40) } else { r.range(1, 4) } as usize;
    let keys: Vec<String> = (0..n).map(|i| if r.chance(1, 3) { format!("{}{}", r.text(3).replace('/', ""), i) } else { format!("j{}", i) }).collect();
    let jobs: Vec<JobCfg> = (0..n)
      .map(|i| JobCfg {
        key: keys[i].clone(),
        name: if r.chance(1, 2) { Some(r.text(5)) } else { None },
        container: if r.chance(1, 2) { Some(container(r)) } else { None },
        dirs: if r.chance(1, 2) { Some((0..r.below(3)).map(|_| r.text(4)).collect()) } else { None },
        steps: (0..if long { r.range(20, 300) } else { r.range(1, 4) }).map(|_| step_cfg(r)).collect(),
        on: if r.chance(1, 3) { Some(cond(r)) } else { None },
        deps: if r.chance(1, 3) {
          None
        } else {
          let mut d: Vec<String> = (0..i).filter(|_| r.chance(1, 2)).map(|j| keys[j].clone()).collect();
          if !d.is_empty() && r.chance(1, 6) {
            let again = r.pick(&d).clone();
            d.push(again); // named twice
          }
          r.shuffle(&mut d);
          Some(d)
        },
      })
      .collect();
    let wname = if r.chance(1, 2) { Some(r.text(5)) } else { None };
    let won = if r.chance(1, 3) { Some(cond(r)) } else { None };
    let wid = if r.chance(3, 4) { Some(format!("w{}", r.text(4).replace('/', ""))) } else { None };
    let mut top = Map::new();
    if let Some(n) = &wname {
      top.insert("name".into(), json!(n));
    }
    if let Some(o) = &won {
      top.insert("on".into(), o.0.clone());
    }
    if r.chance(1, 8) {
      top.insert("unknown-setting".into(), json!({"x": [1, 2]}));
    }
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut js = Map::new();
    for i in order {
      let j = &jobs[i];
      let mut m = Map::new();
      if let Some(n) = &j.name {
        m.insert("name".into(), json!(n));
      }
      if let Some(c) = &j.container {
        m.insert("container".into(), c.value());
      }
      if let Some(d) = &j.dirs {
        m.insert("working-directories".into(), json!(d));
      }
      if let Some(o) = &j.on {
        m.insert("on".into(), o.0.clone());
      }
      if let Some(d) = &j.deps {
        m.insert("depends-on".into(), json!(d));
      }
      m.insert("steps".into(), Value::Array(j.steps.iter().map(|s| s.value(r)).collect()));
      js.insert(j.key.clone(), Value::Object(m));
    }
    top.insert("jobs".into(), Value::Object(js));
    let top = Value::Object(top);
    let Some(text) = render(&top, r) else {
      case.count("not_renderable", 1);
      continue;
    };
    case.describe("building a workflow");
    let build = |text: &str| {
      let mut b = Workflow::builder().config(text);
      if let Some(id) = &wid {
        b = b.id(id.clone());
      }
      rt.block_on(b.build(&astro))
    };
    case.evals(1);
    case.count("configurations", 1);
    case.count("configured_steps", jobs.iter().map(|j| j.steps.len() as u64).sum());
    case.nontrivial(hash_str(1, &text));
    let wf = match build(&text) {
      Ok(w) => w,
      Err(e) => {
        case.fail(format!("a well formed configuration was rejected: {}", e), json!({"config": text}));
        continue;
      }
    };
    let mut errs = vec![];
    let id = match &wid {
      Some(id) => {
        if wf.id != WorkflowId::new(id.clone()) {
          errs.push(format!("workflow id is {:?}, given {:?}", wf.id, id));
        }
        id.clone()
      }
      None => {
        let id = wf.id.inner();
        if id.is_empty() || !FRESH.lock().insert(id.clone()) {
          errs.push(format!("the id {:?} given to a workflow without one is not fresh", id));
        }
        // a second build gets another one
        match build(&text) {
          Ok(b) if b.id == wf.id => errs.push("two workflows without an id share one".into()),
          Ok(b) => {
            if !FRESH.lock().insert(b.id.inner()) {
              errs.push(format!("the id {:?} was given to an earlier workflow too", b.id));
            }
          }
          Err(e) => errs.push(format!("building again failed: {}", e)),
        }
        case.count("fresh_ids", 2);
        id
      }
    };
    if wf.name != wname {
      errs.push(format!("workflow name is {:?}, configured {:?}", wf.name, wname));
    }
    if wf.on != won.as_ref().map(|o| o.1.clone()) {
      errs.push(format!("workflow condition is {:?}, configured {:?}", wf.on, won));
    }
    let mut got_keys: Vec<&String> = wf.jobs.keys().collect();
    got_keys.sort();
    let mut want_keys: Vec<&String> = keys.iter().collect();
    want_keys.sort();
    if got_keys != want_keys {
      errs.push(format!("jobs are {:?}, configured {:?}", got_keys, want_keys));
    } else {
      for j in &jobs {
        let g = &wf.jobs[&j.key];
        if g.id != JobId::new(id.clone(), j.key.clone()) {
          errs.push(format!("job {:?} has id {:?}", j.key, g.id));
        }
        if g.name != j.name {
          errs.push(format!("job {:?} has name {:?}, configured {:?}", j.key, g.name, j.name));
        }
        if g.on != j.on.as_ref().map(|o| o.1.clone()) {
          errs.push(format!("job {:?} has condition {:?}, configured {:?}", j.key, g.on, j.on));
        }
        if g.depends_on != j.deps.clone().unwrap_or_default() {
          errs.push(format!("job {:?} depends on {:?}, configured {:?}", j.key, g.depends_on, j.deps));
        }
        if g.working_directories != j.dirs.clone().unwrap_or_default() {
          errs.push(format!("job {:?} has working directories {:?}, configured {:?}", j.key, g.working_directories, j.dirs));
        }
        if g.steps.len() != j.steps.len() {
          errs.push(format!("job {:?} has {} steps, configured {}", j.key, g.steps.len(), j.steps.len()));
        } else {
          for (i, s) in j.steps.iter().enumerate() {
            errs.extend(check_step(&g.steps[i], s, &id, &j.key, i, &j.container));
          }
        }
      }
    }
    if !errs.is_empty() {
      case.fail(errs[0].clone(), json!({"errors": errs.iter().take(8).collect::<Vec<_>>(), "config": text}));
    }
    case.sample(|| json!({"config": text}));
    // malformed variants
    for _ in 0..4 {
      let mut bad = top.clone();
      let jk = r.pick(&keys).clone();
      let what = mutate(r, &mut bad, &jk);
      let Some(t) = render(&bad, r) else { continue };
      case.count("malformed_configurations", 1);
      if build(&t).is_ok() {
        case.fail(format!("a malformed configuration ({}) was accepted", what), json!({"config": t}));
      }
    }
    // damaged text: any outcome but a panic
    for _ in 0..4 {
      let mut b: Vec<char> = text.chars().collect();
      for _ in 0..r.range(1, 3) {
        if b.is_empty() {
          break;
        }
        let i = r.us(b.len());
        match r.below(4) {
          0 => {
            b.truncate(i);
          }
          1 => {
            b.remove(i);
          }
          2 => b.insert(i, *r.pick(&['{', '}', ':', '[', '&', '*', '!', '\t', '\n', '-', '"', '\'', '\u{0}', '%', '?', '|'])),
          _ => b[i] = *r.pick(&[' ', '\n', ':', '-', '#', '0', '<', '\u{feff}']),
        }
      }
      let t: String = b.into_iter().collect();
      case.count("damaged_texts", 1);
      if build(&t).is_err() {
        case.count("damaged_rejected", 1);
      }
    }
    let t = match r.below(8) {
      0 => format!("[{}", text),
      1 => format!("{}\n]", text),
      2 => format!("\"{}", text.replace('"', "")),
      3 => "".to_string(),
      4 => "[]".to_string(),
      5 => "jobs: {}".to_string(),
      6 => text.replacen("jobs", "job", 1),
      _ => format!("- {}", text.replace('\n', "\n  ")),
    };
    case.count("malformed_configurations", 1);
    if build(&t).is_ok() && !(t.contains("jobs") && serde_yaml::from_str::<Value>(&t).is_ok_and(|v| v["jobs"].is_object())) {
      case.fail("a text that is no workflow configuration was accepted", json!({"config": t}));
    }
    case.no_cut_panics();
    if case.failed() {
      return;
    }
  }
}

fn mutate(r: &mut Rng, top: &mut Value, job: &str) -> String {
  let k = r.below(18);
  let j = top["jobs"][job].as_object_mut().unwrap();
  let ns = j["steps"].as_array().unwrap().len();
  let si = r.us(ns);
  let obj = || json!({"a": 1});
  macro_rules! step {
    () => {
      j["steps"][si].as_object_mut().unwrap()
    };
  }
  match k {
    0 => {
      j.insert("name".into(), obj());
      "job name is a mapping"
    }
    1 => {
      j.insert("steps".into(), json!("x"));
      "steps is text"
    }
    2 => {
      j.insert("depends-on".into(), json!("x"));
      "depends-on is text"
    }
    3 => {
      j.insert("container".into(), json!(["a"]));
      "container is a list"
    }
    4 => {
      j.insert("working-directories".into(), json!("x"));
      "working-directories is text"
    }
    5 => {
      step!().remove("run");
      "step without run and uses"
    }
    6 => {
      step!().insert("run".into(), json!(["x"]));
      "run is a list"
    }
    7 => {
      let v = *r.pick(&["", "ten", "10", "10 parsecs", "-5s", "m", "5 s s", "1h-2m", "s10"]);
      step!().insert("timeout".into(), json!(v));
      "bad timeout"
    }
    8 => {
      step!().insert("timeout".into(), json!(10));
      "timeout is a number"
    }
    9 => {
      step!().insert("continue-on-error".into(), json!("maybe"));
      "continue-on-error is text"
    }
    10 => {
      step!().insert("environments".into(), json!(["A=1"]));
      "environments is a list"
    }
    11 => {
      step!().insert("environments".into(), json!({"A": {"b": 1}}));
      "environment value is a mapping"
    }
    12 => {
      step!().insert("secrets".into(), json!("x"));
      "secrets is text"
    }
    13 => {
      step!().insert("on".into(), json!(3));
      "condition is a number"
    }
    14 => {
      top["jobs"] = json!([1]);
      "jobs is a list"
    }
    15 => {
      top.as_object_mut().unwrap().remove("jobs");
      "no jobs"
    }
    16 => {
      top["name"] = obj();
      "workflow name is a mapping"
    }
    _ => {
      j.remove("steps");
      "no steps"
    }
  }
  .to_string()
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Default)]
struct ActCfg {
  tag: String,
  pre: Option<StepCfg>,
  run: Option<StepCfg>,
  post: Option<StepCfg>,
  /// 0 none, 1 pre, 2 run, 3 post expands to an action
  nested: u64,
  fails: bool,
}

struct Act15 {
  cfg: ActCfg,
  seen: Arc<Mutex<Vec<(String, Value)>>>,
}

impl Action for Act15 {
  fn normalize(&self, step: UserActionStep) -> Result<ActionSteps> {
    self.seen.lock().push((self.cfg.tag.clone(), serde_json::to_value(&step).unwrap()));
    if self.cfg.fails {
      return Err(Error::internal_runtime_error("scripted failure"));
    }
    let nested = || UserStep::Action(UserActionStep { uses: "inner".into(), ..Default::default() });
    Ok(ActionSteps {
      pre: if self.cfg.nested == 1 { Some(nested()) } else { self.cfg.pre.as_ref().map(|s| UserStep::Command(s.user())) },
      run: if self.cfg.nested == 2 { nested() } else { UserStep::Command(self.cfg.run.as_ref().unwrap().user()) },
      post: if self.cfg.nested == 3 { Some(nested()) } else { self.cfg.post.as_ref().map(|s| UserStep::Command(s.user())) },
    })
  }
}

struct Plug15 {
  acts: HashMap<String, Option<ActCfg>>, // None: the hook fails
  seen: Arc<Mutex<Vec<(String, Value)>>>,
  asked: Arc<Mutex<Vec<Value>>>,
}

impl Plug15 {
  fn resolve(&self, step: UserActionStep) -> HookResolveActionResult {
    self.asked.lock().push(serde_json::to_value(&step).unwrap());
    match self.acts.get(&step.uses) {
      None => Ok(None),
      Some(None) => Err(Error::internal_runtime_error("scripted failure")),
      Some(Some(c)) => Ok(Some(Box::new(Act15 { cfg: c.clone(), seen: self.seen.clone() }))),
    }
  }
}

#[async_trait]
impl Plugin for Plug15 {
  fn name(&self) -> &'static str {
    "dynamic"
  }
  async fn on_resolve_dynamic_action(&self, step: UserActionStep) -> HookResolveActionResult {
    self.resolve(step)
  }
}

fn act_cfg(r: &mut Rng, tag: String) -> ActCfg {
  let st = |r: &mut Rng, part: &str| {
    let mut s = step_cfg(r);
    s.run = format!("{} {} {}", tag, part, s.run);
    s
  };
  ActCfg {
    pre: if r.chance(1, 2) { Some(st(r, "pre")) } else { None },
    run: Some(st(r, "run")),
    post: if r.chance(1, 2) { Some(st(r, "post")) } else { None },
    nested: if r.chance(1, 25) { r.range(1, 3) } else { 0 },
    fails: r.chance(1, 40),
    tag,
  }
}

pub fn c15(case: &mut Case) {
  let rt = rt_virtual();
  for _ in 0..20 {
    let mut r = case.rng.fork();
    let r = &mut r;
    let pool: Vec<String> = vec!["cache".into(), "git/clone@v1".into(), "Cache".into(), "".into(), r.text(3), "x".into()];
    let seen = Arc::new(Mutex::new(vec![]));
    let asked = Arc::new(Mutex::new(vec![]));
    let mut b = AstroRun::builder().runner(NoRunner);
    let mut registered: HashMap<String, ActCfg> = HashMap::new();
    for n in &pool {
      if r.chance(1, 3) {
        let c = act_cfg(r, format!("registered {:?}", n));
        b = b.action(n.clone(), Act15 { cfg: c.clone(), seen: seen.clone() });
        registered.insert(n.clone(), c);
      }
    }
    let mut plugins: Vec<HashMap<String, Option<ActCfg>>> = vec![];
    for p in 0..r.below(4) {
      let mut m = HashMap::new();
      for n in &pool {
        if r.chance(1, 3) {
          let v = if r.chance(1, 5) { None } else { Some(act_cfg(r, format!("plugin {} {:?}", p, n))) };
          m.insert(n.clone(), v);
        }
      }
      let plug = Plug15 { acts: m.clone(), seen: seen.clone(), asked: asked.clone() };
      if r.chance(1, 2) {
        b = b.plugin(plug);
      } else {
        b = b.plugin(AstroRunPlugin::builder("dynamic").on_resolve_dynamic_action(move |s| plug.resolve(s)).build());
      }
      plugins.push(m);
    }
    let astro = b.build();
    let resolve = |n: &str| -> Option<ActCfg> {
      registered.get(n).cloned().or_else(|| plugins.iter().find_map(|p| p.get(n).cloned().flatten()))
    };
    // jobs
    let mut jobs = Map::new();
    let mut expected: Vec<(String, Option<ContCfg>, Vec<StepCfg>)> = vec![];
    let mut calls: Vec<(String, Value)> = vec![];
    let mut configured: Vec<Value> = vec![];
    let mut ok = true;
    let provided: Vec<&String> = pool.iter().filter(|n| resolve(n).is_some()).collect();
    for ji in 0..r.range(1, 2) {
      let key = format!("job{}", ji);
      let jc = if r.chance(1, 3) { Some(container(r)) } else { None };
      let mut steps = vec![];
      let (mut pre, mut mid, mut post) = (vec![], vec![], vec![]);
      for si in 0..if r.chance(1, 60) { r.range(10, 80) } else { r.range(1, 5) } {
        if r.chance(2, 5) {
          let mut s = step_cfg(r);
          s.run = format!("plain {} {}", si, s.run);
          steps.push(s.value(r));
          mid.push(s);
          continue;
        }
        let name = if !provided.is_empty() && r.chance(14, 15) { r.pick(&provided).to_string() } else { r.pick(&pool).clone() };
        let with = match r.below(4) {
          0 => None,
          1 => Some(json!({"path": r.text(4), "list": [1, true, "x"]})),
          2 => Some(json!(r.text(4))),
          _ => Some(json!([1, {"a": r.text(2)}])),
        };
        let t = step_cfg(r);
        let mut m = t.value(r).as_object().unwrap().clone();
        m.remove("run");
        m.remove("container");
        m.insert("uses".into(), json!(name));
        if let Some(w) = &with {
          m.insert("with".into(), w.clone());
        }
        steps.push(Value::Object(m));
        let want = UserActionStep {
          name: t.name.clone(),
          uses: name.clone(),
          with: with.map(|w| serde_yaml::to_value(w).unwrap()),
          on: t.on.as_ref().map(|o| o.1.clone()),
          continue_on_error: t.coe,
          environments: t.user().environments,
          secrets: t.secrets.clone(),
          timeout: t.timeout.as_ref().map(|x| x.0.clone()),
        };
        let want = serde_json::to_value(&want).unwrap();
        configured.push(want.clone());
        match resolve(&name) {
          None => ok = false,
          Some(a) => {
            calls.push((a.tag.clone(), want));
            if a.fails || a.nested != 0 {
              ok = false;
            }
            if let Some(p) = a.pre {
              pre.push(p);
            }
            mid.push(a.run.unwrap());
            if let Some(p) = a.post {
              post.insert(0, p);
            }
          }
        }
      }
      let mut m = Map::new();
      m.insert("steps".into(), json!(steps));
      if let Some(c) = &jc {
        m.insert("container".into(), c.value());
      }
      jobs.insert(key.clone(), Value::Object(m));
      pre.extend(mid);
      pre.extend(post);
      expected.push((key, jc, pre));
    }
    let top = json!({"jobs": jobs});
    let Some(text) = render(&top, r) else {
      case.count("not_renderable", 1);
      continue;
    };
    case.evals(1);
    case.count("action_steps", calls.len() as u64);
    case.count(if ok { "resolvable" } else { "unresolvable" }, 1);
    case.nontrivial(hash_str(2, &text) ^ mix(plugins.len() as u64));
    let res = rt.block_on(Workflow::builder().id("wf").config(text.clone()).build(&astro));
    let mut errs = vec![];
    match (&res, ok) {
      (Ok(_), false) => errs.push("a workflow with an action that is missing, fails or is nested was built".to_string()),
      (Err(e), true) => errs.push(format!("a workflow whose actions are all provided was rejected: {}", e)),
      (Err(_), false) => {}
      (Ok(wf), true) => {
        for (key, jc, steps) in &expected {
          let g = &wf.jobs[key].steps;
          if g.len() != steps.len() {
            errs.push(format!("{}: {} steps {:?}, expected {:?}", key, g.len(), g.iter().map(|s| &s.run).collect::<Vec<_>>(), steps.iter().map(|s| &s.run).collect::<Vec<_>>()));
            continue;
          }
          for (i, s) in steps.iter().enumerate() {
            errs.extend(check_step(&g[i], s, "wf", key, i, jc));
          }
        }
        // which action got which step
        let mut got = seen.lock().clone();
        let mut want = calls.clone();
        let k = |x: &(String, Value)| format!("{}{}", x.0, x.1);
        got.sort_by_key(k);
        want.sort_by_key(k);
        if got.len() != want.len() || !got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1)) {
          errs.push(format!("actions received {:?}, configured {:?}", got, want));
        }
      }
    }
    for a in asked.lock().iter() {
      // plugins too see exactly the configured step
      if !configured.iter().any(|c| same(c, a)) {
        errs.push(format!("a plugin was asked for {} which is not configured", a));
      }
    }
    if !errs.is_empty() {
      case.fail(errs[0].clone(), json!({"errors": errs.iter().take(6).collect::<Vec<_>>(), "config": text,
        "registered": format!("{:?}", registered.values().map(|a| &a.tag).collect::<Vec<_>>()), "plugins": plugins.len()}));
      return;
    }
    case.sample(|| json!({"config": text, "steps": expected.iter().map(|e| e.2.iter().map(|s| s.run.clone()).collect::<Vec<_>>()).collect::<Vec<_>>()}));
  }
}

// ------------------------------------------------------------------ C16

/// Reference matcher for the documented subset: literals, ?, *, [..], [!..], ranges, **/ and a trailing **.
pub fn ref_glob(pat: &str, text: &str) -> Option<bool> {
  #[derive(Debug, Clone)]
  enum T {
    C(char),
    Any,
    Star,
    Deep,
    Set(bool, Vec<(char, char)>),
  }
  let p: Vec<char> = pat.chars().collect();
  let mut toks = vec![];
  let mut i = 0;
  while i < p.len() {
    match p[i] {
      '?' => {
        toks.push(T::Any);
        i += 1;
      }
      '*' => {
        let mut n = 0;
        while i + n < p.len() && p[i + n] == '*' {
          n += 1;
        }
        match n {
          1 => {
            toks.push(T::Star);
            i += 1;
          }
          2 => {
            let before = i == 0 || p[i - 1] == '/';
            if !before {
              return None;
            }
            if i + 2 == p.len() {
              toks.push(T::Star);
              i += 2;
            } else if p[i + 2] == '/' {
              toks.push(T::Deep);
              i += 3;
            } else {
              return None;
            }
          }
          _ => return None,
        }
      }
      '[' => {
        let mut j = i + 1;
        let neg = j < p.len() && p[j] == '!';
        if neg {
          j += 1;
        }
        let start = j;
        // a ] directly after the opening is a member
        let mut end = start + 1;
        while end < p.len() && p[end] != ']' {
          end += 1;
        }
        if end >= p.len() {
          return None;
        }
        let cs = &p[start..end];
        let mut set = vec![];
        let mut k = 0;
        while k < cs.len() {
          if k + 3 <= cs.len() && cs[k + 1] == '-' {
            set.push((cs[k], cs[k + 2]));
            k += 3;
          } else {
            set.push((cs[k], cs[k]));
            k += 1;
          }
        }
        toks.push(T::Set(neg, set));
        i = end + 1;
      }
      c => {
        toks.push(T::C(c));
        i += 1;
      }
    }
  }
  let t: Vec<char> = text.chars().collect();
  // dynamic programming over (token, position)
  let (n, m) = (toks.len(), t.len());
  let mut ok = vec![vec![false; m + 1]; n + 1];
  ok[n][m] = true;
  for a in (0..n).rev() {
    for b in (0..=m).rev() {
      ok[a][b] = match &toks[a] {
        T::C(c) => b < m && t[b] == *c && ok[a + 1][b + 1],
        T::Any => b < m && ok[a + 1][b + 1],
        T::Set(neg, s) => b < m && (s.iter().any(|(x, y)| *x <= t[b] && t[b] <= *y) != *neg) && ok[a + 1][b + 1],
        T::Star => (b..=m).any(|k| ok[a + 1][k]),
        // nothing, or any number of whole components
        T::Deep => ok[a + 1][b] || (b + 1..=m).any(|k| t[k - 1] == '/' && ok[a + 1][k]),
      };
    }
  }
  Some(ok[0][0])
}

pub fn path(r: &mut Rng) -> String {
  let n = r.range(1, 4);
  let mut s = vec![];
  for _ in 0..n {
    s.push(r.pick(&["a", "b", "ab", "src", "lib.rs", "main.rs", ".github", "docs", "README.md", "Src", "a-b", "é", "x y", "1", "refs", "heads", "!a", "!", "..", "#a", "a,b", "{a,b}"]).to_string());
  }
  let s = s.join("/");
  match r.below(40) {
    0 => format!("/{}", s),
    1 => format!("./{}", s),
    2 => format!("refs/heads/{}", s),
    3 => format!("origin/{}", s),
    _ => s,
  }
}

/// A pattern, derived from the text more often than not.
pub fn pattern(r: &mut Rng, text: &str) -> String {
  if r.chance(1, 8) {
    return r
      .pick(&["a**", "***", "[", "a/**b", "[!", "[]", "**a", "src/***", "[a", "x/[!]", "", "*", "**", "**/*", "*/*", "?", "[!a]", "[a-c]", "[]]", "**/**"])
      .to_string();
  }
  let mut cs: Vec<String> = text.chars().map(|c| c.to_string()).collect();
  for _ in 0..r.below(4) {
    if cs.is_empty() {
      break;
    }
    let i = r.us(cs.len());
    match r.below(10) {
      0 => cs[i] = "?".into(),
      1 | 2 => {
        let j = r.range(i as u64, cs.len() as u64) as usize;
        cs.splice(i..j, ["*".to_string()]);
      }
      3 => {
        let c = cs[i].chars().next().unwrap();
        if c.is_ascii_alphanumeric() {
          cs[i] = match r.below(4) {
            0 => format!("[{}]", c),
            1 => format!("[!{}]", c),
            2 => "[a-z]".into(),
            _ => "[!0-9x]".into(),
          };
        }
      }
      4 | 5 => {
        // a whole component, or several, becomes **
        let s: String = cs.concat();
        let mut comps: Vec<String> = s.split('/').map(|x| x.to_string()).collect();
        let a = r.us(comps.len());
        let b = r.range(a as u64, comps.len() as u64) as usize;
        comps.splice(a..b, ["**".to_string()]);
        cs = comps.join("/").chars().map(|c| c.to_string()).collect();
      }
      6 => {
        cs.remove(i);
      }
      7 => cs[i] = r.pick(&["a", "B", ".", "/"]).to_string(),
      8 => cs.truncate(i),
      _ => {}
    }
  }
  let mut s = cs.concat();
  match r.below(50) {
    0 => s.insert(0, '!'),
    1 => s.insert(0, '/'),
    2 => s.insert_str(0, "./"),
    3 => s.insert(0, ' '),
    4 => s.push(' '),
    5 => s.push('/'),
    _ => {}
  }
  // a trailing "**/" is the one form whose meaning for files is not agreed upon
  s.strip_suffix("**/").map(|x| format!("{}**", x)).unwrap_or(s)
}

pub fn ref_condition(v: &Value, event: &str, branch: &str, paths: &[String]) -> bool {
  match v {
    Value::Array(l) => l.iter().any(|e| e == event),
    Value::Object(m) => {
      if event != "push" && event != "pull_request" {
        return false;
      }
      let Some(e) = m.get(event) else { return false };
      let some = |key: &str, values: &[String]| match e.get(key) {
        None => true,
        Some(p) => p.as_array().unwrap().iter().any(|p| values.iter().any(|v| ref_glob(p.as_str().unwrap(), v).unwrap_or(false))),
      };
      some("branches", &[branch.to_string()]) && some("paths", paths)
    }
    _ => true,
  }
}

/// A condition as configuration, with patterns near the given branch and paths.
fn list_len(r: &mut Rng) -> u64 {
  match r.below(24) {
    0 => r.range(8, 24),
    1 => r.range(25, 150),
    _ => r.below(4),
  }
}

pub fn gen_condition(r: &mut Rng, branch: &str, paths: &[String]) -> Value {
  if r.chance(1, 4) {
    return json!((0..r.below(4)).map(|_| r.pick(&["push", "pull_request", "Push", "tag", ""]).to_string()).collect::<Vec<_>>());
  }
  let mut m = Map::new();
  for ev in ["push", "pull_request"] {
    if r.chance(2, 3) {
      let mut e = Map::new();
      if r.chance(2, 3) {
        e.insert("branches".into(), json!((0..list_len(r)).map(|k| if k > 3 && !r.chance(1, 20) { format!("Zq{}/?", k) } else if r.chance(1, 4) { r.pick(&["main", "release/*", "dev"]).to_string() } else { pattern(r, branch) }).collect::<Vec<_>>()));
      }
      if r.chance(2, 3) {
        e.insert(
          "paths".into(),
          json!((0..list_len(r))
            .map(|k| {
              if k > 3 && !r.chance(1, 20) {
                // filler of a long list, matching nothing
                return format!("Zq{}/*.z{}", k, r.below(9));
              }
              let t = if paths.is_empty() || r.chance(1, 4) { path(r) } else { r.pick(paths).clone() };
              pattern(r, &t)
            })
            .collect::<Vec<_>>()),
        );
      }
      m.insert(ev.to_string(), Value::Object(e));
    }
  }
  Value::Object(m)
}

pub fn c16(case: &mut Case) {
  for _ in 0..60 {
    let mut r = case.rng.fork();
    let r = &mut r;
    let branch = match r.below(5) {
      0 => "main".to_string(),
      1 => "release/1.2".to_string(),
      2 => String::new(),
      _ => path(r),
    };
    let mut paths: Vec<String> = (0..r.below(5)).map(|_| path(r)).collect();
    let near = paths.clone();
    if r.chance(1, 12) {
      // a large change set, the interesting files anywhere in it
      for k in 0..*r.pick(&[20, 99, 101, 256, 300, 1001, 2100]) {
        let at = r.us(paths.len() + 1);
        if r.chance(1, 2) {
          paths.push(format!("Zq/gen{}", k));
        } else {
          paths.insert(at, format!("Zq/gen{}", k));
        }
      }
      case.count("large_change_sets", 1);
    }
    let paths = paths;
    let event = r.pick(&["push", "push", "push", "pull_request", "pull_request", "tag", ""]).to_string();
    let v = gen_condition(r, &branch, &near);
    let want = ref_condition(&v, &event, &branch, &paths);
    case.evals(1);
    let Some(text) = render(&v, r) else { continue };
    let cond: Condition = match serde_yaml::from_str(&text) {
      Ok(c) => c,
      Err(e) => {
        case.fail(format!("condition {} is not accepted: {}", text, e), json!({}));
        return;
      }
    };
    let got = cond.is_match(&ConditionPayload { event: event.clone(), branch: branch.clone(), paths: paths.clone() });
    case.count(if want { "matching" } else { "not_matching" }, 1);
    if v.is_object() {
      let pats: Vec<String> = v.as_object().unwrap().values().flat_map(|e| e.as_object().unwrap().values()).flat_map(|l| l.as_array().unwrap().iter().map(|p| p.as_str().unwrap().to_string())).collect();
      case.count("patterns", pats.len() as u64);
      case.count("invalid_patterns", pats.iter().filter(|p| ref_glob(p, "").is_none()).count() as u64);
    }
    case.nontrivial(hash_str(3, &format!("{}{}{}{:?}", v, event, branch, paths)));
    if got != want {
      case.fail(format!("the condition {} {} event {:?} on branch {:?} with paths {:?}", v, if got { "matches" } else { "does not match" }, event, branch, paths), json!({"condition": v, "expected": want}));
      return;
    }
    case.sample(|| json!({"condition": v, "event": event, "branch": branch, "paths": paths, "matches": want}));
  }
}
