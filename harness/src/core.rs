//! Properties of the execution engine, decided by trace monitors over generated runs.
use crate::engine::*;
use crate::frame::*;
use crate::gen::{self, Profile};
use crate::monitors::Tr;
use crate::rng::Rng;
use astro_run::*;
use serde_json::{json, Value};
use std::sync::Arc;

#[derive(Clone)]
pub struct Opts {
  pub p: Profile,
  /// per cent of runs in virtual time
  pub virt: u64,
  pub plugins: (u64, u64),
  pub hook_err: bool,
  pub hook_delay: bool,
  pub rewrite: bool,
  pub rewrite_timeout: bool,
  pub hook_panic: bool,
  pub workflows: (u64, u64),
  pub rerun: bool,
  pub context: bool,
  pub decorate: bool,
  /// sometimes jobs and steps have conditions
  pub conditions: bool,
  /// which other features are now and then mixed into the workload
  pub mix: Mix,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mix {
  No,
  /// what leaves the moments of the run alone
  Untimed,
  All,
}

/// The same workload with a few of all the other features in it.
fn mix(r: &mut Rng, o: &Opts) -> Opts {
  let mut o = o.clone();
  let all = o.mix == Mix::All;
  if r.chance(1, 2) {
    o.p.logs = o.p.logs.max(*r.pick(&[1, 4, 9]));
  }
  o.p.hostile |= r.chance(1, 4);
  o.p.producers |= r.chance(1, 3);
  o.p.second_end |= r.chance(1, 4);
  o.hook_err |= r.chance(1, 3);
  o.context |= r.chance(1, 3);
  o.decorate |= r.chance(1, 3);
  if r.chance(1, 2) {
    o.plugins.1 = o.plugins.1.max(3);
  }
  if r.chance(1, 3) {
    o.workflows.1 = o.workflows.1.max(3);
    o.p.jobs.1 = o.p.jobs.1.min(4);
  }
  o.rerun |= r.chance(1, 6);
  if all {
    o.p.timeouts |= r.chance(1, 2);
    if r.chance(1, 2) {
      o.p.cancels = o.p.cancels.max(r.range(1, 3));
    }
    if r.chance(1, 4) {
      o.p.vanish = o.p.vanish.max(8);
    }
    if r.chance(1, 4) {
      o.p.panic = o.p.panic.max(4);
    }
    if r.chance(1, 4) {
      o.rewrite = true;
    }
  }
  o
}

impl Default for Opts {
  fn default() -> Self {
    Opts {
      p: Profile::default(),
      virt: 75,
      plugins: (0, 2),
      hook_err: false,
      hook_delay: true,
      rewrite: false,
      rewrite_timeout: false,
      hook_panic: false,
      workflows: (1, 1),
      rerun: false,
      context: false,
      decorate: false,
      conditions: false,
      mix: Mix::All,
    }
  }
}

pub fn event(r: &mut Rng) -> TriggerEvent {
  TriggerEvent {
    event: r.pick(&["push", "pull_request", "", "weird \"event\""]).to_string(),
    repo_owner: r.text(4),
    repo_name: r.text(4),
    branch: if r.chance(1, 10) { format!("feature/{}{}", "long-".repeat(r.range(5, 60) as usize), r.text(2)) } else { r.text(4) },
    pr_number: if r.chance(1, 2) { None } else { Some(r.next() as i64) },
    sha: r.ident(8),
    ref_name: r.text(3),
  }
}

pub fn payload(r: &mut Rng) -> Payload {
  Payload {
    tag: if r.chance(1, 25) { "long ".repeat(r.range(800, 30_000) as usize) } else { r.text(6) },
    n: r.next() as i64,
    list: (0..r.below(4)).map(|_| if r.chance(1, 3) { None } else { Some(r.text(3)) }).collect(),
  }
}

pub struct RunInfo<'a> {
  pub event: Value,
  pub payload: Value,
  pub world: &'a Arc<World>,
}

type Check = dyn Fn(&mut Case, &Tr, &RunInfo) -> Vec<String>;

/// Give the workflows, jobs and steps conditions, decided by known change sets.
pub fn add_conditions(case: &mut Case, r: &mut Rng, w: &World, specs: &mut [WfSpec], ctxs: &mut [(Option<TriggerEvent>, Option<Payload>)]) {
  *w.token.lock() = Some(crate::github::TOKEN.into());
  for (i, (s, ctx)) in specs.iter_mut().zip(ctxs.iter_mut()).enumerate() {
    let (event, paths) = crate::github::known_event(&format!("repo-{}-{}", case.idx, i), r);
    let mut left_out = vec![];
    let mut on = |r: &mut Rng, per_cent: u64, job: Option<String>, step: Option<usize>| {
      if r.below(100) >= per_cent {
        return None;
      }
      let c = crate::config::gen_condition(r, &event.branch, &paths);
      if !crate::config::ref_condition(&c, &event.event, &event.branch, &paths) {
        left_out.push((s.id.clone(), job, step));
      }
      Some(c)
    };
    s.on = on(r, 25, None, None);
    for j in s.jobs.iter_mut() {
      j.on = on(r, 30, Some(j.key.clone()), None);
      for (i, st) in j.steps.iter_mut().enumerate() {
        st.on = on(r, 30, Some(j.key.clone()), Some(i));
      }
    }
    if r.chance(1, 6) {
      // without an event everything runs
      ctx.0 = None;
      left_out.clear();
    } else {
      ctx.0 = Some(event.clone());
    }
    case.count("conditional_workflows", 1);
    case.count("left_out_by_conditions", left_out.len() as u64);
    w.left_out.lock().extend(left_out);
  }
}

/// Generate a world, run it, feed every run to `check`.
pub fn drive(case: &mut Case, o: &Opts, check: &Check) {
  let mut r = case.rng.fork();
  let conditions = o.conditions && case.idx % 16 == 11;
  let mixed;
  let o = if !conditions && o.mix != Mix::No && (case.idx / 8) % 4 == 2 {
    mixed = mix(&mut r, o);
    case.count("mixed_workloads", 1);
    &mixed
  } else {
    o
  };
  let virt = r.below(100) < o.virt && !conditions;
  let mut hooks = HookCfg { delay_max: 30, ..Default::default() };
  if o.hook_err && r.chance(2, 3) {
    hooks.err = *r.pick(&[60, 300, 1000]);
  }
  if o.hook_delay && r.chance(1, 3) {
    hooks.delay = *r.pick(&[50, 300, 1000]);
  }
  if o.rewrite {
    hooks.rewrite = *r.pick(&[300, 700, 1000]);
    hooks.rewrite_timeout = o.rewrite_timeout && r.chance(2, 3);
  }
  let mut nplugins = r.range(o.plugins.0, o.plugins.1);
  if nplugins > 0 && r.chance(1, 25) {
    nplugins += r.range(4, 14);
  }
  let plan = PluginPlan { plugins: (0..nplugins).map(|_| r.chance(1, 3)).collect() };
  let mut nwf = r.range(o.workflows.0, o.workflows.1);
  let mut o = o.clone();
  if conditions {
    o.p.scale = false;
    o.p.logs = o.p.logs.min(2);
    nwf = nwf.min(3);
  } else if nwf > 1 && r.chance(1, 30) {
    nwf = r.range(12, 40);
    o.p.jobs.1 = o.p.jobs.1.min(2);
    o.p.scale = false;
  }
  let o = &o;
  let mut specs = vec![];
  let shared = r.ident(6);
  let alike = r.chance(1, 2);
  for i in 0..nwf {
    let mut s = gen::spec(&mut r, &gen::workflow_id(&shared, i, alike), &o.p, virt);
    if o.decorate {
      gen::decorate(&mut r, &mut s);
    }
    specs.push(s);
  }
  if nwf > 1 && r.chance(1, 2) {
    // equal job keys everywhere
    for s in specs.iter_mut() {
      let mut idx: Vec<(String, String)> = s.jobs.iter().enumerate().map(|(i, j)| (j.key.clone(), format!("job-{}", i))).collect();
      idx.sort();
      let ren = |k: &str| idx.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or(k.to_string());
      for j in s.jobs.iter_mut() {
        j.key = ren(&j.key);
        j.deps = j.deps.iter().map(|d| ren(d)).collect();
      }
      for c in s.cancels.iter_mut() {
        c.job = ren(&c.job);
      }
    }
  }
  if o.hook_panic && nplugins > 0 && r.chance(1, 3) {
    let kinds = ["RunJob", "BeforeStep", "RunStep", "State", "Log", "StepDone", "JobDone"];
    let k = r.pick(&kinds).to_string();
    let j = specs[0].jobs[r.us(specs[0].jobs.len())].key.clone();
    // only trait plugins panic
    let obs = r.us(nplugins as usize);
    if !plan.plugins[obs] {
      hooks.panic_at = Some((obs, k, j));
    }
  }
  let acts: usize = specs.iter().flat_map(|s| s.jobs.iter()).flat_map(|j| j.steps.iter()).map(|s| s.script.acts.len()).sum();
  if !virt && acts > 400 {
    // real time is spent in every hook
    hooks.delay = 0;
  }
  let seed = r.next();
  let w = World::new(seed, virt, hooks);
  let rt = if virt { rt_virtual() } else { rt_real(*r.pick(&[2, 3, 4, 8])) };
  let runs = if o.rerun && r.chance(1, 3) {
    if r.chance(1, 10) { 8 } else { 2 }
  } else {
    1
  };
  let mut ctxs = vec![];
  for _ in 0..nwf {
    let e = if o.context && r.chance(2, 3) { Some(event(&mut r)) } else { None };
    let p = if o.context && r.chance(2, 3) { Some(payload(&mut r)) } else { None };
    ctxs.push((e, p));
  }
  if conditions {
    add_conditions(case, &mut r, &w, &mut specs, &mut ctxs);
  }
  case.describe(format!("{} run of {}", if virt { "virtual" } else { "real" }, specs[0].id));
  let np = plan.plugins.len();
  let (outs, marks) = rt.block_on(async {
    let astro = build_astro(&w, &plan, ScriptRunner { w: w.clone(), obs: RUNNER });
    let mut outs = vec![];
    let mut marks = vec![];
    let mut built: Vec<Option<Workflow>> = vec![None; specs.len()];
    for _ in 0..runs {
      w.signals.lock().clear();
      w.hook_calls.lock().clear();
      w.cancels.lock().clear();
      marks.push(w.rec.len());
      let mut hs = vec![];
      for (i, s) in specs.iter().enumerate() {
        let (w, astro, s, c, b) = (w.clone(), astro.clone(), s.clone(), ctxs[i].clone_pair(), built[i].clone());
        hs.push(tokio::spawn(async move {
          let opts = CtxOpts { event: c.0, payload: c.1 };
          match b {
            Some(b) => {
              w.add(&s);
              run_built(&w, &astro, &s, b, opts).await
            }
            None => run_spec(&w, &astro, &s, opts).await,
          }
        }));
      }
      let mut os = vec![];
      for (i, h) in hs.into_iter().enumerate() {
        let out = h.await.expect("run task");
        built[i] = out.workflow.clone();
        os.push(out);
      }
      let sigs = w.signals.lock().clone();
      outs.push((os, sigs));
    }
    (outs, marks)
  });
  let evs = w.rec.take();
  rt.shutdown_background();
  if conditions {
    crate::github::forget();
  }
  case.count("runs", (runs * nwf) as u64);
  case.count("events", evs.len() as u64);
  case.count(if virt { "virtual_runs" } else { "threaded_runs" }, runs as u64);
  let sig = signature(&evs);
  for (n, (os, sigs)) in outs.iter().enumerate() {
    let to = marks.get(n + 1).cloned().unwrap_or(evs.len());
    let slice = &evs[marks[n]..to];
    *w.signals.lock() = sigs.clone();
    for (i, out) in os.iter().enumerate() {
      if matches!(&out.result, Err(e) if e == "inconclusive") {
        case.inconclusive("run neither ended nor became quiet in time");
        continue;
      }
      let t = Tr::new(&w, slice, out, np, Some(RUNNER));
      let info = RunInfo {
        event: serde_json::to_value(&ctxs[i].0).unwrap(),
        payload: serde_json::to_value(&ctxs[i].1.clone().map(|p| Box::new(p) as Box<dyn ContextPayloadExt>)).unwrap(),
        world: &w,
      };
      case.count("jobs", out.spec.jobs.len() as u64);
      case.count("steps_executed", t.evs.iter().filter(|e| e.k == K::Run && !e.exit).count() as u64);
      case.count("log_lines", t.evs.iter().filter(|e| e.k == K::Sent).count() as u64);
      let vs = check(case, &t, &info);
      if !vs.is_empty() {
        case.fail(
          vs[0].clone(),
          json!({"violations": vs, "spec": out.spec.to_value(), "scripts": format!("{:?}", out.spec.jobs), "virtual": virt,
            "hooks": format!("{:?}", w.hooks), "plugins": plan.plugins, "run": n, "cancels": format!("{:?}", out.spec.cancels),
            "result": format!("{:?}", out.result), "trace": compact(&slice.iter().filter(|e| e.wf == out.spec.id).cloned().collect::<Vec<_>>(), 160)}),
        );
      }
    }
  }
  case.evals((runs * nwf) as u64);
  case.nontrivial(sig);
  case.sample(|| json!({"seed": case_seed(seed), "virtual": virt, "workflow": specs[0].to_value(), "trace": compact(&evs, 40)}));
}

fn case_seed(s: u64) -> String {
  format!("{:x}", s)
}

trait ClonePair {
  fn clone_pair(&self) -> (Option<TriggerEvent>, Option<Payload>);
}
impl ClonePair for (Option<TriggerEvent>, Option<Payload>) {
  fn clone_pair(&self) -> (Option<TriggerEvent>, Option<Payload>) {
    (self.0.clone(), self.1.clone())
  }
}

pub fn c01(case: &mut Case) {
  let o = Opts {
    p: Profile { steps: (1, 2), jobs: (1, if case.idx % 5 == 0 { 14 } else { 7 }), logs: 1, ..Default::default() },
    rerun: true,
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, _| {
    let edges: u64 = t.spec.jobs.iter().map(|j| j.deps.len() as u64).sum();
    c.count("dependency_edges", edges);
    t.c01()
  });
}

pub fn c03(case: &mut Case) {
  let o = Opts {
    p: Profile { refuse: 10, panic: 8, vanish: 15, ..Default::default() },
    hook_panic: true,
    plugins: (0, 3),
    ..Default::default()
  };
  drive(case, &o, &|c, t, _| {
    let crashed = t.spec.jobs.iter().filter(|j| t.crashed(&j.key)).count() as u64;
    c.count("crashed_jobs", crashed);
    c.count("vanished_streams", t.evs.iter().filter(|e| e.k == K::End && (e.s == "vanish" || e.s == "panic")).count() as u64);
    let mut v = t.c03();
    if v.is_empty() {
      // the rest of the workflow behaves as if nothing had happened
      v = t.c01();
      v.extend(t.c04());
    }
    v
  });
}

pub fn c04(case: &mut Case) {
  let o = Opts {
    p: Profile { steps: (1, 6), jobs: (1, 3), fail: 25, cancelled: 10, refuse: 8, cancels: if case.idx % 3 == 0 { 2 } else { 0 }, ..Default::default() },
    hook_err: true,
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, _| {
    if let Ok(r) = &t.out.result {
      for j in r.jobs.values() {
        c.count("skipped_steps", j.steps.iter().filter(|s| s.state == WorkflowState::Skipped).count() as u64);
      }
    }
    t.c04()
  });
}

pub fn c05(case: &mut Case) {
  let o = Opts {
    p: Profile { steps: (1, 4), jobs: (1, 4), fail: 25, cancelled: 10, refuse: 8, second_end: true, ..Default::default() },
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, _| {
    if let Ok(r) = &t.out.result {
      c.count(&format!("workflows_{}", sname(&r.state)), 1);
    }
    t.c05()
  });
}

pub fn c06(case: &mut Case) {
  let o = Opts {
    p: Profile { steps: (1, 4), jobs: (1, 5), fail: 15, cancelled: 8, cancels: if case.idx % 4 == 0 { 2 } else { 0 }, ..Default::default() },
    plugins: (1, 3),
    hook_err: true,
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|_, t, _| t.c06());
}

pub fn c07(case: &mut Case) {
  let o = Opts {
    p: Profile { steps: (1, 3), jobs: (1, 5), density: 10, logs: 12, hostile: true, producers: true, ..Default::default() },
    virt: 40,
    plugins: (1, 2),
    hook_err: true,
    ..Default::default()
  };
  drive(case, &o, &|_, t, _| t.c07());
}

pub fn c08(case: &mut Case) {
  let o = Opts {
    p: Profile { steps: (1, 3), jobs: (1, 4), logs: 4, ..Default::default() },
    plugins: (1, 5),
    hook_err: true,
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, _| {
    c.count("hook_errors", t.evs.iter().filter(|e| e.exit && e.s == "err").count() as u64);
    let mut v = t.c08();
    if v.is_empty() {
      v = t.c05();
    }
    v
  });
}

pub fn c09(case: &mut Case) {
  // also what is enforced: rewritten timeouts
  if case.idx % 3 == 0 {
    let o = Opts {
      p: Profile { steps: (1, 4), jobs: (1, 3), logs: 1, timeouts: true, long: true, ..Default::default() },
      virt: 100,
      plugins: (1, 4),
      hook_delay: false,
      hook_err: true,
      rewrite: true,
      rewrite_timeout: true,
      mix: Mix::Untimed,
      ..Default::default()
    };
    return drive(case, &o, &|c, t, _| {
      c.count("rewrites", t.evs.iter().filter(|e| e.k == K::Custom).count() as u64);
      let mut v = t.c09();
      if v.is_empty() {
        let (w, fired, _) = t.c10();
        c.count("rewritten_or_configured_timeouts_fired", fired);
        v = w;
      }
      v
    });
  }
  let o = Opts {
    p: Profile { steps: (1, 4), jobs: (1, 3), logs: 1, ..Default::default() },
    plugins: (1, 5),
    hook_err: true,
    rewrite: true,
    decorate: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, _| {
    c.count("rewrites", t.evs.iter().filter(|e| e.k == K::Custom).count() as u64);
    t.c09()
  });
}

pub fn c10(case: &mut Case) {
  if (case.idx / 8) % 600 == 5 {
    return crate::deadline::real(case);
  }
  if (case.idx / 8) % 12 == 7 {
    return crate::backlog::run(case, false);
  }
  let rw = case.idx % 4 == 0;
  let o = Opts {
    p: Profile { timeouts: true, logs: 3, steps: (1, 3), jobs: (1, 4), long: true, cancels: if case.idx % 5 == 0 { 2 } else { 0 }, ..Default::default() },
    virt: 100,
    hook_delay: false,
    rewrite: rw,
    rewrite_timeout: rw,
    mix: Mix::Untimed,
    ..Default::default()
  };
  drive(case, &o, &|c, t, _| {
    let (v, fired, quiet) = t.c10();
    c.count("timeouts_fired", fired);
    c.count("ended_before_timeout", quiet);
    v
  });
}

pub fn c11(case: &mut Case) {
  if (case.idx / 8) % 12 == 7 {
    return crate::backlog::run(case, true);
  }
  let o = Opts {
    p: Profile { cancels: 4, steps: (1, 4), jobs: (1, 4), timeouts: case.idx % 4 == 0, ..Default::default() },
    plugins: (0, 2),
    hook_delay: case.idx % 2 == 0,
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, _| {
    let (mut v, n) = t.c11();
    for (k, x) in n {
      c.count(&format!("cancel_{}", k), x);
    }
    if v.is_empty() {
      v = t.c04();
    }
    v
  });
}

pub fn c18(case: &mut Case) {
  let o = Opts {
    p: Profile { jobs: (1, 4), ..Default::default() },
    context: true,
    workflows: (1, 3),
    plugins: (1, 2),
    hook_err: true,
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, i| {
    if !i.event.is_null() {
      c.count("with_event", 1);
    }
    if !i.payload.is_null() {
      c.count("with_payload", 1);
    }
    t.c18(&i.event, &i.payload)
  });
}

pub fn c20(case: &mut Case) {
  let o = Opts {
    p: Profile { jobs: (1, 5), logs: 4, cancels: if case.idx % 2 == 0 { 2 } else { 0 }, ..Default::default() },
    workflows: (2, 6),
    plugins: (0, 2),
    virt: 60,
    context: true,
    conditions: true,
    ..Default::default()
  };
  drive(case, &o, &|c, t, i| {
    let mut v = t.c01();
    v.extend(t.c04());
    v.extend(t.c05());
    v.extend(t.c06());
    v.extend(t.c07());
    let (x, n) = t.c11();
    c.count("cancel_accepted", n.get("accepted").cloned().unwrap_or(0));
    v.extend(x);
    v.extend(t.c18(&i.event, &i.payload));
    v
  });
}
