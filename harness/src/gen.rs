//! Generation of workflows, scripts, fault placements and cancellation plans.
use crate::engine::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Profile {
  pub jobs: (u64, u64),
  pub steps: (u64, u64),
  /// per cent of possible dependency edges
  pub density: u64,
  /// per cent of steps that fail / are cancelled by their runner / refused
  pub fail: u64,
  pub cancelled: u64,
  pub refuse: u64,
  pub vanish: u64,
  pub panic: u64,
  pub coe: u64,
  pub logs: u64,
  pub hostile: bool,
  pub producers: bool,
  pub timeouts: bool,
  pub cancels: u64,
  pub second_end: bool,
  pub max_ms: u64,
  pub long: bool,
  /// now and then a workload that is large in one dimension
  pub scale: bool,
}

impl Default for Profile {
  fn default() -> Self {
    Profile {
      jobs: (1, 7),
      steps: (1, 3),
      density: 35,
      fail: 12,
      cancelled: 5,
      refuse: 5,
      vanish: 0,
      panic: 0,
      coe: 30,
      logs: 3,
      hostile: false,
      producers: false,
      timeouts: false,
      cancels: 0,
      second_end: false,
      max_ms: 40,
      long: false,
      scale: true,
    }
  }
}

fn dur(r: &mut Rng, p: &Profile, virt: bool) -> u64 {
  if !virt {
    return match r.below(6) {
      0 | 1 => 0,
      2..=4 => r.below(4),
      _ => r.below(9),
    };
  }
  if p.long && r.chance(1, 12) {
    // rarely days or months: no part of the limit may be lost to a narrower type
    if r.chance(1, 8) {
      return r.range(20_000_000, 5_500_000_000);
    }
    return r.range(3_000_000, 8_000_000);
  }
  match r.below(8) {
    0 | 1 => 0,
    2 => 10,
    3 => 20,
    4 | 5 => r.below(p.max_ms),
    6 => r.below(10 * p.max_ms),
    _ => 1,
  }
}

pub fn script(r: &mut Rng, p: &Profile, virt: bool) -> Script {
  let mut s = Script::default();
  if r.chance(1, 4) {
    s.run_delay = dur(r, p, virt);
    if s.run_delay > 1_000_000 {
      s.run_delay = 7;
    }
  }
  s.run_yields = if r.chance(1, 4) { r.below(4) } else { 0 };
  let x = r.below(100);
  if x < p.refuse {
    s.ret = Ret::Err;
  } else if x < p.refuse + p.panic {
    s.ret = Ret::Panic;
  }
  let bits = 1 + r.below(3);
  for b in 0..bits {
    let lines = if p.logs == 0 { 0 } else { r.below(p.logs + 1) };
    for l in 0..lines {
      let text = if p.hostile {
        match r.below(12) {
          0 => String::new(),
          1 => match r.below(60) {
            0 => "y".repeat(r.range(60_000, 70_000) as usize),
            1 => "é".repeat(r.range(65_000, 140_000) as usize),
            2 if r.chance(1, 4) => format!("{}!", "z".repeat(r.range(1_048_570, 1_200_000) as usize)),
            _ => "x".repeat(r.us(3000)),
          },
          2 | 3 => "same".to_string(),
          4 => format!("#{}", r.below(3)),
          _ => {
            let t = r.text(12);
            if t.starts_with('@') {
              format!("_{}", t)
            } else {
              t
            }
          }
        }
      } else {
        format!("l{}.{}", b, l)
      };
      s.acts.push(if r.chance(1, 3) { Act::Err(text) } else { Act::Log(text) });
      if r.chance(1, 5) {
        s.acts.push(Act::Yield);
      }
      if !virt && r.chance(1, 12) {
        s.acts.push(Act::SleepUs(r.below(300)));
      }
    }
    let d = dur(r, p, virt);
    if d > 0 {
      s.acts.push(Act::Sleep(d));
    }
  }
  if p.logs > 0 && r.chance(1, 2) {
    // output right before the end
    for i in 0..r.below(p.logs + 1) {
      s.acts.push(Act::Log(format!("tail{}", i)));
    }
  }
  let x = r.below(100);
  s.fin = if x < p.fail {
    Fin::Failed(*r.pick(&[1, 2, -1, 0, 127, 255, i32::MAX, i32::MIN, 123]))
  } else if x < p.fail + p.cancelled {
    Fin::Cancelled
  } else if x < p.fail + p.cancelled + p.vanish {
    if r.chance(1, 2) {
      Fin::Vanish
    } else {
      Fin::Panic
    }
  } else {
    Fin::Succeeded
  };
  let bare = s.acts.iter().all(|a| !matches!(a, Act::Sleep(_)));
  s.inline = bare && s.fin != Fin::Panic && r.chance(1, 3);
  s.react = match r.below(6) {
    0 => React::Ignore,
    1 | 2 | 3 => React::Standard,
    4 => React::End(r.pick(&[Fin::Succeeded, Fin::Failed(7), Fin::Cancelled]).clone()),
    _ => React::After(r.range(1, if virt { 60 } else { 5 }), r.pick(&[Fin::Succeeded, Fin::Failed(9), Fin::Cancelled]).clone()),
  };
  if p.logs > 0 && r.chance(1, 2) {
    s.farewell = r.below(2 + 3 * p.logs);
  }
  if p.producers && r.chance(1, 2) {
    for _ in 0..r.range(1, 4) {
      s.producers.push(r.below(25));
    }
  }
  if p.second_end && s.fin != Fin::Vanish && r.chance(1, 2) {
    s.second_end = Some(r.pick(&[Fin::Succeeded, Fin::Failed(77), Fin::Cancelled]).clone());
  }
  s.os_thread = !virt && r.chance(1, 4);
  s
}

#[derive(Clone, Copy, PartialEq)]
enum Scale {
  Normal,
  /// many short jobs at once
  Wide,
  /// a long chain of short jobs
  Deep,
  /// many short jobs that one job waits for
  Star,
  /// many short jobs that wait for one job (and, sometimes, for another one more)
  Fan,
  /// many steps in a job
  Steps,
  /// very many lines in a row
  Lines,
}

pub fn spec(r: &mut Rng, id: &str, p: &Profile, virt: bool) -> WfSpec {
  let scale = if p.scale && r.chance(1, 12) {
    *r.pick(&[Scale::Wide, Scale::Wide, Scale::Deep, Scale::Star, Scale::Fan, Scale::Fan, Scale::Steps, Scale::Lines])
  } else {
    Scale::Normal
  };
  let n = match scale {
    Scale::Wide | Scale::Star | Scale::Fan => r.range(15, 80),
    Scale::Deep => r.range(12, 40),
    Scale::Steps | Scale::Lines => r.range(1, 2),
    Scale::Normal => r.range(p.jobs.0, p.jobs.1),
  } as usize;
  let small;
  let p = match scale {
    Scale::Normal | Scale::Steps | Scale::Lines => p,
    _ => {
      small = Profile { steps: (1, 1), logs: p.logs.min(1), max_ms: 4, long: false, ..p.clone() };
      &small
    }
  };
  // short jobs that all end at the same moment
  let fan2 = r.chance(1, 3);
  let instant = scale != Scale::Normal && r.chance(2, 3);
  let mut keys: Vec<String> = vec![];
  while keys.len() < n {
    let k = match r.below(8) {
      0..=3 => format!("j{}", keys.len()),
      // like another one
      4 | 5 if !keys.is_empty() => {
        let k = r.pick(&keys).clone();
        match r.below(6) {
          0 => k.to_uppercase(),
          1 => format!("{}-", k),
          2 => format!("{}1", k),
          3 => format!("1{}", k),
          4 => format!("{} {}", k, k),
          _ => format!("{}{}", k, "-and-more".repeat(r.range(3, 8) as usize)),
        }
      }
      _ => r.ident(8),
    };
    if !keys.contains(&k) {
      keys.push(k);
    }
  }
  let density = match r.below(4) {
    0 => 0,
    1 => p.density * 2,
    _ => p.density,
  };
  let mut jobs = vec![];
  for i in 0..n {
    let mut deps = vec![];
    let density = match scale {
      Scale::Wide => density.min(2),
      Scale::Deep => density.min(10),
      Scale::Star => if i + 1 == n { 100 } else { 0 },
      Scale::Fan => 0,
      _ => density,
    };
    if scale == Scale::Fan {
      if i > 0 {
        deps.push(keys[0].clone());
      }
      if fan2 && i > 1 {
        deps.push(keys[1].clone());
      }
    }
    if scale == Scale::Deep && i > 0 {
      deps.push(keys[i - 1].clone());
    }
    for k in keys.iter().take(i) {
      if r.below(100) < density && !deps.contains(k) {
        deps.push(k.clone());
      }
    }
    if !deps.is_empty() && r.chance(1, 15) {
      let d = deps[0].clone();
      deps.push(d);
    }
    r.shuffle(&mut deps);
    let m = if scale == Scale::Steps { if r.chance(1, 8) { r.range(100, 300) } else { r.range(8, 50) } } else { r.range(p.steps.0, p.steps.1) };
    let mut steps = vec![];
    for _ in 0..m {
      let mut script = script(r, p, virt);
      if instant {
        script.run_delay = 0;
        script.acts.retain(|a| !matches!(a, Act::Sleep(_) | Act::SleepUs(_)));
      }
      if scale == Scale::Steps && r.chance(3, 4) && matches!(script.fin, Fin::Failed(_) | Fin::Cancelled) {
        script.fin = Fin::Succeeded;
      }
      if scale == Scale::Lines && r.chance(1, 2) && p.logs > 0 {
        let at = r.us(script.acts.len() + 1);
        let k = *r.pick(&[40, 150, 600, 2500]) + r.below(30);
        let width = *r.pick(&[1, 1, 20, 200]);
        let burst: Vec<Act> = (0..k).map(|i| if i % 7 == 3 { Act::Err(format!("b{}", i)) } else { Act::Log(format!("{:>1$}", i, width)) }).collect();
        script.acts.splice(at..at, burst);
      }
      let timeout_ms = if p.timeouts {
        match r.below(5) {
          0 => None,
          // around the script's own duration
          1 => Some((script.duration() + 1).saturating_add(r.below(40)).saturating_sub(20).max(1)),
          2 => Some(r.range(1, 60)),
          3 => Some(script.duration() * 10 + 500),
          _ => Some(r.range(1, 30)),
        }
      } else {
        None
      };
      steps.push(StepSpec {
        coe: r.below(100) < p.coe,
        timeout_ms,
        container: None,
        env: vec![],
        secrets: vec![],
        name: None,
        on: None,
        script,
      });
    }
    jobs.push(JobSpec { key: keys[i].clone(), deps, steps, on: None });
  }
  r.shuffle(&mut jobs);
  let mut cancels = vec![];
  if p.cancels > 0 {
    let total: u64 = jobs.iter().flat_map(|j| j.steps.iter()).map(|s| s.script.duration().min(1000)).sum::<u64>() + 2;
    let k = r.range(1, p.cancels);
    for _ in 0..k {
      let job = jobs[r.us(jobs.len())].key.clone();
      let at = match r.below(3) {
        0 => When::Time(r.below(total)),
        1 => When::Time(r.below(30)),
        _ => When::Hook(r.range(1, 40)),
      };
      cancels.push(CancelPlan { job: job.clone(), at, via_ctx: r.chance(1, 2) });
      if r.chance(1, 4) {
        cancels.push(CancelPlan { job, at: When::Time(r.below(total)), via_ctx: r.chance(1, 2) });
      }
    }
    if r.chance(1, 6) {
      cancels.push(CancelPlan { job: "no-such-job".into(), at: When::Time(r.below(20)), via_ctx: r.chance(1, 2) });
    }
  }
  WfSpec { id: id.to_string(), jobs, on: None, cancels }
}

pub fn decorate(r: &mut Rng, s: &mut WfSpec) {
  for j in s.jobs.iter_mut() {
    for st in j.steps.iter_mut() {
      if r.chance(1, 2) {
        st.name = Some(r.ident(8));
      }
      if r.chance(1, 3) {
        st.container = Some(r.ident(8));
      }
      for k in 0..r.below(3) {
        st.env.push((format!("K{}", k), format!("v{}", r.text(4))));
      }
      for _ in 0..r.below(2) {
        st.secrets.push(r.ident(6));
      }
    }
  }
}

/// Ids of workflows running together, also ones that are easily mixed up.
pub fn workflow_id(shared: &str, i: u64, alike: bool) -> String {
  if !alike {
    return format!("{}{}", shared, i);
  }
  match i {
    0 => shared.to_string(),
    1 => format!("{}1", shared),
    2 => shared.to_uppercase() + "-",
    3 => format!("{}-", shared),
    4 => format!("{} {}", shared, shared),
    5 => format!("{}{}", shared, "-and-more".repeat(8)),
    _ => format!("{}{}{}", shared, "-and-more".repeat(8), i),
  }
}
