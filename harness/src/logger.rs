//! The logger crate, in processes of their own because logging is global: what their standard output shows.
use crate::frame::*;
use crate::rng::{hash_str, Rng};
use log::Level;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::process::{Command, Stdio};

const LEVELS: [Level; 5] = [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace];

// ------------------------------------------------------------------ the child: `vh logtest`, plan on standard input

fn init(x: &Value) {
  match x.as_u64() {
    Some(l) => astro_run_logger::init_logger_with_level(LEVELS[l as usize]),
    None => astro_run_logger::init_logger(),
  }
}

/// How a record comes about: through the macros (0), with a target (1 to 3), or without a code location (4).
fn emit(x: &Value) {
  let level = LEVELS[x["level"].as_u64().unwrap() as usize];
  let text = x["text"].as_str().unwrap();
  match x["way"].as_u64().unwrap() {
    0 => match level {
      Level::Error => log::error!("{}", text),
      Level::Warn => log::warn!("{}", text),
      Level::Info => log::info!("{}", text),
      Level::Debug => log::debug!("{}", text),
      Level::Trace => log::trace!("{}", text),
    },
    1 => log::log!(target: "some::other target", level, "{}", text),
    2 => log::log!(target: "astro_run::workflow::job", level, "{}", text),
    3 => log::log!(target: "astro_run", level, "{}", text),
    _ => {
      if level <= log::max_level() {
        log::logger().log(&log::Record::builder().level(level).target("").args(format_args!("{}", text)).build())
      }
    }
  }
}

pub fn child() -> ! {
  let plan: Value = serde_json::from_reader(std::io::stdin()).expect("plan");
  for r in plan["early"].as_array().unwrap() {
    emit(r);
  }
  let inits = plan["inits"].as_array().unwrap();
  let barrier = std::sync::Barrier::new(inits.len());
  let begin = std::sync::Barrier::new(plan["threads"].as_array().unwrap().len());
  let ok = std::thread::scope(|s| {
    let hs: Vec<_> = plan["threads"]
      .as_array()
      .unwrap()
      .iter()
      .enumerate()
      .map(|(i, recs)| {
        let barrier = &barrier;
        s.spawn(move || {
          // thread i makes the i-th initialisation if there is one, together with the others
          if let Some(x) = inits.get(i) {
            barrier.wait();
            init(x);
          }
          recs
        })
      })
      .collect();
    let mut all = vec![];
    let mut ok = true;
    for h in hs {
      match h.join() {
        Ok(r) => all.push(r),
        Err(_) => ok = false,
      }
    }
    if !ok {
      return false;
    }
    let hs: Vec<_> = all
      .into_iter()
      .map(|recs| {
        let begin = &begin;
        s.spawn(move || {
          begin.wait();
          for r in recs.as_array().unwrap() {
            match r.get("init") {
              Some(x) => init(x),
              None => emit(r),
            }
          }
        })
      })
      .collect();
    for h in hs {
      ok &= h.join().is_ok();
    }
    ok
  });
  if plan["flush"] == json!(true) {
    log::logger().flush();
  }
  std::process::exit(if ok { 0 } else { 3 })
}

// ------------------------------------------------------------------ the oracle

fn record(r: &mut Rng, n: &mut u64) -> Value {
  *n += 1;
  let body = match r.below(8) {
    0 => String::new(),
    1 => r.pick(&["ERROR", "a\nINFO b\n\nc", "{} {:?} %s", "\u{1b}[31mred\u{1b}[0m", "\r\n", "2026-01-01 00:00:00 x:1 WARN y"]).to_string(),
    2 => "long ".repeat(r.range(200, 20_000) as usize),
    _ => r.text(20),
  };
  json!({"level": r.below(5), "text": format!("<{}:{}:{}>", n, body, n), "way": if r.chance(1, 5) { r.range(1, 4) } else { 0 }})
}

fn strip(s: &str) -> String {
  let mut out = String::new();
  let mut it = s.chars().peekable();
  while let Some(c) = it.next() {
    if c == '\u{1b}' && it.peek() == Some(&'[') {
      while let Some(c) = it.next() {
        if c.is_ascii_alphabetic() {
          break;
        }
      }
    } else {
      out.push(c);
    }
  }
  out
}

pub fn l01(case: &mut Case) {
  let mut r = case.rng.fork();
  for _ in 0..6 {
    if !one(case, &mut r) {
      return;
    }
  }
}

fn one(case: &mut Case, r: &mut Rng) -> bool {
  // the environment and what it asks for
  let (env, asked): (Option<OsString>, usize) = match r.below(8) {
    0 | 1 => (None, 2),
    2 => {
      let x = r
        .pick(&["", "off", "verbose", "info ", "warning", "err", "trace,debug", "5", "astro_run=debug", "ínfo", "infoo", "all", "errors", "debugs", "tracing", "inf", "4", " info"])
        .to_string();
      (Some(x.into()), 2)
    }
    3 => (Some(OsString::from_vec(vec![b'd', 0xff, b'g'])), 2),
    _ => {
      let l = r.us(5);
      let name = ["error", "warn", "info", "debug", "trace"][l];
      let x = match r.below(3) {
        0 => name.to_uppercase(),
        1 => name.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => name.to_string(),
      };
      (Some(x.into()), l)
    }
  };
  let init = |r: &mut Rng| if r.chance(1, 2) { Value::Null } else { json!(r.below(5)) };
  let n_inits = if r.chance(2, 3) { 1 } else { r.range(2, 6) as usize };
  let inits: Vec<Value> = (0..n_inits).map(|_| init(r)).collect();
  let n_threads = n_inits.max(r.range(1, 6) as usize);
  let mut n = 0;
  let early: Vec<Value> = (0..r.below(3)).map(|_| record(r, &mut n)).collect();
  let threads: Vec<Vec<Value>> = (0..n_threads)
    .map(|_| {
      (0..r.range(1, 40))
        .map(|_| if r.chance(1, 12) { json!({"init": init(r)}) } else { record(r, &mut n) })
        .collect()
    })
    .collect();
  let colour = r.below(4);
  let plan = json!({"early": early, "inits": inits, "threads": threads, "flush": r.chance(1, 2)});

  let mut c = Command::new(std::env::current_exe().unwrap());
  c.arg("logtest").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
  c.env_remove("RUST_LOG").env_remove("NO_COLOR").env_remove("CLICOLOR_FORCE").env_remove("CLICOLOR");
  if let Some(x) = &env {
    c.env("RUST_LOG", x);
  }
  match colour {
    0 => drop(c.env("CLICOLOR_FORCE", "1")),
    1 => drop(c.env("NO_COLOR", "1")),
    _ => {}
  }
  let mut p = c.spawn().expect("child");
  let mut stdin = p.stdin.take().unwrap();
  let text = plan.to_string();
  let feeder = std::thread::spawn(move || drop(stdin.write_all(text.as_bytes())));
  let out = p.wait_with_output().expect("child");
  feeder.join().ok();
  progress();

  let detail = || json!({"RUST_LOG": format!("{:?}", env), "inits": plan["inits"], "threads": threads.len()});
  if !out.status.success() {
    case.fail(
      format!("a process that initialises the logger and logs ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()),
      detail(),
    );
    return false;
  }
  let shown = match String::from_utf8(out.stdout) {
    Ok(s) => s,
    Err(_) => {
      case.fail("the output is not valid text although every record is", detail());
      return false;
    }
  };
  // which records were printed, in output order
  let all: Vec<&Value> = early.iter().chain(threads.iter().flatten().filter(|x| x.get("init").is_none())).collect();
  let mut at: BTreeMap<usize, (usize, &Value)> = BTreeMap::new();
  let mut pos: BTreeMap<&str, usize> = BTreeMap::new();
  for x in &all {
    let t = x["text"].as_str().unwrap();
    let hits: Vec<usize> = shown.match_indices(t).map(|(i, _)| i).collect();
    if hits.len() > 1 {
      case.fail(format!("the record {:?} was printed {} times", clip(t), hits.len()), detail());
      return false;
    }
    if let Some(i) = hits.first() {
      at.insert(*i, (t.len(), x));
      pos.insert(t, *i);
    }
  }
  // nothing else was printed, and each record stands on a line of its own with its level
  let mut end = 0;
  for (n, (i, (len, x))) in at.iter().enumerate() {
    if *i < end {
      case.fail("two records overlap in the output", detail());
      return false;
    }
    let head = strip(&shown[end..*i]);
    let head = if n == 0 {
      Some(head.as_str())
    } else {
      head.strip_prefix('\n')
    };
    let want = LEVELS[x["level"].as_u64().unwrap() as usize];
    let ok = head.map_or(false, |h| {
      let names: Vec<Level> = h.split(|c: char| !c.is_alphanumeric()).filter_map(|w| w.parse().ok()).collect();
      !h.contains('\n') && names == [want]
    });
    if !ok {
      case.fail(
        format!("before the {} record {:?} the output is {:?}, not the head of one record of that level", want, clip(x["text"].as_str().unwrap()), clip(&strip(&shown[end..*i]))),
        detail(),
      );
      return false;
    }
    end = i + len;
  }
  let rest = strip(&shown[end..]);
  if rest != if at.is_empty() { "" } else { "\n" } {
    case.fail(format!("after the last record the output is {:?}", clip(&rest)), detail());
    return false;
  }
  // exactly the admitted ones: some one initialisation of the concurrent first ones decides the level
  for x in &early {
    if pos.contains_key(x["text"].as_str().unwrap()) {
      case.fail("a record made before the initialisation was printed", detail());
      return false;
    }
  }
  let candidates: Vec<usize> = inits.iter().map(|x| x.as_u64().map_or(asked, |l| l as usize)).collect();
  let wrong = |l: usize| -> Option<&Value> {
    threads
      .iter()
      .flatten()
      .filter(|x| x.get("init").is_none())
      .find(|x| (x["level"].as_u64().unwrap() as usize <= l) != pos.contains_key(x["text"].as_str().unwrap()))
  };
  if candidates.iter().all(|l| wrong(*l).is_some()) {
    let l = candidates[0];
    let x = wrong(l).unwrap();
    let t = x["text"].as_str().unwrap();
    let lv = LEVELS[x["level"].as_u64().unwrap() as usize];
    case.fail(
      format!("with RUST_LOG {:?} and initialisations {} the {} record {:?} was {}", env, plan["inits"], lv, clip(t), if pos.contains_key(t) { "printed" } else { "not printed" }),
      detail(),
    );
    return false;
  }
  // and those of one thread in the order made
  for t in &threads {
    let p: Vec<usize> = t.iter().filter_map(|x| x.get("text").and_then(|t| pos.get(t.as_str().unwrap())).copied()).collect();
    if p.windows(2).any(|w| w[0] > w[1]) {
      case.fail("records of one thread were printed out of order", detail());
      return false;
    }
  }
  let repeated: u64 = threads.iter().flatten().filter(|x| x.get("init").is_some()).count() as u64;
  case.evals(all.len() as u64);
  case.count("processes", 1);
  case.count("records", all.len() as u64);
  case.count("printed", pos.len() as u64);
  case.count("repeated_inits", repeated);
  case.count("concurrent_inits", (n_inits > 1) as u64);
  if inits.iter().any(|x| x.is_null()) && n_inits == 1 {
    case.count(if env.is_none() { "level_by_default" } else if asked == 2 { "level_info_or_unknown" } else { "level_from_environment" }, 1);
  }
  let order: Vec<u64> = at.values().map(|(_, x)| x["level"].as_u64().unwrap()).collect();
  case.nontrivial(hash_str(case.idx, &format!("{:?}{:?}{:?}", env, inits, order)));
  case.sample(|| json!({"RUST_LOG": format!("{:?}", env), "inits": plan["inits"], "records": all.len(), "printed": pos.len()}));
  true
}

fn clip(s: &str) -> String {
  s.chars().take(120).collect()
}
