//! C12 signal handles and C13 log streams under real contention, C19 identifiers.
use crate::frame::*;
use crate::rng::{hash_str, mix, Rng};
use astro_run::*;
use serde_json::json;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::task::{Context as Cx, Poll, Wake, Waker};

struct Unpark {
  t: std::thread::Thread,
  n: AtomicUsize,
}
impl Wake for Unpark {
  fn wake(self: Arc<Self>) {
    self.n.fetch_add(1, SeqCst);
    self.t.unpark();
  }
}
struct CountWaker(AtomicUsize);
impl Wake for CountWaker {
  fn wake(self: Arc<Self>) {
    self.0.fetch_add(1, SeqCst);
  }
}

fn spin(n: u64) {
  for _ in 0..n {
    std::hint::spin_loop();
  }
}

fn jitter(r: &mut Rng) {
  match r.below(8) {
    0 => std::thread::yield_now(),
    1..=3 => spin(r.below(60)),
    4 => spin(r.below(1500)),
    5 => std::thread::sleep(std::time::Duration::from_micros(r.below(60))),
    _ => {}
  }
}

/// Block on a future with parking only: a lost wake-up parks forever and is reported by the watchdog.
fn park_on<F: Future + Unpin>(mut f: F, r: &mut Rng) -> F::Output {
  loop {
    // a fresh waker now and then, as after a task migration
    let u = Arc::new(Unpark { t: std::thread::current(), n: AtomicUsize::new(0) });
    let w = Waker::from(u.clone());
    let mut cx = Cx::from_waker(&w);
    let polls = if r.chance(1, 4) { 2 } else { 1 };
    for _ in 0..polls {
      if let Poll::Ready(v) = Pin::new(&mut f).poll(&mut cx) {
        return v;
      }
    }
    while u.n.load(SeqCst) == 0 {
      std::thread::park();
    }
  }
}

// ------------------------------------------------------------------ C12

pub fn c12(case: &mut Case) {
  for _ in 0..40 {
    let mut r = case.rng.fork();
    c12_round(case, &mut r);
    case.evals(1);
  }
}

/// A signal handle of one's own, or one shared with the others
#[derive(Clone)]
enum Handle {
  Own(AstroRunSignal),
  Shared(Arc<AstroRunSignal>),
}

impl std::ops::Deref for Handle {
  type Target = AstroRunSignal;
  fn deref(&self) -> &AstroRunSignal {
    match self {
      Handle::Own(s) => s,
      Handle::Shared(s) => s,
    }
  }
}

fn c12_round(case: &mut Case, r: &mut Rng) {
  let callers = r.range(1, 7) as usize;
  let early = r.chance(1, 2);
  let observer = r.chance(1, 2);
  let kinds: Vec<bool> = (0..callers).map(|_| r.chance(1, 2)).collect();
  let calls: Vec<u64> = (0..callers).map(|_| r.range(1, 3)).collect();
  // every party has its own handle, or all (or some) share one
  let (one, few) = (r.chance(1, 4), r.chance(1, 3));
  let handles: Vec<Handle> = {
    let s = Arc::new(AstroRunSignal::new());
    (0..callers + 3)
      .map(|_| if one || (few && r.chance(1, 2)) { Handle::Shared(s.clone()) } else { Handle::Own((*s).clone()) })
      .collect()
  };
  let signal = handles[callers + 2].clone();
  let barrier = Arc::new(Barrier::new(callers + 1 + observer as usize));
  let order = Arc::new(AtomicU64::new(0));
  let winner = Arc::new(AtomicU64::new(0));
  let stop = Arc::new(AtomicBool::new(false));
  case.describe(format!("signal with {} callers, waiter {}", callers, if early { "early" } else { "late" }));
  let mut errs: Vec<String> = vec![];
  let seed = r.next();
  let (oks, got, obs_err, sig) = std::thread::scope(|s| {
    let mut hs = vec![];
    for i in 0..callers {
      let (signal, barrier, order, winner) = (handles[i].clone(), barrier.clone(), order.clone(), winner.clone());
      let (cancel, n) = (kinds[i], calls[i]);
      let mut r = Rng::new(seed ^ mix(i as u64));
      hs.push(s.spawn(move || {
        barrier.wait();
        let mut out = vec![];
        for _ in 0..n {
          jitter(&mut r);
          let res = if cancel { signal.cancel() } else { signal.timeout() };
          if res.is_ok() {
            winner.store(1 + cancel as u64, SeqCst);
          }
          let (c, t) = (signal.is_cancelled(), signal.is_timeout());
          out.push((order.fetch_add(1, SeqCst), res.is_ok(), c, t));
        }
        out
      }));
    }
    let waiter = {
      let (signal, barrier) = (handles[callers].clone(), barrier.clone());
      let mut r = Rng::new(seed ^ 77);
      s.spawn(move || {
        if early {
          // registered before anyone calls
          let cw = Arc::new(CountWaker(AtomicUsize::new(0)));
          let w = Waker::from(cw.clone());
          let mut rx = signal.recv();
          let first = Pin::new(&mut rx).poll(&mut Cx::from_waker(&w));
          let first_pending = first.is_pending();
          if r.chance(1, 2) {
            drop(rx);
            barrier.wait();
            let v = park_on(signal.recv(), &mut r);
            (v, first_pending)
          } else {
            barrier.wait();
            let v = park_on(rx, &mut r);
            (v, first_pending)
          }
        } else {
          barrier.wait();
          jitter(&mut r);
          (park_on(signal.recv(), &mut r), true)
        }
      })
    };
    let obs = observer.then(|| {
      let (signal, barrier, stop, winner) = (handles[callers + 1].clone(), barrier.clone(), stop.clone(), winner.clone());
      s.spawn(move || {
        barrier.wait();
        let mut seen: Option<bool> = None;
        let mut bad = None;
        while !stop.load(SeqCst) {
          let known = winner.load(SeqCst);
          let c = signal.is_cancelled();
          let t = signal.is_timeout();
          let c2 = signal.is_cancelled();
          if c && t {
            bad = Some("handle reported cancelled and timeout".to_string());
          }
          if c && !c2 {
            bad = Some("handle stopped being cancelled".into());
          }
          if let Some(k) = seen {
            if (k && !c) || (!k && !t) {
              bad = Some("handle changed its kind".into());
            }
          }
          if known == 2 && !c || known == 1 && !t {
            bad = Some("a call had succeeded but the handle does not report its kind".into());
          }
          if c {
            seen = Some(true)
          } else if t {
            seen = Some(false)
          }
        }
        bad
      })
    });
    let mut oks = vec![];
    let mut sig = 0u64;
    let mut log: Vec<(u64, usize, bool)> = vec![];
    for (i, h) in hs.into_iter().enumerate() {
      for (o, ok, c, t) in h.join().expect("caller") {
        log.push((o, i, ok));
        if ok {
          oks.push(kinds[i]);
        }
        if !c && !t {
          oks.push(true);
          oks.push(true); // after any call returned the handle must be signalled
        }
      }
    }
    log.sort();
    for (_, i, ok) in &log {
      sig = mix(sig ^ (*i as u64 * 2 + *ok as u64));
    }
    let got = waiter.join().expect("waiter");
    stop.store(true, SeqCst);
    let obs_err = obs.and_then(|o| o.join().expect("observer"));
    (oks, got, obs_err, sig)
  });
  if oks.len() != 1 {
    errs.push(format!("{} of {:?} calls succeeded (or a call returned without the handle being signalled)", oks.len(), calls));
  } else {
    let kind = oks[0];
    if (got.0 == Signal::Cancel) != kind {
      errs.push(format!("the {} call won but the waiter received {:?}", if kind { "cancel" } else { "timeout" }, got.0));
    }
    if signal.is_cancelled() != kind || signal.is_timeout() == kind {
      errs.push("the handle does not report the winner's kind".into());
    }
    if !got.1 {
      errs.push("a waiter was ready before any signal".into());
    }
    // received once only; later calls refused
    let cw = Arc::new(CountWaker(AtomicUsize::new(0)));
    let w = Waker::from(cw);
    let mut rx = signal.recv();
    if Pin::new(&mut rx).poll(&mut Cx::from_waker(&w)).is_ready() {
      errs.push("the signal was received twice".into());
    }
    if signal.cancel().is_ok() || signal.timeout().is_ok() {
      errs.push("a later call succeeded".into());
    }
    if signal.is_cancelled() != kind || signal.is_timeout() == kind {
      errs.push("a later call changed the kind".into());
    }
  }
  if let Some(e) = obs_err {
    errs.push(e);
  }
  case.count("signals", 1);
  case.count(if one { "one_handle" } else { "several_handles" }, 1);
  case.count("calls", calls.iter().sum());
  case.count(if early { "waiter_early" } else { "waiter_late" }, 1);
  case.nontrivial(mix(sig ^ early as u64));
  case.sample(|| json!({"callers": callers, "calls": calls, "early_waiter": early, "received": format!("{:?}", got.0)}));
  if !errs.is_empty() {
    case.fail(errs[0].clone(), json!({"errors": errs, "kinds": kinds, "calls": calls}));
  }
  let _ = hash_str;
}

// ------------------------------------------------------------------ C13

pub fn c13(case: &mut Case) {
  for i in 0..20 {
    let mut r = case.rng.fork();
    // A few very long streams are certain to be among the first of every run
    let long = i == 0 && case.idx % 400 < 4;
    c13_round(case, &mut r, long);
    case.evals(1);
  }
}

struct NextLog<'a>(&'a mut StreamReceiver);
impl<'a> Future for NextLog<'a> {
  type Output = Option<Log>;
  fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
    use tokio_stream::Stream;
    Pin::new(&mut *self.0).poll_next(cx)
  }
}

fn do_end(tx: &StreamSender, k: u64, code: i32) -> RunResult {
  match k {
    0 => {
      tx.succeeded();
      RunResult::Succeeded
    }
    1 => {
      tx.failed(code);
      RunResult::Failed { exit_code: code }
    }
    2 => {
      tx.cancelled();
      RunResult::Cancelled
    }
    3 => {
      tx.timeout();
      RunResult::Failed { exit_code: 123 }
    }
    _ => {
      tx.end(RunResult::Failed { exit_code: code });
      RunResult::Failed { exit_code: code }
    }
  }
}

fn c13_round(case: &mut Case, r: &mut Rng, long: bool) {
  let producers = r.range(1, 5) as usize;
  let enders = if r.chance(1, 12) { 0 } else { r.range(1, 4) as usize };
  let wait_for_producers = r.chance(1, 2);
  let use_tokio = r.chance(1, 4);
  let mut lines: Vec<u64> = (0..producers).map(|_| if r.chance(1, 10) { r.below(300) } else { r.below(30) }).collect();
  if r.chance(1, 1200) {
    lines[0] = if r.chance(1, 12) { r.range(9000, 13_000) } else { r.range(1500, 4500) };
  }
  if long {
    lines[0] = r.range(5000, 7000);
  }
  let errors = if long { 33 } else { *r.pick(&[0, 33, 33, 100]) };
  let tick = Arc::new(AtomicU64::new(1));
  let done = Arc::new(AtomicUsize::new(0));
  let first_end = Arc::new(AtomicU64::new(u64::MAX)); // tick at which the first end call was entered
  let (tx, mut rx) = stream();
  let barrier = Arc::new(Barrier::new(producers + enders + 1));
  let seed = r.next();
  let ends: Vec<(u64, i32)> = (0..enders).map(|i| (r.below(5), 1000 + i as i32)).collect();
  case.describe(format!("stream with {} producers and {} enders", producers, enders));
  let texts: Vec<Vec<(bool, String)>> = (0..producers)
    .map(|p| {
      (0..lines[p])
        .map(|i| {
          let t = if r.chance(1, 10) { r.text(6) } else { String::new() };
          (r.chance(errors, 100), format!("{}:{}:{}", p, i, t))
        })
        .collect()
    })
    .collect();
  let mut errs: Vec<String> = vec![];
  let (got, sent, ended, finals, observed) = std::thread::scope(|s| {
    let mut hs = vec![];
    for p in 0..producers {
      let (tx, barrier, tick, done) = (tx.clone(), barrier.clone(), tick.clone(), done.clone());
      let mine = &texts[p];
      let mut r = Rng::new(seed ^ mix(p as u64 + 1));
      hs.push(s.spawn(move || {
        barrier.wait();
        let mut out = vec![];
        for (err, t) in mine {
          jitter(&mut r);
          if *err {
            tx.error(t.clone());
          } else {
            tx.log(t.clone());
          }
          out.push(tick.fetch_add(1, SeqCst)); // the line had been sent at this tick
        }
        done.fetch_add(1, SeqCst);
        out
      }));
    }
    let mut es = vec![];
    for (e, (kind, code)) in ends.iter().cloned().enumerate() {
      let (tx, barrier, tick, done, first_end) = (tx.clone(), barrier.clone(), tick.clone(), done.clone(), first_end.clone());
      let mut r = Rng::new(seed ^ mix(e as u64 + 100));
      es.push(s.spawn(move || {
        barrier.wait();
        if wait_for_producers {
          while done.load(SeqCst) < producers {
            std::thread::yield_now();
          }
        } else {
          jitter(&mut r);
          jitter(&mut r);
        }
        jitter(&mut r);
        let a = tick.fetch_add(1, SeqCst);
        first_end.fetch_min(a, SeqCst);
        let was = tx.is_ended();
        let res = do_end(&tx, kind, code);
        let b = tick.fetch_add(1, SeqCst);
        let now = tx.is_ended();
        (a, b, res, was, now)
      }));
    }
    drop(tx);
    let reader = {
      let barrier = barrier.clone();
      let mut r = Rng::new(seed ^ 9999);
      s.spawn(move || {
        barrier.wait();
        let mut got = vec![];
        let mut observed: Vec<Option<RunResult>> = vec![];
        if r.chance(1, 4) {
          std::thread::sleep(std::time::Duration::from_micros(r.below(500)));
        }
        if use_tokio {
          let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
          let (g, back) = rt.block_on(async move {
            tokio::spawn(async move {
              use tokio_stream::StreamExt;
              let mut g = vec![];
              while let Some(l) = rx.next().await {
                g.push(l);
              }
              (g, rx)
            })
            .await
            .unwrap()
          });
          got = g;
          rx = back;
        } else {
          loop {
            if r.chance(1, 6) {
              observed.push(rx.result());
            }
            match park_on(NextLog(&mut rx), &mut r) {
              Some(l) => {
                got.push(l);
                if r.chance(1, 10) {
                  jitter(&mut r);
                }
              }
              None => break,
            }
          }
        }
        observed.push(rx.result());
        (got, rx, observed)
      })
    };
    let sent: Vec<Vec<u64>> = hs.into_iter().map(|h| h.join().expect("producer")).collect();
    let ended: Vec<_> = es.into_iter().map(|h| h.join().expect("ender")).collect();
    let (got, rx, mut observed) = reader.join().expect("reader");
    for _ in 0..2 {
      observed.push(rx.result());
    }
    let finals = rx.result();
    (got, sent, ended, finals, observed)
  });
  // every line sent before the first end call began is there exactly once
  let fe = first_end.load(SeqCst);
  let mut next = vec![0usize; producers];
  for g in &got {
    let mut it = g.message.splitn(3, ':');
    let p: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
    let i: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
    if p >= producers || i >= texts[p].len() {
      errs.push(format!("unknown line {:?} delivered", g.message));
      continue;
    }
    if i != next[p] {
      errs.push(format!("producer {}: line {} delivered where {} was expected", p, i, next[p]));
    }
    next[p] = i + 1;
    let (err, t) = &texts[p][i];
    let ty = serde_json::to_value(&g.log_type).unwrap();
    let is_err = g.is_error();
    if &g.message != t || is_err != *err {
      errs.push(format!("line {:?} ({}) delivered as {:?} ({})", t, err, g.message, ty));
    }
  }
  let mut before_end = 0;
  for p in 0..producers {
    let must = sent[p].iter().filter(|t| **t < fe).count();
    before_end += must;
    if next[p] < must {
      errs.push(format!("producer {} had sent {} lines before the end, {} were delivered", p, must, next[p]));
    }
  }
  // first result wins
  match &finals {
    None => errs.push("the stream ended without a result".into()),
    Some(f) => {
      if enders == 0 {
        if !matches!(f, RunResult::Failed { .. }) {
          errs.push(format!("nobody set a result but it is {:?}", f));
        }
      } else {
        let cands: Vec<&RunResult> = ended
          .iter()
          .filter(|e| !ended.iter().any(|o| o.1 < e.0)) // not strictly after another end
          .map(|e| &e.2)
          .collect();
        if !cands.contains(&f) {
          errs.push(format!("result is {:?}, the ends that could be first are {:?} of {:?}", f, cands, ended));
        }
        for e in &ended {
          if !e.4 {
            errs.push("is_ended was false after an end".into());
          }
        }
      }
      for o in observed.iter().flatten() {
        if o != f {
          errs.push(format!("the result was {:?} and later {:?}", o, f));
        }
      }
    }
  }
  let mut sig = mix(enders as u64);
  for g in &got {
    sig = mix(sig ^ g.message.bytes().next().unwrap_or(0) as u64);
  }
  case.count("streams", 1);
  case.count("lines", got.len() as u64);
  case.count("lines_before_end", before_end as u64);
  case.count("contended_ends", (enders > 1) as u64);
  case.nontrivial(mix(sig ^ got.len() as u64));
  case.sample(|| json!({"producers": lines, "ends": format!("{:?}", ended), "result": format!("{:?}", finals), "delivered": got.len()}));
  if !errs.is_empty() {
    errs.truncate(6);
    case.fail(errs[0].clone(), json!({"errors": errs, "ends": format!("{:?}", ended), "lines": lines}));
  }
}

// ------------------------------------------------------------------ C19

pub fn c19(case: &mut Case) {
  let mut errs: Vec<String> = vec![];
  let mut seen: std::collections::HashMap<String, String> = Default::default();
  for _ in 0..200 {
    let mut r = case.rng.fork();
    let part = |r: &mut Rng| -> String {
      let t = match r.below(5) {
        0 => r.ident(8),
        1 => r.below(30).to_string(),
        2 => format!("{}-{}", r.ident(2), r.below(3)),
        _ => r.text(6),
      };
      t.replace('/', "_")
    };
    let w = part(&mut r);
    let j = part(&mut r);
    let n = match r.below(4) {
      0 => 0,
      1 => r.below(12) as usize,
      2 => usize::MAX - r.us(3),
      _ => r.next() as usize,
    };
    let wid = WorkflowId::new(w.clone());
    let jid = JobId::new(w.clone(), j.clone());
    let sid = StepId::new(w.clone(), j.clone(), n);
    if wid.inner() != w || jid.workflow_id() != wid || jid.job_key() != j || sid.workflow_id() != wid || sid.job_id() != jid || sid.job_key() != j || sid.step_number() != n {
      errs.push(format!("parts of {:?} {:?} {} changed", w, j, n));
    }
    let (wt, jt, st) = (wid.to_string(), jid.to_string(), sid.to_string());
    if !w.is_empty() && WorkflowId::try_from(wt.as_str()).ok().as_ref() != Some(&wid) {
      errs.push(format!("workflow id {:?} does not parse back", wt));
    }
    if JobId::try_from(jt.as_str()).ok().as_ref() != Some(&jid) {
      errs.push(format!("job id {:?} does not parse back", jt));
    }
    if StepId::try_from(st.as_str()).ok().as_ref() != Some(&sid) {
      errs.push(format!("step id {:?} does not parse back", st));
    }
    for (kind, t, v) in [("w", wt.clone(), format!("{:?}", wid)), ("j", jt.clone(), format!("{:?}", jid)), ("s", st.clone(), format!("{:?}", sid))] {
      let key = format!("{}{}", kind, t);
      if let Some(o) = seen.get(&key) {
        if *o != v {
          errs.push(format!("{} and {} share the text {:?}", o, v, t));
        }
      }
      seen.insert(key, v);
    }
    // documented form only
    let bad_n = r.pick(&["-1", "1.5", "", "x", "1 ", " 1", "0x1", "1e3", "99999999999999999999999999", "٣", "1_000"]).to_string();
    let bads: Vec<String> = vec![
      format!("{}/{}/{}", w, j, bad_n),
      format!("{}/{}", w, j),
      w.clone(),
      format!("{}/{}/{}/{}", w, j, n, n),
      format!("{}/{}/{}/", w, j, n),
      format!("/{}/{}/{}", w, j, n),
    ];
    for b in &bads {
      if let Ok(x) = StepId::try_from(b.as_str()) {
        errs.push(format!("{:?} was accepted as step id {:?}", b, x));
      }
    }
    for b in [w.clone(), format!("{}/{}/{}", w, j, n), format!("{}/{}/", w, j), format!("/{}/{}", w, j)] {
      if let Ok(x) = JobId::try_from(b.as_str()) {
        errs.push(format!("{:?} was accepted as job id {:?}", b, x));
      }
    }
    case.nontrivial(hash_str(0, &st));
    case.evals(1);
    case.count("ids", 3);
    case.count("rejected_texts", 10);
    case.sample(|| json!({"step": st, "job": jt, "rejected": bads}));
  }
  if !errs.is_empty() {
    case.fail(errs[0].clone(), json!({"errors": errs.iter().take(10).collect::<Vec<_>>()}));
  }
}
