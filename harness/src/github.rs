//! Conditions against a change set served by a stand-in for api.github.com (CONNECT proxy and TLS in this process).
use crate::config::{gen_condition, path, ref_condition};
use crate::engine::*;
use crate::frame::{Case, progress};
use crate::rng::{hash_str, Rng};
use astro_run::*;
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, OnceLock};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

const CERT: &str = include_str!("../assets/fake-github-cert.pem");
const KEY: &str = include_str!("../assets/fake-github-key.pem");

#[derive(Clone, Debug, PartialEq)]
enum Fault {
  None,
  Status(u16),
  Garbage,
  Close,
  /// only from this page on
  LaterPage(u64),
  /// every second request fails
  Flaky,
  NoInstallation,
  NoToken,
}

#[derive(Clone, Debug)]
struct Repo {
  auth: Auth,
  /// sha or pull request number -> changed files
  commits: HashMap<String, Vec<String>>,
  pulls: HashMap<i64, Vec<String>>,
  fault: Fault,
  requests: u64,
  data_requests: u64,
  unauthorized: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum Auth {
  Token(String),
  App { installation: i64 },
}

static DB: Mutex<Option<HashMap<(String, String), Repo>>> = Mutex::new(None);

fn with_repo<T>(o: &str, r: &str, f: impl FnOnce(&mut Repo) -> T) -> Option<T> {
  DB.lock().get_or_insert_with(HashMap::new).get_mut(&(o.to_string(), r.to_string())).map(f)
}

fn entry(name: &str) -> Value {
  json!({"sha": "bbcd538c8e72b8c175046e27cc8f907076331401", "filename": name, "status": "modified", "additions": 1, "deletions": 1, "changes": 2,
    "blob_url": "https://github.com/b", "raw_url": "https://github.com/r", "contents_url": "https://api.github.com/c", "patch": "@@"})
}

fn user() -> Value {
  json!({"login": "o", "id": 1, "node_id": "x", "avatar_url": "", "gravatar_id": "", "url": "", "html_url": "", "followers_url": "", "following_url": "",
    "gists_url": "", "starred_url": "", "subscriptions_url": "", "organizations_url": "", "repos_url": "", "events_url": "", "received_events_url": "",
    "type": "User", "site_admin": false})
}

struct Reply {
  status: u16,
  body: String,
  link: Option<String>,
  close: bool,
}

fn reply(status: u16, v: Value) -> Reply {
  Reply { status, body: v.to_string(), link: None, close: false }
}

fn not_found() -> Reply {
  reply(404, json!({"message": "Not Found", "documentation_url": "https://docs.github.com"}))
}

fn paginate(files: &[String], url: &str, page: u64, per: u64) -> (Vec<String>, Option<String>) {
  let from = ((page - 1) * per) as usize;
  let to = (from + per as usize).min(files.len());
  let part = if from >= files.len() { vec![] } else { files[from..to].to_vec() };
  let last = (files.len() as u64).div_ceil(per).max(1);
  let mut links = vec![];
  let u = |p: u64| format!("<https://api.github.com{}?per_page={}&page={}>", url, per, p);
  if page > 1 {
    links.push(format!("{}; rel=\"prev\"", u(page - 1)));
  }
  if page < last {
    links.push(format!("{}; rel=\"next\"", u(page + 1)));
    links.push(format!("{}; rel=\"last\"", u(last)));
  }
  if page > 1 {
    links.push(format!("{}; rel=\"first\"", u(1)));
  }
  (part, if links.is_empty() { None } else { Some(links.join(", ")) })
}

fn serve(method: &str, target: &str, auth: &str) -> Reply {
  let (p, q) = target.split_once('?').unwrap_or((target, ""));
  let mut query: HashMap<&str, &str> = HashMap::new();
  for kv in q.split('&') {
    if let Some((k, v)) = kv.split_once('=') {
      query.insert(k, v);
    }
  }
  let num = |k: &str, d: u64| query.get(k).and_then(|v| v.parse::<u64>().ok()).filter(|v| *v > 0).unwrap_or(d);
  let seg: Vec<&str> = p.trim_matches('/').split('/').collect();
  let bearer = auth.strip_prefix("Bearer ").unwrap_or("");
  let jwt = bearer.split('.').count() == 3;
  match (method, seg.as_slice()) {
    ("GET", ["repos", o, r, "installation"]) => with_repo(o, r, |x| {
      x.requests += 1;
      match (&x.auth, &x.fault) {
        (_, Fault::NoInstallation) => not_found(),
        (Auth::App { installation }, _) if jwt => reply(
          200,
          json!({"id": installation, "account": user(), "access_tokens_url": "", "repositories_url": "", "html_url": "", "app_id": 1, "app_slug": "a",
            "target_id": 1, "target_type": "User", "permissions": {}, "events": [], "created_at": "2020-01-01T00:00:00Z", "updated_at": "2020-01-01T00:00:00Z",
            "repository_selection": "all"}),
        ),
        _ => reply(401, json!({"message": "Bad credentials", "documentation_url": ""})),
      }
    })
    .unwrap_or_else(not_found),
    ("POST", ["app", "installations", id, "access_tokens"]) => {
      let id: i64 = id.parse().unwrap_or(0);
      let known = DB.lock().get_or_insert_with(HashMap::new).values().find(|x| x.auth == Auth::App { installation: id }).map(|x| x.fault.clone());
      match known {
        Some(Fault::NoToken) | None => not_found(),
        _ if jwt => reply(201, json!({"token": format!("inst-{}", id), "expires_at": "2099-01-01T00:00:00Z"})),
        _ => reply(401, json!({"message": "Bad credentials", "documentation_url": ""})),
      }
    }
    ("GET", ["repos", o, r, rest @ ..]) => with_repo(o, r, |x| {
      x.requests += 1;
      x.data_requests += 1;
      let want = match &x.auth {
        Auth::Token(t) => t.clone(),
        Auth::App { installation } => format!("inst-{}", installation),
      };
      if bearer != want {
        x.unauthorized += 1;
        return reply(401, json!({"message": "Bad credentials", "documentation_url": ""}));
      }
      let page = num("page", 1);
      match &x.fault {
        Fault::Status(s) => return reply(*s, json!({"message": "scripted", "documentation_url": ""})),
        Fault::Garbage => return Reply { status: 200, body: "{\"files\": [".into(), link: None, close: false },
        Fault::Close => return Reply { status: 0, body: String::new(), link: None, close: true },
        Fault::LaterPage(n) if page >= *n => return reply(502, json!({"message": "scripted", "documentation_url": ""})),
        Fault::Flaky if x.data_requests % 2 == 1 => return reply(503, json!({"message": "scripted", "documentation_url": ""})),
        _ => {}
      }
      match rest {
        ["commits", sha] => match x.commits.get(*sha) {
          None => not_found(),
          // somebody who never stops asking
          Some(files) if page > files.len() as u64 + 30 => reply(500, json!({"message": "too many pages", "documentation_url": ""})),
          Some(files) => {
            let (part, link) = paginate(files, p, page, num("per_page", 300).min(300));
            let mut v = json!({"url": "", "sha": sha, "node_id": "x", "html_url": "", "comments_url": "",
              "commit": {"url": "", "author": null, "committer": null, "message": "m", "tree": {"sha": "", "url": ""}, "comment_count": 0},
              "author": null, "committer": null, "parents": [], "stats": {"additions": 1, "deletions": 1, "total": 2}});
            v["files"] = Value::Array(part.iter().map(|f| entry(f)).collect());
            Reply { status: 200, body: v.to_string(), link, close: false }
          }
        },
        ["pulls", n, "files"] => match n.parse::<i64>().ok().and_then(|n| x.pulls.get(&n)) {
          None => not_found(),
          Some(files) if page > files.len() as u64 + 30 => reply(500, json!({"message": "too many pages", "documentation_url": ""})),
          Some(files) => {
            let (part, link) = paginate(files, p, page, num("per_page", 30).min(100));
            Reply { status: 200, body: Value::Array(part.iter().map(|f| entry(f)).collect()).to_string(), link, close: false }
          }
        },
        _ => not_found(),
      }
    })
    .unwrap_or_else(not_found),
    _ => not_found(),
  }
}

async fn read_head<S: AsyncReadExt + Unpin>(s: &mut S) -> Option<(String, Vec<u8>)> {
  let mut buf = vec![];
  loop {
    if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
      let rest = buf.split_off(i + 4);
      return Some((String::from_utf8_lossy(&buf).to_string(), rest));
    }
    let mut b = [0u8; 4096];
    match s.read(&mut b).await {
      Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]),
      _ => return None,
    }
  }
}

async fn connection(mut sock: tokio::net::TcpStream, tls: tokio_native_tls::TlsAcceptor) -> Option<()> {
  let (head, _) = read_head(&mut sock).await?;
  if !head.starts_with("CONNECT api.github.com:443 ") {
    sock.write_all(b"HTTP/1.1 403 Forbidden\r\ncontent-length: 0\r\n\r\n").await.ok()?;
    return None;
  }
  sock.write_all(b"HTTP/1.1 200 OK\r\n\r\n").await.ok()?;
  let mut s = tls.accept(sock).await.ok()?;
  loop {
    let (head, mut rest) = read_head(&mut s).await?;
    let mut lines = head.lines();
    let mut first = lines.next()?.split(' ');
    let (method, target) = (first.next()?.to_string(), first.next()?.to_string());
    let (mut auth, mut len) = (String::new(), 0usize);
    for l in lines {
      if let Some((k, v)) = l.split_once(':') {
        match k.to_ascii_lowercase().as_str() {
          "authorization" => auth = v.trim().to_string(),
          "content-length" => len = v.trim().parse().unwrap_or(0),
          _ => {}
        }
      }
    }
    while rest.len() < len {
      let mut b = [0u8; 4096];
      let n = s.read(&mut b).await.ok()?;
      if n == 0 {
        return None;
      }
      rest.extend_from_slice(&b[..n]);
    }
    let r = serve(&method, &target, &auth);
    progress();
    if r.close {
      return None;
    }
    let link = r.link.map(|l| format!("link: {}\r\n", l)).unwrap_or_default();
    let out = format!("HTTP/1.1 {} X\r\ncontent-type: application/json; charset=utf-8\r\n{}content-length: {}\r\n\r\n{}", r.status, link, r.body.len(), r.body);
    s.write_all(out.as_bytes()).await.ok()?;
    s.flush().await.ok()?;
  }
}

fn start() -> u16 {
  static PORT: OnceLock<u16> = OnceLock::new();
  *PORT.get_or_init(|| {
    let listener = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback listener");
    listener.set_nonblocking(true).unwrap();
    let port = listener.local_addr().unwrap().port();
    let cert = std::env::temp_dir().join(format!("vh-fake-github-{}.pem", std::process::id()));
    std::fs::write(&cert, CERT).expect("certificate");
    for k in ["http_proxy", "HTTP_PROXY", "https_proxy", "no_proxy", "NO_PROXY", "ALL_PROXY", "all_proxy", "SSL_CERT_DIR"] {
      std::env::remove_var(k);
    }
    std::env::set_var("HTTPS_PROXY", format!("http://127.0.0.1:{}", port));
    std::env::set_var("SSL_CERT_FILE", &cert);
    let id = native_tls::Identity::from_pkcs8(CERT.as_bytes(), KEY.as_bytes()).expect("identity");
    let tls = tokio_native_tls::TlsAcceptor::from(native_tls::TlsAcceptor::new(id).unwrap());
    std::thread::spawn(move || {
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
      rt.block_on(async move {
        let l = tokio::net::TcpListener::from_std(listener).unwrap();
        loop {
          if let Ok((s, _)) = l.accept().await {
            s.set_nodelay(true).ok();
            tokio::spawn(connection(s, tls.clone()));
          }
        }
      });
    });
    port
  })
}

pub fn cleanup() {
  std::fs::remove_file(std::env::temp_dir().join(format!("vh-fake-github-{}.pem", std::process::id()))).ok();
}

struct Plan {
  spec: WfSpec,
  event: Option<TriggerEvent>,
  /// the condition data is available / is not / either from one time to the next
  know: Know,
  paths: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Know {
  Yes,
  No,
  Either,
}

pub const TOKEN: &str = "ghp_general";

/// A trigger event whose change set is known, for workflows that are about something else.
pub fn known_event(name: &str, r: &mut Rng) -> (TriggerEvent, Vec<String>) {
  start();
  let branch = r.pick(&["main", "dev", "feature/a"]).to_string();
  let paths: Vec<String> = (0..r.range(1, 4)).map(|_| path(r)).collect();
  let pr = if r.chance(1, 2) { Some(r.range(1, 999) as i64) } else { None };
  let sha = format!("{:040x}", r.next());
  let event = TriggerEvent { event: if pr.is_some() { "pull_request" } else { "push" }.into(), repo_owner: "general".into(), repo_name: name.into(), branch: branch.clone(), pr_number: pr, sha: sha.clone(), ref_name: format!("refs/heads/{}", branch) };
  let mut repo = Repo { auth: Auth::Token(TOKEN.into()), commits: HashMap::new(), pulls: HashMap::new(), fault: Fault::None, requests: 0, data_requests: 0, unauthorized: 0 };
  match pr {
    Some(n) => repo.pulls.insert(n, paths.clone()).map(|_| ()),
    None => repo.commits.insert(sha, paths.clone()).map(|_| ()),
  };
  DB.lock().get_or_insert_with(HashMap::new).insert(("general".into(), name.into()), repo);
  (event, paths)
}

/// Let the change set of a commit be known.
pub fn known_commit(owner: &str, name: &str, sha: &str, paths: &[String]) {
  start();
  let mut db = DB.lock();
  let repo = db.get_or_insert_with(HashMap::new).entry((owner.into(), name.into())).or_insert_with(|| Repo {
    auth: Auth::Token(TOKEN.into()),
    commits: HashMap::new(),
    pulls: HashMap::new(),
    fault: Fault::None,
    requests: 0,
    data_requests: 0,
    unauthorized: 0,
  });
  repo.commits.insert(sha.into(), paths.to_vec());
}

pub fn forget() {
  DB.lock().take();
}

pub fn c17(case: &mut Case) {
  start();
  let mut r = case.rng.fork();
  let r = &mut r;
  let auth_kind = r.below(8); // 0: none, 1..=4: token, 5..: app
  let app_instances = auth_kind >= 5;
  let token: String = format!("ghp_{}", r.ident(10)).chars().map(|c| if r.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect();
  let n = r.range(1, 3);
  let seed = r.next();
  let w = World::new(seed, false, HookCfg::default());
  let mut plans = vec![];
  for i in 0..n {
    let (owner, repo) = (format!("o{}", r.ident(5)), format!("r-{}-{}-{}", case.idx, i, r.ident(4)));
    let branch = r.pick(&["main", "dev", "feature/a", "release/1.0"]).to_string();
    let count = match r.below(9) {
      0 => 0,
      1 | 2 => r.range(1, 6),
      3 => r.range(28, 32),
      4 => r.range(60, 130),
      5 => r.range(98, 102),
      6 => r.range(199, 202),
      7 => r.range(298, 302),
      _ if r.chance(1, 4) => r.range(1000, 3000),
      _ => r.range(590, 720),
    };
    let mut paths: Vec<String> = (0..count).map(|k| if k + 3 >= count || r.chance(1, 3) { path(r) } else { format!("gen/{}/f{}.txt", k % 7, k) }).collect();
    paths.dedup();
    // the decisive files come last, so their patterns are the interesting ones
    let near: Vec<String> = paths.iter().rev().take(3).cloned().collect();
    let kind = r.below(20);
    let (event_name, pr) = match kind {
      0..=9 => ("push", None),
      10..=17 => ("pull_request", Some(r.range(1, 9999) as i64)),
      18 => ("pull_request", None),
      _ => ("workflow_dispatch", None),
    };
    let sha = format!("{:040x}", r.next());
    let event = TriggerEvent { event: event_name.into(), repo_owner: owner.clone(), repo_name: repo.clone(), branch: branch.clone(), pr_number: pr, sha: sha.clone(), ref_name: format!("refs/heads/{}", branch) };
    let fault = match r.below(16) {
      0 => Fault::Status(*r.pick(&[500, 404, 403, 429, 503])),
      1 => Fault::Garbage,
      2 => Fault::Close,
      3 => Fault::LaterPage(r.range(1, 3)),
      4 => Fault::Flaky,
      5 if app_instances => r.pick(&[Fault::NoInstallation, Fault::NoToken]).clone(),
      _ => Fault::None,
    };
    let auth = if app_instances { Auth::App { installation: (case.idx as i64) * 10 + i as i64 + 1 } } else { Auth::Token(token.clone()) };
    let mut commits = HashMap::new();
    let mut pulls = HashMap::new();
    if event_name == "pull_request" {
      if let Some(n) = pr {
        pulls.insert(n, paths.clone());
        pulls.insert(n + 1, vec!["other/file".into()]);
      }
      commits.insert(sha.clone(), vec!["other/file".to_string()]);
    } else {
      commits.insert(sha.clone(), paths.clone());
      commits.insert("0".repeat(40), vec!["other/file".to_string()]);
    }
    DB.lock().get_or_insert_with(HashMap::new).insert((owner, repo), Repo { auth, commits, pulls, fault: fault.clone(), requests: 0, data_requests: 0, unauthorized: 0 });
    let with_event = r.chance(12, 13);
    let pages = if event_name == "pull_request" { (paths.len() as u64).div_ceil(100).max(1) } else { (paths.len() as u64).div_ceil(300).max(1) };
    let know = if auth_kind == 0 || !with_event || kind >= 18 {
      Know::No
    } else {
      match fault {
        Fault::None => Know::Yes,
        Fault::LaterPage(k) if k > pages => {
          // a client that asks beyond the last page, or in smaller pages, may meet the fault
          Know::Either
        }
        Fault::LaterPage(1) => Know::No,
        Fault::LaterPage(_) | Fault::Flaky => {
          if matches!(fault, Fault::Flaky) {
            Know::Either
          } else {
            Know::No
          }
        }
        _ => Know::No,
      }
    };
    let on = |r: &mut Rng, p: u64| if r.below(100) < p { Some(gen_condition(r, &branch, &near)) } else { None };
    let jobs = r.range(1, 4);
    let mut spec = WfSpec { id: format!("wf-{}-{}", case.idx, i), jobs: vec![], on: None, cancels: vec![] };
    if r.chance(1, 4) {
      spec.on = on(r, 100);
    }
    for j in 0..jobs {
      let steps = (0..r.range(1, 4))
        .map(|_| {
          let fin = if r.chance(1, 8) { Fin::Failed(r.range(1, 200) as i32) } else { Fin::Succeeded };
          StepSpec { coe: r.chance(1, 4), timeout_ms: None, container: None, env: vec![], secrets: vec![], name: None, on: on(r, 50), script: Script { fin, ..Default::default() } }
        })
        .collect();
      let deps = (0..j).filter(|_| r.chance(1, 3)).map(|d| format!("j{}", d)).collect();
      spec.jobs.push(JobSpec { key: format!("j{}", j), deps, steps, on: on(r, 40) });
    }
    plans.push(Plan { spec, event: if with_event { Some(event) } else { None }, know, paths });
  }
  let rt = rt_real(2);
  case.describe(format!("{} workflows with conditions", n));
  let outs = rt.block_on(async {
    let mut b = AstroRun::builder().runner(ScriptRunner { w: w.clone(), obs: RUNNER }).plugin(ObsPlugin { w: w.clone(), obs: 0 });
    if app_instances {
      b = b.github_app(4711, KEY);
    } else if auth_kind > 0 {
      b = b.github_personal_token(token.clone());
    }
    let astro = b.build();
    *w.astro.lock() = Some(astro.clone());
    let mut hs = vec![];
    for p in &plans {
      let (w, astro, spec, event) = (w.clone(), astro.clone(), p.spec.clone(), p.event.clone());
      hs.push(tokio::spawn(async move { run_spec(&w, &astro, &spec, CtxOpts { event, payload: None }).await }));
    }
    let mut outs = vec![];
    for h in hs {
      outs.push(h.await.expect("run"));
    }
    outs
  });
  rt.shutdown_background();
  let evs = w.rec.take();
  case.evals(n);
  case.count("runs", n);
  for (p, out) in plans.iter().zip(&outs) {
    let errs = judge(case, p, out, &evs);
    let key = p.event.as_ref().map(|e| (e.repo_owner.clone(), e.repo_name.clone()));
    let repo = key.as_ref().and_then(|(o, r)| with_repo(o, r, |x| x.clone()));
    if let Some(x) = &repo {
      case.count("requests", x.requests);
      case.max("requests_per_run", x.requests);
      case.count("rejected_credentials", x.unauthorized);
      if auth_kind == 0 && x.requests > 0 {
        // not stated anywhere, only counted
        case.count("requests_without_auth", x.requests);
      }
    }
    if p.paths.len() > 100 && p.know == Know::Yes {
      case.count("change_sets_over_one_page", 1);
    }
    case.count(match p.know {
      Know::Yes => "with_change_set",
      Know::No => "without_change_set",
      Know::Either => "flaky_change_set",
    }, 1);
    case.nontrivial(hash_str(1, &format!("{}{:?}{:?}", p.spec.to_value(), p.event, p.paths)));
    if !errs.is_empty() {
      case.fail(errs[0].clone(), json!({"errors": errs, "workflow": p.spec.to_value(), "event": p.event, "files": p.paths.len(),
        "last_files": p.paths.iter().rev().take(5).collect::<Vec<_>>(), "known": format!("{:?}", p.know), "auth": auth_kind,
        "repo": repo.map(|x| format!("{:?} requests {}", x.fault, x.requests)), "result": format!("{:?}", out.result)}));
    }
  }
  if auth_kind >= 5 {
    case.count("app_authorization_runs", n);
  }
  case.sample(|| json!({"workflow": plans[0].spec.to_value(), "event": plans[0].event, "files": plans[0].paths.len(), "known": format!("{:?}", plans[0].know), "trace": compact(&evs, 30)}));
  DB.lock().take();
}

fn judge(case: &mut Case, p: &Plan, out: &RunOut, evs: &[Ev]) -> Vec<String> {
  let mut e = vec![];
  let res = match &out.result {
    Ok(r) => r,
    Err(x) if x == "inconclusive" => {
      let asked = p.event.as_ref().and_then(|e| with_repo(&e.repo_owner, &e.repo_name, |x| x.requests)).unwrap_or(0);
      let conditions = 1 + p.spec.jobs.iter().map(|j| 1 + j.steps.len()).sum::<usize>() as u64;
      // every condition alone, four times over
      if asked > 1000 + 4 * conditions * (p.paths.len() as u64 / 100 + 3) {
        return vec![format!("the run does not end: {} requests for {} changed files so far", asked, p.paths.len())];
      }
      case.inconclusive("run did not end in time");
      return e;
    }
    Err(x) => return vec![format!("the run did not return: {}", x)],
  };
  // may: the outcomes allowed for a condition
  let eval = |on: &Option<Value>| -> BTreeSet<bool> {
    let Some(on) = on else { return [true].into() };
    let ev = match &p.event {
      Some(ev) if p.know != Know::No => ev,
      _ => return [true].into(),
    };
    let m = ref_condition(on, &ev.event, &ev.branch, &p.paths);
    if p.know == Know::Either {
      [true, m].into()
    } else {
      [m].into()
    }
  };
  let ran: Vec<(String, usize)> = evs.iter().filter(|x| x.k == K::Run && !x.exit && x.wf == p.spec.id).map(|x| (x.job.clone().unwrap(), x.step.unwrap())).collect();
  let wf_skipped = res.state == WorkflowState::Skipped;
  if !eval(&p.spec.on).contains(&!wf_skipped) {
    e.push(format!("the workflow was {} although its condition says otherwise", if wf_skipped { "skipped" } else { "run" }));
    return e;
  }
  case.count(if wf_skipped { "workflows_skipped" } else { "workflows_run" }, 1);
  if wf_skipped {
    if !ran.is_empty() || !res.jobs.is_empty() {
      e.push(format!("a skipped workflow executed {:?} and has results for {:?}", ran, res.jobs.keys()));
    }
    return e;
  }
  for j in &p.spec.jobs {
    let Some(jr) = res.jobs.get(&j.key) else {
      e.push(format!("no result for job {}", j.key));
      continue;
    };
    let skipped = jr.state == WorkflowState::Skipped;
    if !eval(&j.on).contains(&!skipped) {
      e.push(format!("job {} was {} although its condition says otherwise", j.key, if skipped { "skipped" } else { "run" }));
      continue;
    }
    case.count(if skipped { "jobs_skipped" } else { "jobs_run" }, 1);
    if skipped {
      if ran.iter().any(|x| x.0 == j.key) {
        e.push(format!("skipped job {} executed steps", j.key));
      }
      continue;
    }
    if jr.steps.len() != j.steps.len() {
      e.push(format!("job {} has {} step results", j.key, jr.steps.len()));
      continue;
    }
    let mut failed = false;
    for (i, s) in j.steps.iter().enumerate() {
      let did = ran.iter().filter(|x| x.0 == j.key && x.1 == i).count();
      let may: BTreeSet<bool> = if failed && !s.coe { [false].into() } else { eval(&s.on) };
      if did > 1 || !may.contains(&(did == 1)) {
        e.push(format!("step {}/{} was {} although its condition (or an earlier failure) says otherwise", j.key, i, if did == 0 { "skipped" } else { "run" }));
      }
      let st = &jr.steps[i].state;
      let want = if did == 0 {
        WorkflowState::Skipped
      } else if matches!(s.script.fin, Fin::Failed(_)) {
        WorkflowState::Failed
      } else {
        WorkflowState::Succeeded
      };
      if *st != want {
        e.push(format!("step {}/{} is {:?}, expected {:?}", j.key, i, st, want));
      }
      if s.on.is_some() && !(failed && !s.coe) {
        case.count(if did == 0 { "steps_skipped_by_condition" } else { "conditional_steps_run" }, 1);
      }
      if did > 0 && matches!(s.script.fin, Fin::Failed(_)) {
        failed = true;
      }
    }
    let want = if failed { WorkflowState::Failed } else { WorkflowState::Succeeded };
    if jr.state != want {
      e.push(format!("job {} is {:?}, expected {:?}", j.key, jr.state, want));
    }
  }
  let _ = Arc::new(());
  e
}
