//! Stand-in for the docker command line: `run` executes the entrypoint as a process of its own
//! session with the container's environment, `kill` stops it; every call is recorded.
use serde::{Deserialize, Serialize};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Call {
  pub argv: Vec<String>,
  pub image: String,
  pub rest: Vec<String>,
  pub envs: Vec<String>,
  pub volumes: Vec<String>,
  pub security: Vec<String>,
  pub names: Vec<String>,
  pub workdirs: Vec<String>,
  pub entrypoints: Vec<String>,
  pub flags: Vec<String>,
  pub bad: Vec<String>,
  /// the entrypoint as it was when docker was started
  pub script: Option<Vec<u8>>,
  pub executable: bool,
}

/// Parse `docker run` arguments the way docker's flag parser does.
pub fn parse(args: &[String]) -> Call {
  let mut c = Call { argv: args.to_vec(), ..Default::default() };
  let mut i = 0;
  while i < args.len() {
    let a = &args[i];
    i += 1;
    if !a.starts_with('-') || a == "-" {
      c.image = a.clone();
      c.rest = args[i..].to_vec();
      break;
    }
    if a == "--" {
      c.image = args.get(i).cloned().unwrap_or_default();
      c.rest = args.get(i + 1..).unwrap_or_default().to_vec();
      break;
    }
    let (name, mut value) = match a.split_once('=') {
      Some((n, v)) => (n.to_string(), Some(v.to_string())),
      None => (a.clone(), None),
    };
    let list = match name.as_str() {
      "-e" | "--env" => &mut c.envs,
      "-v" | "--volume" => &mut c.volumes,
      "--security-opt" => &mut c.security,
      "--name" => &mut c.names,
      "-w" | "--workdir" => &mut c.workdirs,
      "--entrypoint" => &mut c.entrypoints,
      "--tty" | "-t" | "--rm" | "-i" | "--interactive" | "--init" => {
        c.flags.push(name);
        continue;
      }
      _ => {
        c.bad.push(a.clone());
        continue;
      }
    };
    if value.is_none() {
      value = args.get(i).cloned();
      i += 1;
    }
    match value {
      Some(v) => list.push(v),
      None => c.bad.push(a.clone()),
    }
  }
  c
}

pub fn dir() -> PathBuf {
  crate::frame::shard_dir().join("docker")
}

fn slot(name: &str) -> PathBuf {
  dir().join("state").join(name.bytes().map(|b| format!("{:02x}", b)).collect::<String>())
}

pub fn reset() {
  std::fs::remove_dir_all(dir()).ok();
  for d in ["runs", "kills", "state"] {
    std::fs::create_dir_all(dir().join(d)).expect("docker directories");
  }
}

/// The containers that were started and not stopped.
pub fn running() -> Vec<i32> {
  let entries = std::fs::read_dir(dir().join("state")).into_iter().flatten().flatten();
  entries.filter_map(|e| std::fs::read_to_string(e.path()).ok()?.trim().parse::<i32>().ok()).filter(|p| *p > 1).collect()
}

/// End everything that still runs.
pub fn abandon() {
  for pid in running() {
    unsafe {
      libc::kill(pid, libc::SIGKILL);
      libc::kill(-pid, libc::SIGKILL);
    }
  }
}

fn record(kind: &str, text: String) {
  let id = format!("{}-{}", std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos(), std::process::id());
  let tmp = dir().join(format!("tmp-{}", id));
  std::fs::write(&tmp, text).ok();
  std::fs::rename(&tmp, dir().join(kind).join(id)).ok();
}

fn read(kind: &str) -> Vec<String> {
  let mut v: Vec<PathBuf> = std::fs::read_dir(dir().join(kind)).into_iter().flatten().flatten().map(|e| e.path()).collect();
  v.sort();
  v.into_iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect()
}

pub fn runs() -> Vec<Call> {
  read("runs").iter().map(|t| serde_json::from_str(t).unwrap()).collect()
}

/// Arguments of every `docker kill`, and of unknown subcommands.
pub fn kills() -> Vec<Vec<String>> {
  read("kills").iter().map(|t| serde_json::from_str(t).unwrap()).collect()
}

fn mounted(c: &Call, inside: &str) -> Option<PathBuf> {
  c.volumes.iter().find_map(|v| v.rsplit_once(':').filter(|(_, to)| *to == inside).map(|(from, _)| PathBuf::from(from)))
}

pub fn main(args: &[String]) -> i32 {
  match args.first().map(|s| s.as_str()) {
    Some("run") => run(&args[1..]),
    _ => {
      record("kills", serde_json::to_string(args).unwrap());
      if args.len() == 2 && args[0] == "kill" {
        if let Some(pid) = std::fs::read_to_string(slot(&args[1])).ok().and_then(|t| t.parse::<i32>().ok()) {
          unsafe {
            libc::kill(pid, libc::SIGKILL);
            libc::kill(-pid, libc::SIGKILL);
          }
          return 0;
        }
      }
      1
    }
  }
}

fn run(args: &[String]) -> i32 {
  let mut c = parse(args);
  let entry = c.entrypoints.last().and_then(|e| mounted(&c, e));
  if let Some(e) = &entry {
    use std::os::unix::fs::PermissionsExt;
    c.script = std::fs::read(e).ok();
    c.executable = std::fs::metadata(e).is_ok_and(|m| m.is_file() && m.permissions().mode() & 0o111 == 0o111);
  }
  record("runs", serde_json::to_string(&c).unwrap());
  let Some(entry) = entry else { return 125 };
  if !c.bad.is_empty() || c.image.is_empty() {
    return 125;
  }
  let cwd = c.workdirs.last().and_then(|w| mounted(&c, w)).unwrap_or_else(|| PathBuf::from("/"));
  if cwd != Path::new("/") {
    std::fs::create_dir_all(&cwd).ok();
  }
  let name = c.names.last().cloned().unwrap_or_default();
  // (a container of this name that was killed may have left it)
  std::fs::remove_file(slot(&name)).ok();
  let begin = std::time::Instant::now();
  let mut child = loop {
    let mut cmd = std::process::Command::new(&entry);
    cmd.env_clear().env("PATH", "/usr/bin:/bin").env("VH_SHARD_DIR", crate::frame::shard_dir()).current_dir(&cwd).stdin(std::process::Stdio::null());
    for e in &c.envs {
      if let Some((k, v)) = e.split_once('=') {
        cmd.env(k, v);
      }
    }
    // known by its name before it can do anything, and before it leaves the group of its starter
    let known = std::ffi::CString::new(slot(&name).into_os_string().into_encoded_bytes()).unwrap();
    unsafe {
      cmd.pre_exec(move || {
        let mut digits = [0u8; 12];
        let (mut n, mut at) = (libc::getpid(), digits.len());
        while n > 0 {
          at -= 1;
          digits[at] = b'0' + (n % 10) as u8;
          n /= 10;
        }
        let fd = libc::open(known.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC | libc::O_CLOEXEC, 0o600);
        libc::write(fd, digits[at..].as_ptr() as *const libc::c_void, digits.len() - at);
        libc::close(fd);
        libc::setsid();
        Ok(())
      });
    }
    match cmd.spawn() {
      Ok(c) => break c,
      // another thread of the runner may hold the file open across a fork
      Err(e) if e.raw_os_error() == Some(libc::ETXTBSY) && begin.elapsed().as_secs() < 5 => std::thread::sleep(std::time::Duration::from_millis(5)),
      Err(e) => {
        eprintln!("docker stand-in: {:?}: {}", entry, e);
        return 126;
      }
    }
  };
  let status = child.wait().expect("wait");
  std::fs::remove_file(slot(&name)).ok();
  status.code().unwrap_or_else(|| 128 + status.signal().unwrap_or(0))
}
