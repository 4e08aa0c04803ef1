//! The command of a host or container step: it does what a plan says and leaves marks behind.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::Path;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
  /// write bytes to 1 or 2, n times
  Write { fd: i32, data: Vec<u8>, n: u64 },
  Sleep(u64),
  Close(i32),
  /// a child process, with the same standard streams or with none
  Fork { ops: Vec<Op>, null: bool },
  /// append a line to a file
  Mark(String),
  /// append to a file every so many ms, that often
  Beat { path: String, every: u64, n: u64 },
  /// write the environment and the directory to a file
  Dump(String),
  /// write the listing of a directory to a file
  Ls { dir: String, out: String },
  Put { path: String, data: String },
  Mkdir(String),
  Link { to: String, path: String },
  Rm(String),
  /// ignore the polite signals
  Stubborn,
  Exit(i32),
  Kill(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
  /// processes note their ids here
  pub pids: String,
  pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Node {
  File(String),
  Dir,
  Link(String),
}

pub type Tree = BTreeMap<String, Node>;

pub fn tree(dir: &Path) -> Tree {
  fn walk(dir: &Path, pre: &str, t: &mut Tree) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
      let name = format!("{}{}", pre, e.file_name().to_string_lossy());
      match e.file_type() {
        Ok(k) if k.is_symlink() => {
          let to = std::fs::read_link(e.path()).map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
          t.insert(name, Node::Link(to));
        }
        Ok(k) if k.is_dir() => {
          t.insert(name.clone(), Node::Dir);
          walk(&e.path(), &format!("{}/", name), t);
        }
        _ => {
          t.insert(name, Node::File(String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()).to_string()));
        }
      }
    }
  }
  let mut t = Tree::new();
  walk(dir, "", &mut t);
  t
}

pub fn append(path: &str, line: &str) {
  if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(path) {
    f.write_all(line.as_bytes()).ok();
  }
}

fn write_all(fd: i32, data: &[u8]) {
  let mut i = 0;
  while i < data.len() {
    let n = unsafe { libc::write(fd, data[i..].as_ptr() as *const libc::c_void, data.len() - i) };
    if n <= 0 {
      return;
    }
    i += n as usize;
  }
}

pub fn main(arg: &str) {
  let text = if arg.starts_with('{') { arg.to_string() } else { std::fs::read_to_string(arg).expect("plan") };
  let plan: Plan = serde_json::from_str(&text).expect("plan");
  append(&plan.pids, &format!("{}\n", std::process::id()));
  for op in &plan.ops {
    match op {
      Op::Write { fd, data, n } => (0..*n).for_each(|_| write_all(*fd, data)),
      Op::Sleep(ms) => std::thread::sleep(Duration::from_millis(*ms)),
      Op::Close(fd) => {
        unsafe { libc::close(*fd) };
      }
      Op::Fork { ops, null } => {
        let sub = Plan { pids: plan.pids.clone(), ops: ops.clone() };
        let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
        c.arg("puppet").arg(serde_json::to_string(&sub).unwrap()).stdin(std::process::Stdio::null());
        if *null {
          c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        c.spawn().expect("fork");
      }
      Op::Mark(path) => append(path, "x\n"),
      Op::Beat { path, every, n } => {
        for _ in 0..*n {
          append(path, ".");
          std::thread::sleep(Duration::from_millis(*every));
        }
      }
      Op::Dump(path) => {
        let env: BTreeMap<String, String> = std::env::vars_os().map(|(k, v)| (k.to_string_lossy().to_string(), v.to_string_lossy().to_string())).collect();
        let cwd = std::env::current_dir().map(|d| d.to_string_lossy().to_string()).unwrap_or_default();
        store(path, &serde_json::json!({"env": env, "cwd": cwd}).to_string());
      }
      Op::Ls { dir, out } => store(out, &serde_json::to_string(&tree(Path::new(dir))).unwrap()),
      Op::Put { path, data } => {
        std::fs::write(path, data).ok();
      }
      Op::Mkdir(path) => {
        std::fs::create_dir_all(path).ok();
      }
      Op::Link { to, path } => {
        std::os::unix::fs::symlink(to, path).ok();
      }
      Op::Rm(path) => {
        // only ever a relative path inside the step's directory
        assert!(!path.starts_with('/') && !path.contains(".."));
        if std::fs::remove_file(path).is_err() {
          std::fs::remove_dir_all(path).ok();
        }
      }
      Op::Stubborn => unsafe {
        for s in [libc::SIGTERM, libc::SIGINT, libc::SIGHUP, libc::SIGQUIT] {
          libc::signal(s, libc::SIG_IGN);
        }
      },
      Op::Exit(code) => std::process::exit(*code),
      Op::Kill(sig) => unsafe {
        libc::kill(libc::getpid(), *sig);
      },
    }
  }
  std::process::exit(0)
}

fn store(path: &str, text: &str) {
  let tmp = format!("{}.{}", path, std::process::id());
  std::fs::write(&tmp, text).ok();
  std::fs::rename(&tmp, path).ok();
}
