//! Crashes, single-thread deadlocks and empty loops.
//!
//! The check runs in a child process that notes, per thread, which case it is
//! running. When the child dies of a signal (stack overflow, abort) or finds a
//! thread blocked for good or spinning in one case, the parent runs each noted
//! case on its own: the one that does it again is the violation.

use std::cell::RefCell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

pub const BLOCKED: i32 = 77;
pub const SPINNING: i32 = 78;
/// CPU time (not wall time) of one case, in seconds, from which on it counts
/// as spinning. Cases take well under a second; loops that compare, clone or
/// allocate are stopped by the fuel (see `fuel`) long before.
const SPIN_CPU_S: u64 = 45;
/// The most seen, in hundredths of a second (0 when below the sampling rate).
pub static LONGEST: AtomicU64 = AtomicU64::new(0);
const SLOT: usize = 1 << 16;

struct Worker {
  tid: i32,
  /// Odd while a case runs.
  state: Arc<AtomicU64>,
}

static FILE: OnceLock<Option<File>> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);
static WORKERS: Mutex<Vec<Worker>> = Mutex::new(Vec::new());

struct Me {
  slot: usize,
  state: Arc<AtomicU64>,
}

thread_local! {
  static ME: RefCell<Option<Me>> = const { RefCell::new(None) };
}

pub fn open(path: &Path) {
  let f = File::options()
    .create(true)
    .truncate(true)
    .write(true)
    .open(path)
    .ok();
  let _ = FILE.set(f);
}

/// Where a case comes from.
pub enum Origin<'a> {
  Rng(u64),
  Choices(&'a [u64]),
}

pub fn enter(suite: &str, size: u64, origin: Origin) {
  ME.with(|me| {
    let mut me = me.borrow_mut();
    let me = me.get_or_insert_with(|| {
      let state = Arc::new(AtomicU64::new(0));
      WORKERS.lock().unwrap().push(Worker {
        tid: super::run::gettid(),
        state: state.clone(),
      });
      Me {
        slot: NEXT.fetch_add(1, Ordering::SeqCst),
        state,
      }
    });
    if let Some(Some(f)) = FILE.get() {
      let mut text = match origin {
        Origin::Rng(seed) => format!("rng {} {} {}\n", suite, size, seed),
        Origin::Choices(c) => {
          let mut s = format!("choices {} {}", suite, size);
          for v in c {
            s.push_str(&format!(" {}", v));
          }
          s.push('\n');
          s
        }
      };
      if text.len() > SLOT {
        text = "too long\n".to_string();
      }
      let _ = f.write_all_at(text.as_bytes(), (me.slot * SLOT) as u64);
    }
    me.state.fetch_add(1, Ordering::SeqCst);
  });
}

pub fn leave() {
  ME.with(|me| {
    if let Some(me) = me.borrow().as_ref() {
      me.state.fetch_add(1, Ordering::SeqCst);
    }
  });
}

/// While this thread waits for others on purpose.
pub fn exempt<R>(f: impl FnOnce() -> R) -> R {
  leave();
  let r = f();
  ME.with(|me| {
    if let Some(me) = me.borrow().as_ref() {
      me.state.fetch_add(1, Ordering::SeqCst);
    }
  });
  r
}

struct Seen {
  state: u64,
  cpu: u64,
  blocked: u32,
  /// CPU time used before this case, in ticks.
  before: u64,
}

/// Ends the process when a thread is blocked inside a case without using any
/// CPU for a long time (cases that go through here wait for nobody), or has
/// used far more CPU time on one case than any takes.
pub fn monitor(guided: bool) {
  // Ticks of /proc/*/stat, which are fixed at 100 a second on Linux.
  const TICKS_PER_S: u64 = 100;
  std::thread::spawn(move || {
    let mut seen: Vec<Seen> = Vec::new();
    loop {
      std::thread::sleep(Duration::from_millis(500));
      let now: Vec<(u64, Option<(char, u64)>)> = WORKERS
        .lock()
        .unwrap()
        .iter()
        .map(|w| {
          (
            w.state.load(Ordering::SeqCst),
            super::run::thread_state(w.tid),
          )
        })
        .collect();
      while seen.len() < now.len() {
        seen.push(Seen { state: 0, cpu: 0, blocked: 0, before: 0 });
      }
      for (s, (state, thread)) in seen.iter_mut().zip(now) {
        let (run, cpu) = thread.unwrap_or((' ', 0));
        if state % 2 == 0 || state != s.state || thread.is_none() {
          *s = Seen { state, cpu, blocked: 0, before: cpu };
          continue;
        }
        if run == 'S' && cpu == s.cpu {
          s.blocked += 1;
          if s.blocked >= 30 {
            println!("a thread is blocked for good");
            std::process::exit(BLOCKED);
          }
        } else {
          s.blocked = 0;
        }
        s.cpu = cpu;
        LONGEST.fetch_max(cpu.saturating_sub(s.before), Ordering::Relaxed);
        if cpu.saturating_sub(s.before) > SPIN_CPU_S * TICKS_PER_S {
          if guided {
            // The models may be slow on such cases.
            println!("a case takes long; the guided search ends here");
            std::process::exit(2);
          }
          println!("a case does not end");
          std::process::exit(SPINNING);
        }
      }
    }
  });
}

/// The noted cases: (suite, size, rng seed or choices).
pub fn noted(path: &PathBuf) -> Vec<(String, u64, Result<u64, Vec<u64>>)> {
  let data = std::fs::read(path).unwrap_or_default();
  let mut out = Vec::new();
  for chunk in data.chunks(SLOT) {
    let line: Vec<u8> =
      chunk.iter().copied().take_while(|b| *b != b'\n').collect();
    let line = String::from_utf8_lossy(&line).to_string();
    let f: Vec<&str> = line.split(' ').collect();
    if f.len() < 3 {
      continue;
    }
    let size = f[2].parse().unwrap_or(100);
    match f[0] {
      "rng" => {
        if let Some(Ok(s)) = f.get(3).map(|s| s.parse()) {
          out.push((f[1].to_string(), size, Ok(s)));
        }
      }
      "choices" => out.push((
        f[1].to_string(),
        size,
        Err(f[3..].iter().filter_map(|s| s.parse().ok()).collect()),
      )),
      _ => {}
    }
  }
  out
}
