//! Running suites: scheduling, catching, shrinking, replay, evidence.

use crate::fuel::{self, FuelExhausted};
use crate::guard;
use crate::guided::Pool;
use crate::json::{arr, esc, get_string, get_u64_array};
use crate::src::{Choice, Src};
use crate::{hash_str, mix, Res};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const STACK: usize = 512 << 20;
const WATCHDOG_QUICK_S: u64 = 800;

#[derive(Default)]
pub struct Ctx {
  labels: BTreeMap<&'static str, u64>,
  nontrivial: Option<u64>,
  want_show: bool,
  shown: Option<String>,
}

struct Fnv(u64);
impl Hasher for Fnv {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, bytes: &[u8]) {
    for b in bytes {
      self.0 ^= *b as u64;
      self.0 = self.0.wrapping_mul(0x100000001b3);
    }
  }
}

impl Ctx {
  /// Counts cases (or observations) of a class.
  pub fn label(&mut self, l: &'static str) {
    *self.labels.entry(l).or_insert(0) += 1;
  }

  pub fn label_if(&mut self, c: bool, l: &'static str) {
    if c {
      self.label(l)
    }
  }

  pub fn label_n(&mut self, l: &'static str, n: u64) {
    *self.labels.entry(l).or_insert(0) += n;
  }

  /// Marks this case as non-trivial; `id` identifies it for counting distinct
  /// ones.
  pub fn nontrivial(&mut self, id: &impl Hash) {
    let mut h = Fnv(0xcbf29ce484222325);
    id.hash(&mut h);
    self.nontrivial = Some(h.finish());
  }

  /// Describes the case in words (only evaluated when needed).
  pub fn show(&mut self, f: impl FnOnce() -> String) {
    if self.want_show && self.shown.is_none() {
      self.shown = Some(f());
    }
  }
}

pub enum Kind {
  /// Numbers of random cases.
  Random { quick: u64, thorough: u64 },
  /// Enumerate every choice sequence; run each `stride`-th one.
  Enum { size: u64, stride_quick: u64, stride_thorough: u64 },
}

pub struct Suite {
  name: &'static str,
  kind: Kind,
  run: Box<dyn Fn(&mut Src, &mut Ctx) -> Res + Sync + Send>,
  ticks: u64,
  allocs: u64,
  retries: u32,
  threads: usize,
  guided: bool,
}

impl Suite {
  pub fn random(
    name: &'static str,
    quick: u64,
    thorough: u64,
    run: impl Fn(&mut Src, &mut Ctx) -> Res + Sync + Send + 'static,
  ) -> Self {
    Suite {
      name,
      kind: Kind::Random { quick, thorough },
      run: Box::new(run),
      ticks: 200_000_000,
      allocs: 50_000_000,
      retries: 1,
      threads: 8,
      guided: quick >= 2000,
    }
  }

  pub fn enumerated(
    name: &'static str,
    stride_quick: u64,
    stride_thorough: u64,
    run: impl Fn(&mut Src, &mut Ctx) -> Res + Sync + Send + 'static,
  ) -> Self {
    let mut s = Suite::random(name, 0, 0, run);
    s.kind = Kind::Enum {
      size: 100,
      stride_quick,
      stride_thorough,
    };
    s
  }

  /// A fixed list of cases: the first choice is `below(n)`.
  pub fn fixed(
    name: &'static str,
    n: u64,
    run: impl Fn(u64, &mut Ctx) -> Res + Sync + Send + 'static,
  ) -> Self {
    Suite::enumerated(name, 1, 1, move |src, ctx| {
      let i = src.below(n);
      if src.dry() {
        return Ok(());
      }
      run(i, ctx)
    })
  }

  pub fn fuel(mut self, ticks: u64, allocs: u64) -> Self {
    self.ticks = ticks;
    self.allocs = allocs;
    self
  }

  /// For cases that depend on a schedule the harness does not own completely.
  pub fn retries(mut self, n: u32) -> Self {
    self.retries = n;
    self
  }

  /// Leaves the suite out of the guided search: what it does happens on
  /// threads of its own, or its cases are too large to run many.
  pub fn unguided(mut self) -> Self {
    self.guided = false;
    self
  }

  pub fn threads(mut self, n: usize) -> Self {
    self.threads = n;
    self
  }
}

// --- panics -----------------------------------------------------------------

thread_local! {
  static QUIET: Cell<bool> = const { Cell::new(false) };
  static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
  static CURRENT: Cell<*const Src> = const { Cell::new(std::ptr::null()) };
  static CURRENT_SUITE: Cell<&'static str> = const { Cell::new("") };
}

fn install_hook() {
  let old = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |info| {
    let quiet = QUIET.with(|q| q.get());
    if quiet {
      let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
        s.to_string()
      } else if let Some(s) = info.payload().downcast_ref::<String>() {
        s.clone()
      } else if info.payload().is::<FuelExhausted>() {
        "work budget exhausted: does not terminate".to_string()
      } else {
        "panic".to_string()
      };
      let loc = info
        .location()
        .map(|l| format!("{}:{}", l.file(), l.line()))
        .unwrap_or_default();
      LAST_PANIC.with(|p| {
        *p.borrow_mut() = Some(format!("{} (at {})", msg, loc));
      });
    } else {
      old(info);
    }
  }));
}

/// Runs code that may panic (including by design); `Err` holds the message.
/// Exhausted work budgets are passed on.
pub fn catch_expected<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  let was_quiet = QUIET.with(|q| q.replace(true));
  let r = catch_unwind(AssertUnwindSafe(f));
  QUIET.with(|q| q.set(was_quiet));
  match r {
    Ok(v) => Ok(v),
    Err(p) => {
      if p.is::<FuelExhausted>() {
        resume_unwind(p);
      }
      Err(
        LAST_PANIC
          .with(|m| m.borrow_mut().take())
          .unwrap_or_else(|| "panic".to_string()),
      )
    }
  }
}

/// Like `catch_expected`, but turns the panic into a failure message.
pub fn caught_panic<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
  catch_expected(f).map_err(|m| format!("{} panicked: {}", what, m))
}

fn run_once(
  suite: &Suite,
  src: &mut Src,
  want_show: bool,
) -> (Res, Ctx, u64, u64) {
  let mut ctx = Ctx {
    want_show,
    ..Ctx::default()
  };
  QUIET.with(|q| q.set(true));
  CURRENT.with(|c| c.set(src as *const Src));
  CURRENT_SUITE.with(|c| c.set(suite.name));
  fuel::arm(suite.ticks, suite.allocs);
  let r = catch_unwind(AssertUnwindSafe(|| (suite.run)(src, &mut ctx)));
  let (ticks, allocs) = fuel::disarm();
  QUIET.with(|q| q.set(false));
  CURRENT.with(|c| c.set(std::ptr::null()));
  let res = match r {
    Ok(r) => r,
    Err(p) => Err(if p.is::<FuelExhausted>() {
      format!(
        "does not terminate: work budget of {} operations exhausted",
        suite.ticks
      )
    } else {
      format!(
        "unexpected panic: {}",
        LAST_PANIC
          .with(|m| m.borrow_mut().take())
          .unwrap_or_else(|| "panic".to_string())
      )
    }),
  };
  (res, ctx, ticks, allocs)
}

// --- global run state ---------------------------------------------------------

struct Global {
  property: String,
  seed: u64,
  tier: String,
  dir: PathBuf,
  started: Instant,
}

static GLOBAL: Mutex<Option<Global>> = Mutex::new(None);

/// Called from the allocator (already disarmed) when a case allocates without
/// end. There is no way to unwind from here, so report and leave.
#[cold]
pub(crate) fn alloc_fuel_exhausted() {
  let ptr = CURRENT.with(|c| c.get());
  let suite = CURRENT_SUITE.with(|c| c.get());
  let (choices, size) = if ptr.is_null() {
    (Vec::new(), 0)
  } else {
    // The source outlives the case, and the case is stopped right here.
    let src = unsafe { &*ptr };
    (
      src.choices.iter().map(|c| c.value).collect::<Vec<_>>(),
      src.size(),
    )
  };
  let msg =
    "does not terminate: allocation budget exhausted (not shrunk)".to_string();
  let guard = GLOBAL.lock().unwrap_or_else(|e| e.into_inner());
  if let Some(g) = guard.as_ref() {
    let path = write_replay(g, suite, size, &choices, &msg, "");
    write_evidence(g, &Totals::default(), &Meta::default(), 1);
    println!("{}", msg);
    println!("VIOLATION property={} replay={}", g.property, path.display());
  }
  std::process::exit(1);
}

fn write_replay(
  g: &Global,
  suite: &str,
  size: u64,
  choices: &[u64],
  msg: &str,
  case: &str,
) -> PathBuf {
  let dir = g.dir.join("replays");
  let _ = std::fs::create_dir_all(&dir);
  let h = hash_str(&format!("{}{:?}", suite, choices));
  let path = dir.join(format!("{}-{}-{:08x}.json", g.property, suite.replace(' ', "-"), h as u32));
  let doc = format!(
    "{{\"property\": {},\n \"suite\": {},\n \"size\": [{}],\n \"choices\": {},\n \"message\": {},\n \"case\": {}}}\n",
    esc(&g.property),
    esc(suite),
    size,
    arr(choices, |c| c.to_string()),
    esc(msg),
    esc(case)
  );
  if let Err(e) = std::fs::write(&path, doc) {
    eprintln!("cannot write {}: {}", path.display(), e);
  }
  path
}

fn write_origin_replay(
  g: &Global,
  suite: &str,
  size: u64,
  origin: &Result<u64, Vec<u64>>,
  msg: &str,
) -> PathBuf {
  match origin {
    Err(choices) => write_replay(g, suite, size, choices, msg, ""),
    Ok(seed) => {
      let dir = g.dir.join("replays");
      let _ = std::fs::create_dir_all(&dir);
      let path =
        dir.join(format!(
          "{}-{}-rng-{:08x}.json",
          g.property,
          suite.replace(' ', "-"),
          *seed as u32
        ));
      let doc = format!(
        "{{\"property\": {},\n \"suite\": {},\n \"size\": [{}],\n \"rng\": [{}],\n \"message\": {}}}\n",
        esc(&g.property),
        esc(suite),
        size,
        seed,
        esc(msg)
      );
      let _ = std::fs::write(&path, doc);
      path
    }
  }
}

/// How a child process ended, when that shows a case that cannot be survived.
fn fatal(status: &std::process::ExitStatus) -> Option<&'static str> {
  use std::os::unix::process::ExitStatusExt;
  if status.code() == Some(guard::BLOCKED) {
    return Some("deadlock: the only thread of the case is blocked for good");
  }
  if status.code() == Some(guard::SPINNING) {
    return Some("the case does not end: it loops without doing anything");
  }
  match status.signal() {
    Some(6) => Some("the process aborts (stack overflow or a panic while panicking)"),
    Some(11) | Some(7) | Some(4) => Some("the process is ended by a memory fault"),
    _ => None,
  }
}

/// Runs the check in a child process; see `guard`.
fn supervise(g: &Global, meta: &Meta, args: &[String]) -> i32 {
  let exe = std::env::current_exe().expect("own path");
  let scratch = g.dir.join("target");
  let _ = std::fs::create_dir_all(&scratch);
  let slots =
    scratch.join(format!("slots-{}-{}", g.property, std::process::id()));
  let status = std::process::Command::new(&exe)
    .args(args)
    .env("VERIF_CHILD", &slots)
    .status();
  let status = match status {
    Ok(s) => s,
    Err(e) => {
      println!("ERROR: cannot start {}: {}", exe.display(), e);
      return 2;
    }
  };
  let noted = guard::noted(&slots);
  let _ = std::fs::remove_file(&slots);
  if let Some(c) = status.code() {
    if c != guard::BLOCKED && c != guard::SPINNING {
      return if c == 0 || c == 1 { c } else { 2 };
    }
  }
  if fatal(&status).is_none() {
    println!("ERROR: ended by {}", status);
    return 2;
  }
  if let Some(i) = args.iter().position(|a| a == "--replay") {
    println!("{}", fatal(&status).unwrap());
    println!(
      "VIOLATION property={} replay={}",
      g.property,
      args.get(i + 1).map_or("", |s| s)
    );
    return 1;
  }
  println!("the check ended by {}; looking for the case", status);
  for (suite, size, origin) in &noted {
    let path = write_origin_replay(g, suite, *size, origin, "");
    let again = std::process::Command::new(&exe)
      .arg("--replay")
      .arg(&path)
      .env("VERIF_CHILD", "")
      .stdout(std::process::Stdio::null())
      .stderr(std::process::Stdio::null())
      .status();
    let _ = std::fs::remove_file(&path);
    if let Some(msg) = again.ok().and_then(|s| fatal(&s)) {
      let path = write_origin_replay(g, suite, *size, origin, msg);
      write_evidence(g, &Totals::default(), meta, 1);
      println!("{}", msg);
      println!("VIOLATION property={} replay={}", g.property, path.display());
      return 1;
    }
  }
  println!("ERROR: ended by {}, but no case does it again", status);
  2
}

#[derive(Default)]
pub struct Meta {
  pub rule: String,
  pub assumptions: Vec<String>,
}

#[derive(Default)]
struct SuiteTotals {
  name: String,
  evaluations: u64,
  skipped_by_stride: u64,
  complete: Option<bool>,
  distinct: HashSet<u64>,
  labels: BTreeMap<&'static str, u64>,
  samples: Vec<String>,
  max_ticks: u64,
  max_allocs: u64,
  wall: f64,
}

#[derive(Default)]
struct Totals {
  suites: Vec<SuiteTotals>,
}

/// What the run before this one (of the same check, without guidance) did.
#[derive(Default)]
struct Prior {
  evals: u64,
  distinct: u64,
  wall: f64,
  samples: String,
  suites: String,
}

fn prior() -> Prior {
  let read = || -> Option<Prior> {
    let text =
      std::fs::read_to_string(std::env::var_os("VERIF_PRIOR")?).ok()?;
    let (head, rest) = text.split_once('\n')?;
    let (samples, suites) = rest.split_once("\n\n")?;
    let mut head = head.split(' ');
    Some(Prior {
      evals: head.next()?.parse().ok()?,
      distinct: head.next()?.parse().ok()?,
      wall: head.next()?.parse().ok()?,
      samples: samples.to_string(),
      suites: suites.trim().to_string(),
    })
  };
  read().unwrap_or_default()
}

/// Joins two JSON arrays.
fn joined(a: &str, b: &str) -> String {
  let inner = |s: &str| {
    s.trim()
      .strip_prefix('[')
      .and_then(|s| s.strip_suffix(']'))
      .map(|s| s.trim().to_string())
      .unwrap_or_default()
  };
  let (a, b) = (inner(a), inner(b));
  if a.is_empty() || b.is_empty() {
    format!("[{}{}]", a, b)
  } else {
    format!("[{},\n   {}]", a, b)
  }
}

fn write_evidence(g: &Global, totals: &Totals, meta: &Meta, violations: u64) {
  let dir = g.dir.join("evidence");
  let _ = std::fs::create_dir_all(&dir);
  let path = dir.join(format!("{}.json", g.property));
  let prior = prior();
  let evals: u64 =
    prior.evals + totals.suites.iter().map(|s| s.evaluations).sum::<u64>();
  let distinct: u64 = prior.distinct
    + totals.suites.iter().map(|s| s.distinct.len() as u64).sum::<u64>();
  let mut samples = Vec::new();
  for s in &totals.suites {
    for x in s.samples.iter().take(3) {
      let mut t: String = x.chars().take(1500).collect();
      if t.len() < x.len() {
        t.push_str(" …");
      }
      samples.push(format!("[{}] {}", s.name, t));
    }
  }
  let samples = arr(&samples, |s| format!("\n   {}", esc(s)));
  let suites = arr(&totals.suites, |s| {
    let labels: Vec<String> = s
      .labels
      .iter()
      .map(|(k, v)| format!("{}: {}", esc(k), v))
      .collect();
    format!(
      "\n   {{\"suite\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}{}, \"max_operations_in_a_case\": {}, \"max_allocations_in_a_case\": {}, \"wall_s\": {:.2}, \"classes\": {{{}}}}}",
      esc(&s.name),
      s.evaluations,
      s.distinct.len(),
      match s.complete {
        Some(true) => ", \"exhaustive\": true".to_string(),
        Some(false) => format!(
          ", \"exhaustive\": false, \"enumerated_but_not_run\": {}",
          s.skipped_by_stride
        ),
        None => String::new(),
      },
      s.max_ticks,
      s.max_allocs,
      s.wall,
      labels.join(", ")
    )
  });
  let wall = prior.wall + g.started.elapsed().as_secs_f64();
  let samples = joined(&prior.samples, &samples);
  let suites = joined(&prior.suites, &suites);
  if let Some(p) = std::env::var_os("VERIF_PART") {
    let part = format!(
      "{} {} {}\n{}\n\n{}\n",
      evals, distinct, wall, samples, suites
    );
    let _ = std::fs::write(p, part);
  }
  let doc = format!(
    "{{\"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"suites\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}}}\n",
    esc(&g.property),
    esc(&g.tier),
    g.seed,
    evals,
    distinct,
    esc(&meta.rule),
    samples,
    suites,
    arr(&meta.assumptions, |s| esc(s)),
    wall,
    violations
  );
  let tmp = dir.join(format!(".{}.tmp", g.property));
  let _ = std::fs::write(&tmp, doc);
  let _ = std::fs::rename(&tmp, &path);
}

struct Failure {
  order: u64,
  choices: Vec<u64>,
  size: u64,
  msg: String,
}

fn values(c: &[Choice]) -> Vec<u64> {
  c.iter().map(|c| c.value).collect()
}

fn next_prefix(choices: &[Choice]) -> Option<Vec<u64>> {
  let mut v = values(choices);
  let mut i = v.len();
  while i > 0 {
    i -= 1;
    if v[i] + 1 < choices[i].bound {
      v[i] += 1;
      v.truncate(i + 1);
      return Some(v);
    }
  }
  None
}

type Batch = Vec<(u64, Vec<u64>)>;

fn run_suite(
  suite: &Suite,
  property: &str,
  seed: u64,
  thorough: bool,
) -> (SuiteTotals, Option<Failure>) {
  let started = Instant::now();
  let fail_order = AtomicU64::new(u64::MAX);
  let failure: Mutex<Option<Failure>> = Mutex::new(None);
  let totals = Mutex::new(SuiteTotals {
    name: suite.name.to_string(),
    ..SuiteTotals::default()
  });
  let base_seed = mix(mix(seed, hash_str(property)), hash_str(suite.name));

  let note = |local: &mut SuiteTotals,
              order: u64,
              src: &Src,
              out: (Res, Ctx, u64, u64)| {
    let (res, ctx, ticks, allocs) = out;
    local.evaluations += 1;
    local.max_ticks = local.max_ticks.max(ticks);
    local.max_allocs = local.max_allocs.max(allocs);
    for (k, v) in ctx.labels {
      *local.labels.entry(k).or_insert(0) += v;
    }
    if let Some(h) = ctx.nontrivial {
      local.distinct.insert(h);
      if let Some(s) = ctx.shown {
        if local.samples.len() < 2 {
          local.samples.push(s);
        }
      }
    }
    if let Err(msg) = res {
      fail_order.fetch_min(order, Ordering::SeqCst);
      let mut f = failure.lock().unwrap();
      if f.as_ref().map_or(true, |f| order < f.order) {
        *f = Some(Failure {
          order,
          choices: values(&src.choices),
          size: src.size(),
          msg,
        });
      }
    }
  };

  let merge = |local: SuiteTotals| {
    let mut t = totals.lock().unwrap();
    t.evaluations += local.evaluations;
    t.max_ticks = t.max_ticks.max(local.max_ticks);
    t.max_allocs = t.max_allocs.max(local.max_allocs);
    for (k, v) in local.labels {
      *t.labels.entry(k).or_insert(0) += v;
    }
    t.distinct.extend(local.distinct);
    t.samples.extend(local.samples);
  };

  match suite.kind {
    Kind::Random { quick, thorough: th } => {
      let n = if thorough { th } else { quick };
      let next = AtomicU64::new(0);
      std::thread::scope(|sc| {
        for _ in 0..suite.threads {
          std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
              let mut local = SuiteTotals::default();
              loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n || i > fail_order.load(Ordering::SeqCst) {
                  break;
                }
                // Sizes grow over the first half of the run, then stay mixed.
                let size = if i * 2 < n {
                  (i * 200 / n.max(1)).min(100)
                } else {
                  mix(i, 77) % 101
                };
                let mut src = Src::random(mix(base_seed, i), size);
                let want = i % (n / 8).max(1) < 8;
                guard::enter(
                  suite.name,
                  size,
                  guard::Origin::Rng(mix(base_seed, i)),
                );
                let out = run_once(suite, &mut src, want);
                guard::leave();
                note(&mut local, i, &src, out);
              }
              merge(local);
            })
            .unwrap();
        }
      });
    }
    Kind::Enum {
      size,
      stride_quick,
      stride_thorough,
    } => {
      let stride = if thorough { stride_thorough } else { stride_quick };
      let offset = if stride > 1 { base_seed % stride } else { 0 };
      let (tx, rx) = mpsc::sync_channel::<Batch>(64);
      let rx = Mutex::new(rx);
      let skipped = AtomicU64::new(0);
      std::thread::scope(|sc| {
        let skipped = &skipped;
        let fail_order = &fail_order;
        std::thread::Builder::new()
          .stack_size(STACK)
          .spawn_scoped(sc, move || {
            let mut prefix = Vec::new();
            let mut batch = Vec::new();
            let mut k = 0u64;
            loop {
              let mut src = Src::enumerate(prefix, size, true);
              let mut ctx = Ctx::default();
              let _ = (suite.run)(&mut src, &mut ctx);
              if k % stride == offset {
                batch.push((k, values(&src.choices)));
                if batch.len() >= 64 {
                  if fail_order.load(Ordering::SeqCst) != u64::MAX {
                    break;
                  }
                  if tx.send(std::mem::take(&mut batch)).is_err() {
                    break;
                  }
                }
              } else {
                skipped.fetch_add(1, Ordering::SeqCst);
              }
              k += 1;
              match next_prefix(&src.choices) {
                Some(p) => prefix = p,
                None => break,
              }
            }
            let _ = tx.send(batch);
          })
          .unwrap();
        for _ in 0..suite.threads {
          let (rx, note, merge) = (&rx, &note, &merge);
          std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, move || {
              let mut local = SuiteTotals::default();
              loop {
                let batch = match rx.lock().unwrap().recv() {
                  Ok(b) => b,
                  Err(_) => break,
                };
                for (order, choices) in batch {
                  if order > fail_order.load(Ordering::SeqCst) {
                    continue;
                  }
                  guard::enter(
                    suite.name,
                    size,
                    guard::Origin::Choices(&choices),
                  );
                  let mut src = Src::enumerate(choices, size, false);
                  let want = order % 1009 < 8;
                  let out = run_once(suite, &mut src, want);
                  guard::leave();
                  note(&mut local, order, &src, out);
                }
              }
              merge(local);
            })
            .unwrap();
        }
      });
      let mut t = totals.lock().unwrap();
      t.skipped_by_stride = skipped.load(Ordering::SeqCst);
      t.complete = Some(t.skipped_by_stride == 0);
    }
  }

  let mut t = totals.into_inner().unwrap();
  t.samples.truncate(4);
  t.wall = started.elapsed().as_secs_f64();
  (t, failure.into_inner().unwrap())
}

/// Searches the cases of a random suite under the guidance of the coverage
/// they reach, for a given time.
fn run_guided(
  suite: &Suite,
  property: &str,
  seed: u64,
  time: Duration,
) -> (SuiteTotals, Option<Failure>) {
  let started = Instant::now();
  let base_seed =
    mix(mix(seed, hash_str(property)), hash_str(suite.name) ^ 0x6775);
  let failure: Mutex<Option<Failure>> = Mutex::new(None);
  let failed = AtomicBool::new(false);
  let totals = Mutex::new(SuiteTotals {
    name: format!("{} (guided)", suite.name),
    ..SuiteTotals::default()
  });
  let pool = Pool::new();
  std::thread::scope(|sc| {
    for thread in 0..suite.threads {
      let (pool, failure, failed, totals) = (&pool, &failure, &failed, &totals);
      std::thread::Builder::new()
        .stack_size(STACK)
        .spawn_scoped(sc, move || {
          let mut local = SuiteTotals::default();
          let mut worker = pool.worker(mix(base_seed, thread as u64));
          while started.elapsed() < time && !failed.load(Ordering::SeqCst) {
            let (choices, size) = worker.propose();
            guard::enter(suite.name, size, guard::Origin::Choices(&choices));
            let mut src = Src::replay(choices, size);
            let want = local.evaluations % 4096 == 4095;
            let (res, ctx, ticks, allocs) =
              worker.record(|| run_once(suite, &mut src, want));
            guard::leave();
            worker.learn(&src.choices, size);
            local.evaluations += 1;
            local.max_ticks = local.max_ticks.max(ticks);
            local.max_allocs = local.max_allocs.max(allocs);
            for (k, v) in ctx.labels {
              *local.labels.entry(k).or_insert(0) += v;
            }
            if let Some(h) = ctx.nontrivial {
              if local.distinct.len() < 4_000_000 {
                local.distinct.insert(h);
              }
              if let Some(s) = ctx.shown {
                if local.samples.is_empty() {
                  local.samples.push(s);
                }
              }
            }
            if let Err(msg) = res {
              failed.store(true, Ordering::SeqCst);
              let choices = values(&src.choices);
              let mut f = failure.lock().unwrap();
              if f.as_ref().map_or(true, |f| smaller(&choices, &f.choices)) {
                *f = Some(Failure { order: 0, choices, size, msg });
              }
            }
          }
          let mut t = totals.lock().unwrap();
          t.evaluations += local.evaluations;
          t.max_ticks = t.max_ticks.max(local.max_ticks);
          t.max_allocs = t.max_allocs.max(local.max_allocs);
          for (k, v) in local.labels {
            *t.labels.entry(k).or_insert(0) += v;
          }
          t.distinct.extend(local.distinct);
          t.samples.extend(local.samples);
        })
        .unwrap();
    }
  });
  let mut t = totals.into_inner().unwrap();
  t.samples.truncate(1);
  let (features, kept) = pool.reached();
  t.labels.insert("coverage: features reached", features);
  t.labels.insert("coverage: cases kept", kept);
  t.wall = started.elapsed().as_secs_f64();
  (t, failure.into_inner().unwrap())
}

// --- shrinking ----------------------------------------------------------------

fn fails(
  suite: &Suite,
  choices: &[u64],
  size: u64,
) -> Option<(Vec<u64>, String)> {
  for _ in 0..suite.retries {
    let mut src = Src::replay(choices.to_vec(), size);
    guard::enter(suite.name, size, guard::Origin::Choices(choices));
    let (res, _, _, _) = run_once(suite, &mut src, false);
    guard::leave();
    if let Err(m) = res {
      return Some((values(&src.choices), m));
    }
  }
  None
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
  (a.len(), a) < (b.len(), b)
}

fn shrink(suite: &Suite, f: &Failure) -> (Vec<u64>, String) {
  let mut best = f.choices.clone();
  let mut msg = f.msg.clone();
  let budget: Cell<i64> = Cell::new(4000);
  let deadline = Instant::now() + Duration::from_secs(60);
  let over = || budget.get() <= 0 || Instant::now() > deadline;
  let try_it = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| {
    if over() {
      return false;
    }
    budget.set(budget.get() - 1);
    if let Some((c, m)) = fails(suite, &cand, f.size) {
      // The replay may have used fewer choices than offered.
      if smaller(&c, best) {
        *best = c;
        *msg = m;
        return true;
      }
    }
    false
  };
  loop {
    let before = best.clone();
    // Delete blocks.
    let mut blocks = Vec::new();
    let mut b = best.len() / 2;
    while b > 64 {
      blocks.push(b);
      b /= 4;
    }
    blocks.extend([64usize, 32, 16, 8, 4, 3, 2, 1]);
    for block in blocks {
      let mut i = 0;
      while i + block <= best.len() && !over() {
        let mut cand = best.clone();
        cand.drain(i..i + block);
        if !try_it(cand, &mut best, &mut msg) {
          i += if block > 4 { block / 2 } else { 1 };
        }
      }
    }
    // Delete a block and lower an earlier count.
    for i in 0..best.len().min(400) {
      for block in [1usize, 2, 3, 4] {
        if i >= best.len() || best[i] == 0 || over() {
          break;
        }
        for gap in 1..=3usize {
          if i + gap + block <= best.len() {
            let mut cand = best.clone();
            cand[i] -= 1;
            cand.drain(i + gap..i + gap + block);
            if try_it(cand, &mut best, &mut msg) {
              break;
            }
          }
        }
      }
    }
    // Zero blocks.
    for block in [16usize, 4, 1] {
      let mut i = 0;
      while i + block <= best.len() && !over() {
        if best[i..i + block].iter().any(|v| *v != 0) {
          let mut cand = best.clone();
          cand[i..i + block].iter_mut().for_each(|v| *v = 0);
          try_it(cand, &mut best, &mut msg);
        }
        i += block;
      }
    }
    // Lower single values.
    let mut i = 0;
    while i < best.len() && !over() {
      let v = best[i];
      for c in [v / 2, v.saturating_sub(1)] {
        if i < best.len() && best[i] == v && c < v {
          let mut cand = best.clone();
          cand[i] = c;
          try_it(cand, &mut best, &mut msg);
        }
      }
      i += 1;
    }
    if best == before || over() {
      return (best, msg);
    }
  }
}

// --- main ---------------------------------------------------------------------

fn env_u64(name: &str, default: u64) -> u64 {
  match std::env::var(name) {
    Ok(v) => v
      .trim()
      .parse::<u64>()
      .unwrap_or_else(|_| hash_str(v.trim())),
    Err(_) => default,
  }
}

/// Runs a check binary. Exits the process.
pub fn main_with(
  property: &str,
  rule: &str,
  assumptions: &[&str],
  suites: Vec<Suite>,
) -> ! {
  install_hook();
  let args: Vec<String> = std::env::args().skip(1).collect();
  let seed = env_u64("VERIF_SEED", 1);
  let tier = match std::env::var("VERIF_TIER").as_deref() {
    Ok("thorough") => "thorough",
    _ => "quick",
  }
  .to_string();
  let thorough = tier == "thorough";
  let dir = std::env::var("VERIF_DIR")
    .map(PathBuf::from)
    .unwrap_or_else(|_| std::env::current_dir().unwrap());
  *GLOBAL.lock().unwrap() = Some(Global {
    property: property.to_string(),
    seed,
    tier: tier.clone(),
    dir: dir.clone(),
    started: Instant::now(),
  });

  let meta = Meta {
    rule: rule.to_string(),
    assumptions: assumptions.iter().map(|s| s.to_string()).collect(),
  };
  match std::env::var_os("VERIF_CHILD") {
    None => {
      let guard = GLOBAL.lock().unwrap();
      std::process::exit(supervise(guard.as_ref().unwrap(), &meta, &args));
    }
    Some(p) => {
      if !p.is_empty() {
        guard::open(Path::new(&p));
      }
      guard::monitor(std::env::var_os("VERIF_GUIDED").is_some());
    }
  }

  if suites.is_empty() {
    println!("ERROR: no suite of {} can run in this build", property);
    std::process::exit(2);
  }

  let only: Option<String> = args
    .iter()
    .position(|a| a == "--suite")
    .and_then(|i| args.get(i + 1).cloned());
  if let Some(i) = args.iter().position(|a| a == "--replay") {
    let file = args.get(i + 1).expect("--replay FILE");
    std::process::exit(replay(property, &suites, Path::new(file)));
  }
  let scale = env_u64("VERIF_SCALE", 1);
  let guided = std::env::var_os("VERIF_GUIDED").is_some();
  if guided && !crate::cov::instrumented() {
    println!("ERROR: the build has no coverage instrumentation");
    std::process::exit(2);
  }
  // The time of the guided search is shared by the suites.
  let time = env_u64("VERIF_GUIDED_S", if thorough { 1200 } else { 10 })
    as f64
    / suites.iter().filter(|s| s.guided).count().max(1) as f64;

  // The watchdog never reports a violation.
  let limit = env_u64(
    "VERIF_WATCHDOG_S",
    match (thorough, guided) {
      (true, _) => 6 * 3600,
      (false, true) => 180,
      (false, false) => WATCHDOG_QUICK_S,
    },
  );
  std::thread::spawn(move || {
    std::thread::sleep(Duration::from_secs(limit));
    println!("ERROR: inconclusive, still running after {} s", limit);
    std::process::exit(2);
  });

  let mut totals = Totals::default();
  for mut suite in suites {
    if only.as_ref().map_or(false, |o| o != suite.name) {
      continue;
    }
    if let Kind::Random { quick, thorough } = &mut suite.kind {
      *quick *= scale;
      *thorough *= scale;
    }
    if guided {
      // Searching for unusual cases also finds those that take long.
      suite.ticks = suite.ticks.saturating_mul(4);
      suite.allocs = suite.allocs.saturating_mul(4);
    }
    let (t, failure) = if !guided {
      run_suite(&suite, property, seed, thorough)
    } else if suite.guided {
      run_guided(&suite, property, seed, Duration::from_secs_f64(time))
    } else {
      continue;
    };
    println!(
      "{} {}: {} cases, {} distinct non-trivial, {:.1} s",
      property,
      t.name,
      t.evaluations,
      t.distinct.len(),
      t.wall
    );
    totals.suites.push(t);
    if let Some(f) = failure {
      println!("first failure: {}", f.msg);
      println!("shrinking ...");
      let suite = Arc::new(suite);
      let s2 = suite.clone();
      let size = f.size;
      let (choices, msg, case) = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
          let (choices, msg) = shrink(&s2, &f);
          let mut src = Src::replay(choices.clone(), f.size);
          let (_, ctx, _, _) = run_once(&s2, &mut src, true);
          (choices, msg, ctx.shown.unwrap_or_default())
        })
        .unwrap()
        .join()
        .unwrap();
      let guard = GLOBAL.lock().unwrap();
      let g = guard.as_ref().unwrap();
      let path = write_replay(g, suite.name, size, &choices, &msg, &case);
      write_evidence(g, &totals, &meta, 1);
      println!("{}\n{}", case, msg);
      println!("VIOLATION property={} replay={}", property, path.display());
      std::process::exit(1);
    }
  }
  let guard = GLOBAL.lock().unwrap();
  let g = guard.as_ref().unwrap();
  write_evidence(g, &totals, &meta, 0);
  let longest = guard::LONGEST.load(Ordering::Relaxed);
  if longest > 0 {
    println!("longest case seen: {} ms of CPU time", longest * 10);
  }
  println!("{}: held on everything explored", property);
  std::process::exit(0);
}

fn replay(property: &str, suites: &[Suite], file: &Path) -> i32 {
  let doc = match std::fs::read_to_string(file) {
    Ok(d) => d,
    Err(e) => {
      println!("ERROR: {}: {}", file.display(), e);
      return 2;
    }
  };
  let name = get_string(&doc, "suite").unwrap_or_default();
  let choices = get_u64_array(&doc, "choices").unwrap_or_default();
  let size = get_u64_array(&doc, "size")
    .and_then(|v| v.first().copied())
    .unwrap_or(100);
  let rng = get_u64_array(&doc, "rng").and_then(|v| v.first().copied());
  let suite = match suites.iter().find(|s| s.name == name) {
    Some(s) => s,
    None => {
      println!("ERROR: no suite {:?} in {}", name, property);
      return 2;
    }
  };
  std::thread::scope(|sc| {
    std::thread::Builder::new()
      .stack_size(STACK)
      .spawn_scoped(sc, || {
        for _ in 0..suite.retries.max(1) {
          let mut src = match rng {
            Some(seed) => Src::random(seed, size),
            None => Src::replay(choices.clone(), size),
          };
          guard::enter(suite.name, size, guard::Origin::Choices(&[]));
          let (res, ctx, _, _) = run_once(suite, &mut src, true);
          guard::leave();
          if let Err(m) = res {
            println!("{}\n{}", ctx.shown.unwrap_or_default(), m);
            println!(
              "VIOLATION property={} replay={}",
              property,
              file.display()
            );
            return 1;
          }
        }
        println!("{}: the replayed case holds", property);
        0
      })
      .unwrap()
      .join()
      .unwrap()
  })
}

// --- deadlock detection ---------------------------------------------------------

pub(crate) fn thread_state(tid: i32) -> Option<(char, u64)> {
  let s =
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
  let rest = &s[s.rfind(')')? + 2..];
  let f: Vec<&str> = rest.split(' ').collect();
  let state = f.first()?.chars().next()?;
  let utime: u64 = f.get(11)?.parse().ok()?;
  let stime: u64 = f.get(12)?.parse().ok()?;
  Some((state, utime + stime))
}

pub(crate) fn gettid() -> i32 {
  // /proc/thread-self -> <pid>/task/<tid>
  std::fs::read_link("/proc/thread-self")
    .ok()
    .and_then(|p| p.file_name()?.to_str()?.parse().ok())
    .unwrap_or(-1)
}

type Job<R> = Box<dyn FnOnce() -> R + Send + 'static>;

/// Runs the jobs on threads of their own. `Err` when the jobs that have not
/// finished are all blocked in the kernel without using any CPU over a long
/// series of samples: nothing is left that could wake them. (The threads are
/// leaked in that case.)
pub fn run_deadlock_checked<R: Send + 'static>(
  jobs: Vec<Job<R>>,
) -> Result<Vec<std::thread::Result<R>>, String> {
  guard::exempt(|| deadlock_checked(jobs))
}

fn deadlock_checked<R: Send + 'static>(
  jobs: Vec<Job<R>>,
) -> Result<Vec<std::thread::Result<R>>, String> {
  let n = jobs.len();
  let tids: Arc<Mutex<Vec<Option<i32>>>> = Arc::new(Mutex::new(vec![None; n]));
  let results: Arc<(Mutex<Vec<Option<std::thread::Result<R>>>>, Condvar)> =
    Arc::new((Mutex::new((0..n).map(|_| None).collect()), Condvar::new()));
  let done = Arc::new(AtomicUsize::new(0));
  for (i, job) in jobs.into_iter().enumerate() {
    let (tids, results, done) = (tids.clone(), results.clone(), done.clone());
    std::thread::Builder::new()
      .stack_size(4 << 20)
      .spawn(move || {
        tids.lock().unwrap()[i] = Some(gettid());
        QUIET.with(|q| q.set(true));
        let r = catch_unwind(AssertUnwindSafe(job));
        let mut g = results.0.lock().unwrap();
        g[i] = Some(r);
        done.fetch_add(1, Ordering::SeqCst);
        results.1.notify_all();
      })
      .unwrap();
  }
  let mut stuck = 0;
  let mut last: Vec<(i32, u64)> = Vec::new();
  let mut guard = results.0.lock().unwrap();
  loop {
    if done.load(Ordering::SeqCst) == n {
      return Ok(guard.iter_mut().map(|r| r.take().unwrap()).collect());
    }
    let (g, timeout) = results
      .1
      .wait_timeout(guard, Duration::from_millis(250))
      .unwrap();
    guard = g;
    if !timeout.timed_out() {
      stuck = 0;
      continue;
    }
    let pending: Vec<Option<i32>> = {
      let t = tids.lock().unwrap();
      (0..n).filter(|i| guard[*i].is_none()).map(|i| t[i]).collect()
    };
    let mut now = Vec::new();
    let mut all_blocked = true;
    for t in pending {
      match t.and_then(|t| thread_state(t).map(|s| (t, s))) {
        Some((t, ('S', cpu))) => now.push((t, cpu)),
        _ => all_blocked = false,
      }
    }
    if all_blocked && !now.is_empty() && now == last {
      stuck += 1;
    } else {
      stuck = 0;
    }
    last = now;
    if stuck >= 48 {
      return Err(format!(
        "deadlock: {} of {} threads are blocked for good",
        last.len(),
        n
      ));
    }
  }
}

/// Kept so that checks can wait for flags without importing std::sync.
pub fn flag() -> Arc<AtomicBool> {
  Arc::new(AtomicBool::new(false))
}
