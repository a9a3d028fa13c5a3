//! A scheduler for threads that use one forest store: one of them runs at a
//! time, and who goes on is decided at each attempt to take the lock (and,
//! where wanted, in the comparisons and clones of stored values).

use bongo::parsers::tree::verif_sync::{Attempt, POINT};
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

/// How often threads have waited for something no scheduler here knows.
static LOST: AtomicUsize = AtomicUsize::new(0);

/// It has happened too often, and each time takes a while.
pub fn useless() -> bool {
  LOST.load(Ordering::SeqCst) > 40
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
  Ready,
  /// Failed to take the lock since anybody last got ahead.
  Blocked,
  Done,
}

/// Decides who goes on: at a point where the running thread could go on
/// itself, 0 is to let it, and otherwise there are only others.
pub trait Decide: Send {
  /// One of n; `free` where the running thread cannot go on.
  fn choose(&mut self, n: usize, free: bool) -> usize;
}

struct State<D> {
  current: usize,
  status: Vec<Status>,
  /// The lock a thread has failed to take for writing. As with the standard
  /// lock, nobody reads while somebody waits to write.
  waiting: Vec<Option<usize>>,
  entered: usize,
  decide: D,
  points: u64,
  switches: u64,
  /// No longer scheduled: everybody runs.
  free: bool,
}

pub struct Sched<D> {
  state: Mutex<State<D>>,
  cond: Condvar,
  inner: bool,
}

pub struct Summary<D> {
  pub decide: D,
  pub points: u64,
  pub switches: u64,
  /// The schedule was not completely under control.
  pub free: bool,
}

trait Point {
  fn point(&self, me: usize, what: Option<Attempt>) -> bool;
  fn inner(&self) -> bool;
}

thread_local! {
  static HERE: RefCell<Option<(Arc<dyn Point>, usize)>> = const { RefCell::new(None) };
}

fn lock_point(what: Attempt) -> bool {
  let here = HERE.with(|h| h.borrow().clone());
  match here {
    Some((s, me)) => s.point(me, Some(what)),
    None => false,
  }
}

/// A point at which nothing is about to be locked.
pub fn inner_point() {
  let here = HERE.with(|h| match h.try_borrow() {
    Ok(h) => h.clone(),
    Err(_) => None,
  });
  if let Some((s, me)) = here {
    if s.inner() {
      s.point(me, None);
    }
  }
}

impl<D: Decide + 'static> Sched<D> {
  pub fn new(threads: usize, inner: bool, decide: D) -> Arc<Self> {
    Arc::new(Sched {
      state: Mutex::new(State {
        current: usize::MAX,
        status: vec![Status::Ready; threads],
        waiting: vec![None; threads],
        entered: 0,
        decide,
        points: 0,
        switches: 0,
        free: false,
      }),
      cond: Condvar::new(),
      inner,
    })
  }

  /// Runs `job` as thread `me`.
  pub fn run<R>(self: &Arc<Self>, me: usize, job: impl FnOnce() -> R) -> R {
    {
      let mut s = self.state.lock().unwrap();
      s.entered += 1;
      if s.entered == s.status.len() {
        let n = s.status.len();
        s.current = s.decide.choose(n, true);
        self.cond.notify_all();
      }
      drop(self.wait(s, me));
    }
    HERE.with(|h| *h.borrow_mut() = Some((self.clone() as Arc<dyn Point>, me)));
    POINT.with(|p| p.set(Some(lock_point)));
    struct Leave<D: Decide + 'static>(Arc<Sched<D>>, usize);
    impl<D: Decide + 'static> Drop for Leave<D> {
      fn drop(&mut self) {
        POINT.with(|p| p.set(None));
        HERE.with(|h| *h.borrow_mut() = None);
        self.0.leave(self.1);
      }
    }
    let _leave = Leave(self.clone(), me);
    job()
  }

  fn wait<'a>(
    &self,
    mut s: std::sync::MutexGuard<'a, State<D>>,
    me: usize,
  ) -> std::sync::MutexGuard<'a, State<D>> {
    let mut seen = s.points;
    while s.current != me && !s.free {
      let (g, timeout) = self.cond.wait_timeout(s, Duration::from_millis(500)).unwrap();
      s = g;
      if timeout.timed_out() && s.points == seen && s.current != me {
        // Whoever runs waits for something this scheduler does not know.
        LOST.fetch_add(1, Ordering::SeqCst);
        s.free = true;
        self.cond.notify_all();
      }
      seen = s.points;
    }
    s
  }

  fn before_waiting(&self, reads: Option<usize>) {
    if reads.is_some() {
      std::thread::sleep(Duration::from_millis(100));
    }
  }

  fn others(s: &State<D>, me: usize, status: Status) -> Vec<usize> {
    (0..s.status.len()).filter(|i| *i != me && s.status[*i] == status).collect()
  }

  fn leave(&self, me: usize) {
    let mut s = self.state.lock().unwrap();
    s.points += 1;
    s.status[me] = Status::Done;
    s.waiting[me] = None;
    for x in s.status.iter_mut() {
      if *x == Status::Blocked {
        *x = Status::Ready;
      }
    }
    let ready = Self::others(&s, me, Status::Ready);
    if !s.free && !ready.is_empty() {
      let k = s.decide.choose(ready.len(), true);
      s.current = ready[k];
    }
    self.cond.notify_all();
  }

  /// What has happened, once no thread uses it any more.
  pub fn summary(self: Arc<Self>) -> Result<Summary<D>, Arc<Self>> {
    let s = Arc::try_unwrap(self)?.state.into_inner().unwrap();
    Ok(Summary {
      decide: s.decide,
      points: s.points,
      switches: s.switches,
      free: s.free,
    })
  }
}

impl<D: Decide + 'static> Point for Sched<D> {
  fn inner(&self) -> bool {
    self.inner
  }

  /// False if there is no scheduling any more.
  fn point(&self, me: usize, what: Option<Attempt>) -> bool {
    let mut s = self.state.lock().unwrap();
    let mut failed = what.map_or(false, |a| a.failed);
    let reads = what.filter(|a| !a.write).map(|a| a.lock);
    s.waiting[me] = what.filter(|a| a.write && a.failed).map(|a| a.lock);
    loop {
      if s.free {
        return false;
      }
      s.points += 1;
      let ready = Self::others(&s, me, Status::Ready);
      if failed {
        s.status[me] = Status::Blocked;
        if ready.is_empty() {
          // Nobody gets ahead: let them try by themselves, those who write
          // first, and if it is for good, that will show.
          s.free = true;
          self.cond.notify_all();
          drop(s);
          self.before_waiting(reads);
          return false;
        }
        let k = s.decide.choose(ready.len(), true);
        s.current = ready[k];
      } else {
        // It has got ahead, so others may.
        for x in s.status.iter_mut() {
          if *x == Status::Blocked {
            *x = Status::Ready;
          }
        }
        let ready = Self::others(&s, me, Status::Ready);
        let k = if ready.is_empty() { 0 } else { s.decide.choose(ready.len() + 1, false) };
        if k > 0 {
          s.current = ready[k - 1];
        }
      }
      if s.current != me {
        s.switches += 1;
        self.cond.notify_all();
        s = self.wait(s, me);
        if s.free {
          drop(s);
          self.before_waiting(reads);
          return false;
        }
      }
      s.status[me] = Status::Ready;
      failed = reads.is_some() && (0..s.waiting.len()).any(|i| i != me && s.waiting[i] == reads);
      if !failed {
        return true;
      }
    }
  }
}

/// All decisions with at most `preemptions` switches away from a thread that
/// could go on, one after the other.
pub struct Exhaust {
  preemptions: usize,
  /// What to do: (choice, number of choices).
  path: Vec<(usize, usize)>,
  at: usize,
  used: usize,
}

impl Exhaust {
  pub fn new(preemptions: usize) -> Self {
    Exhaust {
      preemptions,
      path: Vec::new(),
      at: 0,
      used: 0,
    }
  }

  /// The next one, or none.
  pub fn next(mut self) -> Option<Self> {
    while let Some((c, n)) = self.path.pop() {
      if c + 1 < n {
        self.path.push((c + 1, n));
        self.at = 0;
        self.used = 0;
        return Some(self);
      }
    }
    None
  }

  pub fn path(&self) -> Vec<usize> {
    self.path.iter().map(|x| x.0).collect()
  }
}

impl Decide for Exhaust {
  fn choose(&mut self, n: usize, free: bool) -> usize {
    let n = if free || self.used < self.preemptions { n } else { 1 };
    if n == 1 {
      return 0;
    }
    if self.at == self.path.len() {
      self.path.push((0, n));
    }
    let c = self.path[self.at].0.min(n - 1);
    self.at += 1;
    if !free && c > 0 {
      self.used += 1;
    }
    c
  }
}

/// Switches now and then.
pub struct Walk {
  pub state: u64,
  /// One in `every` points.
  pub every: u64,
}

impl Decide for Walk {
  fn choose(&mut self, n: usize, free: bool) -> usize {
    self.state = engine::mix(self.state, 1);
    if !free && self.state % self.every != 0 {
      return 0;
    }
    let r = engine::mix(self.state, 2) as usize;
    if free {
      r % n
    } else {
      1 + r % (n - 1)
    }
  }
}
