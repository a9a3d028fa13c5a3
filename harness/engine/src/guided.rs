//! Coverage-guided search over choice sequences.
//!
//! Cases that reach something no case reached before are kept and changed
//! further: those that reach what is rarely reached most often. All threads
//! share what they keep.

use crate::cov::{Trace, FEATURES};
use crate::src::{Choice, Rng};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{Arc, RwLock};

/// Longer sequences are not kept.
const LONGEST: usize = 20_000;

struct Kept {
  choices: Vec<u64>,
  bounds: Vec<u64>,
  size: u64,
}

pub struct Pool {
  /// For each feature one more than the index of the shortest case that
  /// reaches it, or 0.
  owner: Vec<AtomicU32>,
  kept: RwLock<Vec<Arc<Kept>>>,
  known: RwLock<Vec<u32>>,
  features: AtomicU64,
}

pub struct Worker<'a> {
  pool: &'a Pool,
  rng: Rng,
  trace: Box<Trace>,
  /// How many cases of this thread reached each feature.
  hits: Vec<u32>,
  reached: Vec<u32>,
}

impl Pool {
  pub fn new() -> Self {
    Pool {
      owner: (0..FEATURES).map(|_| AtomicU32::new(0)).collect(),
      kept: RwLock::new(Vec::new()),
      known: RwLock::new(Vec::new()),
      features: AtomicU64::new(0),
    }
  }

  pub fn worker(&self, seed: u64) -> Worker<'_> {
    Worker {
      pool: self,
      rng: Rng::new(seed),
      trace: Trace::new(),
      hits: vec![0; FEATURES],
      reached: Vec::new(),
    }
  }

  /// Features reached and cases kept.
  pub fn reached(&self) -> (u64, u64) {
    (
      self.features.load(Ordering::SeqCst),
      self.kept.read().unwrap().len() as u64,
    )
  }
}

impl Worker<'_> {
  fn below(&mut self, n: usize) -> usize {
    ((self.rng.next() as u128 * n as u128) >> 64) as usize
  }

  fn parent(&mut self) -> Option<Arc<Kept>> {
    let known = self.pool.known.read().unwrap();
    if known.is_empty() {
      return None;
    }
    let features: Vec<usize> = (0..4)
      .map(|_| {
        let i =
          ((self.rng.next() as u128 * known.len() as u128) >> 64) as usize;
        known[i] as usize
      })
      .collect();
    drop(known);
    let kept = self.pool.kept.read().unwrap();
    let mut best: Option<(u64, &Arc<Kept>)> = None;
    for f in features {
      let owner = self.pool.owner[f].load(Ordering::SeqCst);
      let k = kept.get((owner as usize).checked_sub(1)?)?;
      // Rarely reached, by a short case.
      let score = (self.hits[f] as u64 + 1) * (32 + k.choices.len() as u64);
      if best.map_or(true, |b| score < b.0) {
        best = Some((score, k));
      }
    }
    Some(best?.1.clone())
  }

  /// The next case: choices and size.
  pub fn propose(&mut self) -> (Vec<u64>, u64) {
    let parent = if self.below(6) == 0 { None } else { self.parent() };
    let parent = match parent {
      Some(p) => p,
      None => {
        let n = 64 << self.below(6);
        let c = (0..n).map(|_| self.rng.next() >> 1).collect();
        return (c, self.below(101) as u64);
      }
    };
    let mut c = parent.choices.clone();
    let mut size = parent.size;
    for _ in 0..1 + self.below(4).min(self.below(6)) {
      let n = c.len();
      if n == 0 {
        break;
      }
      let i = self.below(n);
      match self.below(12) {
        0..=2 => c[i] = self.rng.next() >> 1,
        3 => c[i] = c[i].wrapping_add(1),
        4 => c[i] = c[i].saturating_sub(1),
        5 => c[i] = 0,
        6 => {
          let b = parent.bounds.get(i).copied().unwrap_or(2);
          c[i] = b.saturating_sub(1 + (self.rng.next() % 3) % b.max(1));
        }
        7 => {
          let len = 1 + self.below(16.min(n));
          let end = (i + len).min(n);
          c.drain(i..end);
        }
        8 => {
          // A block once or several times more.
          let len = 1 + self.below(24.min(n - i));
          let block = c[i..i + len].to_vec();
          let times = 1 << self.below(5);
          let at = if self.below(2) == 0 { i } else { self.below(n) };
          if c.len() + len * times <= LONGEST {
            let many: Vec<u64> =
              std::iter::repeat(block).take(times).flatten().collect();
            c.splice(at..at, many);
          }
        }
        9 => {
          // The rest from another case.
          if let Some(other) = self.parent() {
            let j = if self.below(2) == 0 {
              i.min(other.choices.len())
            } else {
              self.below(other.choices.len() + 1)
            };
            c.truncate(i);
            c.extend_from_slice(&other.choices[j..]);
          }
        }
        10 => c.truncate(i),
        _ => size = self.below(101) as u64,
      }
    }
    // What the changed case draws beyond the end.
    let tail = if self.below(3) == 0 { 0 } else { 16 << self.below(5) };
    for _ in 0..tail {
      c.push(self.rng.next() >> 1);
    }
    (c, size)
  }

  pub fn record<R>(&mut self, f: impl FnOnce() -> R) -> R {
    self.trace.record(f)
  }

  /// Keeps the recorded case if it is worth it.
  pub fn learn(&mut self, choices: &[Choice], size: u64) {
    self.trace.features(&mut self.reached);
    let pool = self.pool;
    let mut new = false;
    for f in &self.reached {
      let f = *f as usize;
      self.hits[f] = self.hits[f].saturating_add(1);
      new |= pool.owner[f].load(Ordering::Relaxed) == 0;
    }
    // Shorter cases take over features; looked at for some cases only.
    let take_over = !new && self.rng.next() % 16 == 0;
    if (!new && !take_over) || choices.len() > LONGEST {
      return;
    }
    let mut kept = pool.kept.write().unwrap();
    let index = kept.len() as u32 + 1;
    let mut owned = 0;
    let mut fresh = Vec::new();
    for f in &self.reached {
      let slot = &pool.owner[*f as usize];
      let old = slot.load(Ordering::SeqCst);
      if old == index {
        continue;
      } else if old == 0 {
        fresh.push(*f);
      } else if kept[old as usize - 1].choices.len() * 3 <= choices.len() * 4 {
        continue;
      }
      slot.store(index, Ordering::SeqCst);
      owned += 1;
    }
    if owned > 0 {
      kept.push(Arc::new(Kept {
        choices: choices.iter().map(|c| c.value).collect(),
        bounds: choices.iter().map(|c| c.bound).collect(),
        size,
      }));
    }
    drop(kept);
    if !fresh.is_empty() {
      pool.features.fetch_add(fresh.len() as u64, Ordering::SeqCst);
      pool.known.write().unwrap().extend(fresh);
    }
  }
}
