//! Deterministic work counters, used to decide termination without a clock.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
  static TICKS: Cell<u64> = const { Cell::new(0) };
  static TICK_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
  static ALLOCS: Cell<u64> = const { Cell::new(0) };
  static ALLOC_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
  static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// Panic payload when a case exceeds its comparison/clone budget.
pub struct FuelExhausted;

/// Bytes a single case may hold at once.
pub const MAX_LIVE: i64 = 2 << 30;

/// Counts one comparison, clone or similar operation of a generated value.
#[inline]
pub fn tick() {
  TICKS.with(|t| {
    let n = t.get() + 1;
    t.set(n);
    if n > TICK_LIMIT.with(|l| l.get()) {
      tick_overflow();
    }
  });
}

#[cold]
fn tick_overflow() {
  if std::thread::panicking() {
    return;
  }
  TICK_LIMIT.with(|l| l.set(u64::MAX));
  std::panic::panic_any(FuelExhausted);
}

pub fn arm(ticks: u64, allocs: u64) {
  TICKS.with(|t| t.set(0));
  ALLOCS.with(|t| t.set(0));
  LIVE.with(|t| t.set(0));
  TICK_LIMIT.with(|t| t.set(ticks));
  ALLOC_LIMIT.with(|t| t.set(allocs));
}

/// Returns (ticks, allocations).
pub fn disarm() -> (u64, u64) {
  TICK_LIMIT.with(|t| t.set(u64::MAX));
  ALLOC_LIMIT.with(|t| t.set(u64::MAX));
  (TICKS.with(|t| t.get()), ALLOCS.with(|t| t.get()))
}

pub struct CountingAlloc;

#[inline]
fn count(grow: i64, is_alloc: bool) {
  let _ = LIVE.try_with(|l| l.set(l.get() + grow));
  if !is_alloc {
    return;
  }
  let _ = ALLOCS.try_with(|a| {
    let n = a.get() + 1;
    a.set(n);
    let limit = ALLOC_LIMIT.with(|l| l.get());
    if limit == u64::MAX {
      return;
    }
    if n > limit || LIVE.with(|l| l.get()) > MAX_LIVE {
      ALLOC_LIMIT.with(|l| l.set(u64::MAX));
      crate::run::alloc_fuel_exhausted();
    }
  });
}

unsafe impl GlobalAlloc for CountingAlloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    count(l.size() as i64, true);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    count(-(l.size() as i64), false);
    System.dealloc(p, l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    count(l.size() as i64, true);
    System.alloc_zeroed(l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    count(n as i64 - l.size() as i64, true);
    System.realloc(p, l, n)
  }
}

#[global_allocator]
static GLOBAL: CountingAlloc = CountingAlloc;
