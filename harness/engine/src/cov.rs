//! Coverage of instrumented code, per thread.
//!
//! The checks are built a second time with LLVM's coverage instrumentation
//! (bongo and the checks themselves, not the engine and the models). The
//! callbacks below note, while a thread records, which edges it takes how
//! often and how close the two sides of each comparison are. In a build
//! without instrumentation nothing calls them.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

/// Features are numbers below this; half for edges, half for comparisons.
pub const FEATURES: usize = 1 << 20;
const HALF: usize = FEATURES / 2;

static GUARDS: AtomicU32 = AtomicU32::new(0);

pub struct Trace {
  counts: Vec<u8>,
  edges: Vec<u32>,
  near: Vec<u64>,
  compared: Vec<u32>,
}

thread_local! {
  static TRACE: Cell<*mut Trace> = const { Cell::new(std::ptr::null_mut()) };
}

pub fn instrumented() -> bool {
  GUARDS.load(Ordering::SeqCst) > 0
}

impl Trace {
  pub fn new() -> Box<Self> {
    Box::new(Trace {
      counts: vec![0; GUARDS.load(Ordering::SeqCst) as usize + 1],
      edges: Vec::new(),
      near: vec![0; HALF / 64],
      compared: Vec::new(),
    })
  }

  /// Records what `f` does on this thread. Forgets what was recorded before.
  pub fn record<R>(self: &mut Box<Self>, f: impl FnOnce() -> R) -> R {
    for e in self.edges.drain(..) {
      self.counts[e as usize] = 0;
    }
    for c in self.compared.drain(..) {
      self.near[c as usize / 64] = 0;
    }
    TRACE.with(|t| t.set(&mut **self as *mut Trace));
    let r = f();
    TRACE.with(|t| t.set(std::ptr::null_mut()));
    r
  }

  pub fn features(&self, out: &mut Vec<u32>) {
    out.clear();
    for e in &self.edges {
      let bucket = match self.counts[*e as usize] {
        1 => 0,
        2 => 1,
        3 => 2,
        4..=7 => 3,
        8..=15 => 4,
        16..=31 => 5,
        32..=127 => 6,
        _ => 7,
      };
      out.push((*e as usize * 8 + bucket) as u32 % HALF as u32);
    }
    out.extend(self.compared.iter().map(|c| c + HALF as u32));
  }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(
  start: *mut u32,
  stop: *mut u32,
) {
  let mut p = start;
  while p < stop {
    // Between the two lie the guards of one module, which start as zeros.
    unsafe {
      if *p == 0 {
        *p = GUARDS.fetch_add(1, Ordering::SeqCst) + 1;
      }
      p = p.add(1);
    }
  }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
  let t = TRACE.with(|t| t.get());
  if t.is_null() {
    return;
  }
  // Set by `record` on this thread, which is still inside of it.
  let t = unsafe { &mut *t };
  let id = unsafe { *guard };
  if let Some(n) = t.counts.get_mut(id as usize) {
    if *n == 0 {
      t.edges.push(id);
    }
    *n = n.saturating_add(1);
  }
}

extern "C" fn compared(a: u64, b: u64, place: u64) {
  let t = TRACE.with(|t| t.get());
  if t.is_null() {
    return;
  }
  let t = unsafe { &mut *t };
  let bucket = 64 - a.abs_diff(b).leading_zeros() as u64;
  let h = (place.wrapping_mul(65) + bucket).wrapping_mul(0x9E3779B97F4A7C15);
  let i = (h >> 32) as usize % HALF;
  let (word, bit) = (&mut t.near[i / 64], 1u64 << (i % 64));
  if *word & bit == 0 {
    *word |= bit;
    t.compared.push(i as u32);
  }
}

// Only comparisons with constants count: the others are mostly the searches
// within the standard library's maps.
#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
  ".globl __sanitizer_cov_trace_const_cmp8",
  "__sanitizer_cov_trace_const_cmp8:",
  "mov rdx, [rsp]",
  "jmp {f}",
  ".globl __sanitizer_cov_trace_const_cmp4",
  "__sanitizer_cov_trace_const_cmp4:",
  "mov edi, edi",
  "mov esi, esi",
  "mov rdx, [rsp]",
  "jmp {f}",
  f = sym compared,
);

#[cfg(not(target_arch = "x86_64"))]
mod plain {
  #[no_mangle]
  extern "C" fn __sanitizer_cov_trace_const_cmp8(_: u64, _: u64) {}
  #[no_mangle]
  extern "C" fn __sanitizer_cov_trace_const_cmp4(_: u32, _: u32) {}
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_const_cmp2(_: u16, _: u16) {}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_const_cmp1(_: u8, _: u8) {}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}
