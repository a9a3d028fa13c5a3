//! A small choice-sequence property-testing engine.
//!
//! A case is a pure function of a sequence of bounded integers ("choices")
//! drawn from a `Src`. The same generator code therefore serves random search,
//! exhaustive enumeration, shrinking and replay.

mod cov;
pub mod fuel;
mod guided;
mod guard;
pub mod json;
mod run;
pub mod src;

pub use fuel::tick;
pub use run::{
  catch_expected, caught_panic, main_with, run_deadlock_checked, Ctx, Suite,
};
pub use src::Src;

/// Result of running one case.
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
  ($cond:expr, $($arg:tt)*) => {
    if !$cond {
      return Err(format!($($arg)*));
    }
  };
}

#[macro_export]
macro_rules! ensure_eq {
  ($a:expr, $b:expr, $($arg:tt)*) => {{
    let (a, b) = (&$a, &$b);
    if !(*a == *b) {
      return Err(format!("{}\n  got:      {:?}\n  expected: {:?}", format!($($arg)*), a, b));
    }
  }};
}

/// FNV-1a, used for case identity (stable across runs).
pub fn hash_str(s: &str) -> u64 {
  hash_bytes(s.as_bytes())
}

pub fn hash_bytes(s: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in s {
    h ^= *b as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  h
}

pub fn mix(a: u64, b: u64) -> u64 {
  let mut z = a
    .wrapping_mul(0x9E3779B97F4A7C15)
    .wrapping_add(b)
    .wrapping_add(0x9E3779B97F4A7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}
