//! The source of choices.

#[derive(Clone, Copy, Debug)]
pub struct Choice {
  pub value: u64,
  /// The choice was drawn from `0..bound`.
  pub bound: u64,
}

enum Mode {
  Random(Rng),
  Replay(Vec<u64>),
  /// Odometer: replays a prefix, then takes zeros.
  Enum(Vec<u64>),
}

#[derive(Clone)]
pub struct Rng([u64; 2]);

impl Rng {
  pub fn new(seed: u64) -> Self {
    let a = crate::mix(seed, 1);
    let b = crate::mix(a, 2);
    Rng([a | 1, b])
  }

  /// xoroshiro128+
  pub fn next(&mut self) -> u64 {
    let s0 = self.0[0];
    let mut s1 = self.0[1];
    let r = s0.wrapping_add(s1);
    s1 ^= s0;
    self.0[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
    self.0[1] = s1.rotate_left(37);
    r
  }
}

pub struct Src {
  mode: Mode,
  pub choices: Vec<Choice>,
  /// 0..=100; a generator scales sizes with it.
  size: u64,
  dry: bool,
}

impl Src {
  pub fn random(seed: u64, size: u64) -> Self {
    Src {
      mode: Mode::Random(Rng::new(seed)),
      choices: Vec::with_capacity(256),
      size,
      dry: false,
    }
  }

  /// The first choice of a replay is the size.
  pub fn replay(choices: Vec<u64>, size: u64) -> Self {
    Src {
      mode: Mode::Replay(choices),
      choices: Vec::with_capacity(256),
      size,
      dry: false,
    }
  }

  pub fn enumerate(prefix: Vec<u64>, size: u64, dry: bool) -> Self {
    Src {
      mode: Mode::Enum(prefix),
      choices: Vec::with_capacity(64),
      size,
      dry,
    }
  }

  /// True while a case is only being generated: the check must return `Ok`
  /// right after generation.
  pub fn dry(&self) -> bool {
    self.dry
  }

  pub fn size(&self) -> u64 {
    self.size
  }

  /// Scales `max` with the size of this case (at least `min`).
  pub fn scaled(&self, min: u64, max: u64) -> u64 {
    min + (max - min) * self.size / 100
  }

  /// A choice in `0..n`.
  pub fn below(&mut self, n: u64) -> u64 {
    assert!(n > 0, "empty choice");
    let pos = self.choices.len();
    let v = match &mut self.mode {
      Mode::Random(rng) => {
        if n == 1 {
          0
        } else {
          ((rng.next() as u128 * n as u128) >> 64) as u64
        }
      }
      Mode::Replay(c) | Mode::Enum(c) => {
        let v = c.get(pos).copied().unwrap_or(0);
        if v < n {
          v
        } else {
          v % n
        }
      }
    };
    self.choices.push(Choice { value: v, bound: n });
    v
  }

  pub fn idx(&mut self, n: usize) -> usize {
    self.below(n as u64) as usize
  }

  /// A choice in `lo..=hi`.
  pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
    lo + self.below(hi - lo + 1)
  }

  pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
    self.range(lo as u64, hi as u64) as usize
  }

  pub fn flag(&mut self) -> bool {
    self.below(2) == 1
  }

  /// True with probability `num / den`; the shrunk value is false.
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.below(den) >= den - num
  }

  pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
    &items[self.idx(items.len())]
  }

  /// Index drawn with the given weights (choice 0 first).
  pub fn weighted(&mut self, weights: &[u64]) -> usize {
    let total: u64 = weights.iter().sum();
    let mut v = self.below(total);
    for (i, w) in weights.iter().enumerate() {
      if v < *w {
        return i;
      }
      v -= *w;
    }
    unreachable!()
  }

  /// A number of items in `lo..=hi`, with the small ones more likely.
  pub fn count(&mut self, lo: usize, hi: usize) -> usize {
    if hi <= lo {
      return lo;
    }
    let a = self.urange(lo, hi);
    if self.chance(1, 2) {
      a
    } else {
      let b = self.urange(lo, hi);
      a.min(b)
    }
  }

  /// A permutation of `0..n` (identity when all choices are zero).
  pub fn permutation(&mut self, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in 0..n.saturating_sub(1) {
      let j = i + self.idx(n - i);
      v.swap(i, j);
    }
    v
  }
}
