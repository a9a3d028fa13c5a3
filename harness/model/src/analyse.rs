//! Reference answers for nullability, FIRST, FOLLOW, reachability, ...

use crate::{Gram, Sym};
use std::collections::{BTreeMap, BTreeSet};

pub fn reachable(g: &Gram) -> Vec<bool> {
  let mut seen = vec![false; g.n()];
  let mut stack = vec![g.start as usize];
  while let Some(n) = stack.pop() {
    if n >= seen.len() || seen[n] {
      continue;
    }
    seen[n] = true;
    for p in &g.rules[n] {
      for s in p.syms() {
        if let Sym::N(m) = s {
          stack.push(m as usize);
        }
      }
    }
  }
  seen
}

/// Nonterminals deriving a sequence over the symbols accepted by `ok`.
fn derives(g: &Gram, ok: impl Fn(u16) -> bool) -> Vec<bool> {
  let mut d = vec![false; g.n()];
  loop {
    let mut changed = false;
    for (h, p) in g.prods() {
      if !d[h as usize]
        && p.syms().all(|s| match s {
          Sym::T(t) => ok(t),
          Sym::N(n) => d[n as usize],
        })
      {
        d[h as usize] = true;
        changed = true;
      }
    }
    if !changed {
      return d;
    }
  }
}

pub fn nullable(g: &Gram) -> Vec<bool> {
  derives(g, |_| false)
}

pub fn productive(g: &Gram) -> Vec<bool> {
  derives(g, |_| true)
}

/// Number of derivations of the empty sequence, saturated at 2.
pub fn empty_derivations(g: &Gram) -> Vec<u8> {
  // Count trees by height; with n nonterminals, a tree of height > n repeats a
  // nonterminal on a path, so counting up to height 4n+4 decides 0 / 1 / many
  // (a repetition can be pumped).
  let n = g.n();
  let null = nullable(g);
  // cur[nt] = number of trees of height <= h (saturated)
  let mut cur = vec![0u8; n];
  for _ in 0..(4 * n + 4) {
    let mut next = vec![0u8; n];
    for (h, p) in g.prods() {
      let mut c: u32 = 1;
      for s in p.syms() {
        c = match s {
          Sym::T(_) => 0,
          Sym::N(m) => (c * cur[m as usize] as u32).min(2),
        };
      }
      next[h as usize] = (next[h as usize] as u32 + c).min(2) as u8;
    }
    cur = next;
  }
  for i in 0..n {
    debug_assert_eq!(cur[i] > 0, null[i]);
  }
  cur
}

/// Nodes reachable from `start` (which is included) in a graph on `0..n`.
fn closure(n: usize, edges: &[Vec<usize>], start: usize) -> Vec<bool> {
  let mut seen = vec![false; n];
  let mut stack = vec![start];
  while let Some(x) = stack.pop() {
    if !seen[x] {
      seen[x] = true;
      stack.extend(edges[x].iter().copied());
    }
  }
  seen
}

/// FIRST as reachability: an edge A -> X for every occurrence of X in a
/// production of A with everything before it nullable.
pub fn firsts(g: &Gram) -> Vec<BTreeSet<u16>> {
  let null = nullable(g);
  let n = g.n();
  let mut edges = vec![Vec::new(); n];
  let mut direct = vec![BTreeSet::new(); n];
  for (h, p) in g.prods() {
    let syms: Vec<Sym> = p.syms().collect();
    for i in 0..syms.len() {
      let before_nullable = syms[..i].iter().all(|s| match s {
        Sym::T(_) => false,
        Sym::N(m) => null[*m as usize],
      });
      if before_nullable {
        match syms[i] {
          Sym::T(t) => {
            direct[h as usize].insert(t);
          }
          Sym::N(m) => edges[h as usize].push(m as usize),
        }
      }
    }
  }
  (0..n)
    .map(|a| {
      let seen = closure(n, &edges, a);
      (0..n)
        .filter(|i| seen[*i])
        .flat_map(|i| direct[i].iter().copied())
        .collect()
    })
    .collect()
}

/// FOLLOW as reachability: B "ends" A when B occurs in a production of A with
/// everything after it nullable; follow(B) is what directly follows any
/// nonterminal that B ends (transitively). `end` is put into the follow set of
/// the start symbol when given.
pub fn follows(g: &Gram, end: Option<u16>) -> Vec<BTreeSet<u16>> {
  let null = nullable(g);
  let first = firsts(g);
  let n = g.n();
  let mut edges = vec![Vec::new(); n];
  let mut direct = vec![BTreeSet::new(); n];
  if let Some(e) = end {
    direct[g.start as usize].insert(e);
  }
  for (h, p) in g.prods() {
    let syms: Vec<Sym> = p.syms().collect();
    for i in 0..syms.len() {
      if let Sym::N(b) = syms[i] {
        for j in i + 1..=syms.len() {
          let between = syms[i + 1..j].iter().all(|s| match s {
            Sym::T(_) => false,
            Sym::N(m) => null[*m as usize],
          });
          if !between {
            break;
          }
          if j == syms.len() {
            edges[b as usize].push(h as usize);
          } else {
            match syms[j] {
              Sym::T(t) => {
                direct[b as usize].insert(t);
              }
              Sym::N(m) => {
                direct[b as usize].extend(first[m as usize].iter().copied())
              }
            }
          }
        }
      }
    }
  }
  (0..n)
    .map(|a| {
      let seen = closure(n, &edges, a);
      (0..n)
        .filter(|i| seen[*i])
        .flat_map(|i| direct[i].iter().copied())
        .collect()
    })
    .collect()
}

/// FIRST and FOLLOW straight from the definition, by exploring sentential
/// forms up to the given length and count: lower bounds of the exact sets.
pub fn sentential_bounds(
  g: &Gram,
  from: u16,
  max_len: usize,
  max_forms: usize,
) -> (BTreeSet<u16>, Vec<BTreeSet<u16>>) {
  let mut firsts = BTreeSet::new();
  let mut follows = vec![BTreeSet::new(); g.n()];
  let mut seen: BTreeSet<Vec<Sym>> = BTreeSet::new();
  let mut queue = std::collections::VecDeque::new();
  seen.insert(vec![Sym::N(from)]);
  queue.push_back(vec![Sym::N(from)]);
  while let Some(f) = queue.pop_front() {
    if let Some(Sym::T(t)) = f.first() {
      firsts.insert(*t);
    }
    for w in f.windows(2) {
      if let (Sym::N(a), Sym::T(t)) = (w[0], w[1]) {
        follows[a as usize].insert(t);
      }
    }
    for i in 0..f.len() {
      if let Sym::N(a) = f[i] {
        for p in &g.rules[a as usize] {
          if f.len() - 1 + p.elems.len() <= max_len && seen.len() < max_forms {
            let mut x: Vec<Sym> = f[..i].to_vec();
            x.extend(p.syms());
            x.extend_from_slice(&f[i + 1..]);
            if seen.insert(x.clone()) {
              queue.push_back(x);
            }
          }
        }
      }
    }
  }
  (firsts, follows)
}

/// Nonterminals that derive the empty sequence and nothing else ("vanish"):
/// nullable and no terminal occurs in anything derivable from productive
/// parts. Nonterminals that derive nothing at all are not included.
pub fn only_empty(g: &Gram) -> Vec<bool> {
  let prod = productive(g);
  let null = nullable(g);
  // nonempty[a]: derives some non-empty sequence.
  let mut nonempty = vec![false; g.n()];
  loop {
    let mut changed = false;
    for (h, p) in g.prods() {
      if nonempty[h as usize] {
        continue;
      }
      let all_productive = p.syms().all(|s| match s {
        Sym::T(_) => true,
        Sym::N(m) => prod[m as usize],
      });
      let some = p.syms().any(|s| match s {
        Sym::T(_) => true,
        Sym::N(m) => nonempty[m as usize],
      });
      if all_productive && some {
        nonempty[h as usize] = true;
        changed = true;
      }
    }
    if !changed {
      break;
    }
  }
  (0..g.n()).map(|i| null[i] && !nonempty[i]).collect()
}

/// Nonterminals no production of which survives null removal.
pub fn vanishing(g: &Gram) -> Vec<bool> {
  let mut v = vec![false; g.n()];
  loop {
    let mut changed = false;
    for h in 0..g.n() {
      let all = g.rules[h].iter().all(|p| {
        p.syms().all(|s| match s {
          Sym::T(_) => false,
          Sym::N(m) => v[m as usize],
        })
      });
      if all && !v[h] {
        v[h] = true;
        changed = true;
      }
    }
    if !changed {
      return v;
    }
  }
}

/// Reachability sets for a plain graph, used by several checks.
pub fn graph_reach(
  edges: &BTreeMap<u32, Vec<u32>>,
  from: &[u32],
) -> BTreeSet<u32> {
  let mut seen = BTreeSet::new();
  let mut stack = from.to_vec();
  while let Some(x) = stack.pop() {
    if seen.insert(x) {
      if let Some(v) = edges.get(&x) {
        stack.extend(v.iter().copied());
      }
    }
  }
  seen
}
