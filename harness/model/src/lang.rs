//! Bounded languages and span tables.

use crate::{Gram, Sym};
use std::collections::HashSet;

/// All sequences of length <= `max_len` derived by each nonterminal:
/// `lang[nt][len]`. Gives up (None) beyond `cap` sequences.
pub fn bounded(
  g: &Gram,
  max_len: usize,
  cap: usize,
) -> Option<Vec<Vec<HashSet<Vec<u16>>>>> {
  let n = g.n();
  let mut lang: Vec<Vec<HashSet<Vec<u16>>>> =
    vec![vec![HashSet::new(); max_len + 1]; n];
  let mut total = 0usize;
  for len in 0..=max_len {
    // Sequences of this length can depend on each other (unit productions,
    // nullable neighbours), so iterate.
    loop {
      let mut new: Vec<(usize, Vec<u16>)> = Vec::new();
      for (h, p) in g.prods() {
        let mut acc: Vec<Vec<u16>> = vec![vec![]];
        let syms: Vec<Sym> = p.syms().collect();
        for (i, s) in syms.iter().enumerate() {
          let mut next = Vec::new();
          let min_rest = syms[i + 1..]
            .iter()
            .filter(|s| matches!(s, Sym::T(_)))
            .count();
          for a in &acc {
            match s {
              Sym::T(t) => {
                if a.len() + 1 + min_rest <= len {
                  let mut x = a.clone();
                  x.push(*t);
                  next.push(x);
                }
              }
              Sym::N(m) => {
                for l in 0..=(len.saturating_sub(a.len() + min_rest)) {
                  if a.len() + l + min_rest > len {
                    break;
                  }
                  for w in &lang[*m as usize][l] {
                    let mut x = a.clone();
                    x.extend_from_slice(w);
                    next.push(x);
                  }
                }
              }
            }
          }
          next.sort();
          next.dedup();
          if next.len() > cap {
            return None;
          }
          acc = next;
        }
        for w in acc {
          if w.len() == len && !lang[h as usize][len].contains(&w) {
            new.push((h as usize, w));
          }
        }
      }
      if new.is_empty() {
        break;
      }
      for (h, w) in new {
        if lang[h][len].insert(w) {
          total += 1;
          if total > cap {
            return None;
          }
        }
      }
    }
  }
  Some(lang)
}

/// `get(nt, i, j)`: does nt derive w[i..j]?
pub struct Spans {
  n: usize,
  d: Vec<Vec<bool>>,
}

impl Spans {
  pub fn get(&self, nt: u16, i: usize, j: usize) -> bool {
    self.d[nt as usize][i * (self.n + 1) + j]
  }

  pub fn new(g: &Gram, w: &[u16]) -> Spans {
    let n = w.len();
    let mut s = Spans {
      n,
      d: vec![vec![false; (n + 1) * (n + 1)]; g.n()],
    };
    for len in 0..=n {
      loop {
        let mut changed = false;
        for i in 0..=(n - len) {
          let j = i + len;
          for (h, p) in g.prods() {
            if !s.get(h, i, j) && s.matches(p.syms(), w, i, j) {
              s.d[h as usize][i * (n + 1) + j] = true;
              changed = true;
            }
          }
        }
        if !changed {
          break;
        }
      }
    }
    s
  }

  fn matches(
    &self,
    syms: impl Iterator<Item = Sym>,
    w: &[u16],
    i: usize,
    j: usize,
  ) -> bool {
    let mut cur = vec![false; j - i + 1];
    cur[0] = true;
    for s in syms {
      let mut next = vec![false; j - i + 1];
      for a in i..=j {
        if !cur[a - i] {
          continue;
        }
        match s {
          Sym::T(t) => {
            if a < j && w[a] == t {
              next[a + 1 - i] = true;
            }
          }
          Sym::N(m) => {
            for b in a..=j {
              if self.get(m, a, b) {
                next[b - i] = true;
              }
            }
          }
        }
      }
      cur = next;
    }
    cur[j - i]
  }
}

/// Membership for right-linear grammars (at most one nonterminal, last), by
/// simulating the automaton; works for inputs of any length.
pub fn right_linear_accepts(g: &Gram, w: &[u16]) -> bool {
  // State: set of nonterminals that may derive the rest; None = finished.
  let close = |set: &mut Vec<bool>| {
    // unit productions
    loop {
      let mut changed = false;
      for (h, p) in g.prods() {
        if set[h as usize] && p.elems.len() == 1 {
          if let Sym::N(m) = p.elems[0].sym {
            if !set[m as usize] {
              set[m as usize] = true;
              changed = true;
            }
          }
        }
      }
      if !changed {
        break;
      }
    }
  };
  let n = g.n();
  // pending[d][nt]: nt becomes active after d more tokens have matched
  // productions with several terminals; handled by position sets instead.
  let mut active: Vec<Vec<bool>> = vec![vec![false; n]; w.len() + 1];
  let mut done = vec![false; w.len() + 1];
  active[0][g.start as usize] = true;
  for pos in 0..=w.len() {
    let mut set = std::mem::take(&mut active[pos]);
    close(&mut set);
    for (h, p) in g.prods() {
      if !set[h as usize] {
        continue;
      }
      let k = p
        .elems
        .iter()
        .take_while(|e| matches!(e.sym, Sym::T(_)))
        .count();
      assert!(k + 1 >= p.elems.len(), "not right-linear");
      if pos + k > w.len()
        || !p.elems[..k]
          .iter()
          .enumerate()
          .all(|(i, e)| e.sym == Sym::T(w[pos + i]))
      {
        continue;
      }
      match p.elems.get(k) {
        None => done[pos + k] = true,
        Some(e) => {
          if let Sym::N(m) = e.sym {
            if k > 0 {
              active[pos + k][m as usize] = true;
            }
          }
        }
      }
    }
  }
  done[w.len()]
}

/// A plain Earley recogniser (items `(production, dot, origin)`, nullable
/// prediction as by Aycock and Horspool), for inputs too long for `Spans`.
pub fn earley_accepts(g: &Gram, w: &[u16]) -> bool {
  let null = crate::analyse::nullable(g);
  let prods: Vec<(u16, Vec<Sym>)> =
    g.prods().map(|(h, p)| (h, p.syms().collect())).collect();
  let mut by_head = vec![Vec::new(); g.n()];
  for (i, (h, _)) in prods.iter().enumerate() {
    by_head[*h as usize].push(i);
  }
  type Item = (usize, usize, usize);
  let mut sets: Vec<Vec<Item>> = Vec::new();
  // waiting[pos][nt]: items in set pos with the dot before nt
  let mut waiting: Vec<Vec<Vec<Item>>> = Vec::new();
  let mut next: Vec<Item> =
    by_head[g.start as usize].iter().map(|p| (*p, 0, 0)).collect();
  for pos in 0..=w.len() {
    let mut set: Vec<Item> = Vec::new();
    let mut seen: HashSet<Item> = HashSet::new();
    waiting.push(vec![Vec::new(); g.n()]);
    for it in std::mem::take(&mut next) {
      if seen.insert(it) {
        set.push(it);
      }
    }
    let mut k = 0;
    while k < set.len() {
      let (p, dot, origin) = set[k];
      k += 1;
      let mut add = |it: Item, set: &mut Vec<Item>| {
        if seen.insert(it) {
          set.push(it);
        }
      };
      match prods[p].1.get(dot) {
        Some(Sym::T(t)) => {
          if pos < w.len() && w[pos] == *t {
            next.push((p, dot + 1, origin));
          }
        }
        Some(Sym::N(m)) => {
          waiting[pos][*m as usize].push((p, dot, origin));
          for q in &by_head[*m as usize] {
            add((*q, 0, pos), &mut set);
          }
          if null[*m as usize] {
            add((p, dot + 1, origin), &mut set);
          }
        }
        None => {
          let head = prods[p].0 as usize;
          // Items of an empty span are covered by the nullable rule.
          if origin < pos {
            let list = waiting[origin][head].clone();
            for (q, d, o) in list {
              add((q, d + 1, o), &mut set);
            }
          }
        }
      }
    }
    sets.push(set);
  }
  sets[w.len()].iter().any(|(p, dot, origin)| {
    *origin == 0 && prods[*p].0 == g.start && *dot == prods[*p].1.len()
  })
}

#[cfg(test)]
mod test {
  use super::*;

  #[test]
  fn recognisers_agree() {
    for i in 0..20000u64 {
      let mut src = engine::Src::random(engine::mix(i, 5), i % 101);
      let (g, _) = crate::gen::grammar(&mut src, crate::gen::Names::None);
      let lang = bounded(&g, 4, 5000).unwrap();
      for w in crate::gen::all_words(g.terms.min(2), 4, 40) {
        let a = Spans::new(&g, &w).get(g.start, 0, w.len());
        let b = earley_accepts(&g, &w);
        let c = lang[g.start as usize][w.len()].contains(&w);
        assert!(a == b && b == c, "{:?} {:?} {} {} {}", g, w, a, b, c);
      }
    }
  }
}
