//! Packed forests: reference construction, counting, enumeration.

use crate::lang::Spans;
use crate::{Gram, Sym};
use std::collections::{BTreeMap, HashMap};

/// Reference node: nonterminal over a span.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Item {
  pub nt: u16,
  pub i: usize,
  pub j: usize,
}

#[derive(Clone, Debug)]
pub struct RefAlt {
  pub prod: usize,
  /// Boundaries: `cuts[k]..cuts[k+1]` is the span of element k.
  pub cuts: Vec<usize>,
}

/// All derivations of a word, shared by (nonterminal, span).
pub struct RefForest {
  pub items: Vec<Item>,
  pub alts: Vec<Vec<RefAlt>>,
  pub index: HashMap<Item, usize>,
}

impl RefForest {
  /// None when the word is not derivable; Some(Err) beyond `cap` alternatives.
  pub fn new(
    g: &Gram,
    w: &[u16],
    spans: &Spans,
    cap: usize,
  ) -> Option<Result<RefForest, ()>> {
    if !spans.get(g.start, 0, w.len()) {
      return None;
    }
    let mut f = RefForest {
      items: Vec::new(),
      alts: Vec::new(),
      index: HashMap::new(),
    };
    let root = Item {
      nt: g.start,
      i: 0,
      j: w.len(),
    };
    f.items.push(root);
    f.index.insert(root, 0);
    let mut total = 0;
    let mut k = 0;
    while k < f.items.len() {
      let it = f.items[k];
      let mut alts = Vec::new();
      for (pi, p) in g.rules[it.nt as usize].iter().enumerate() {
        let syms: Vec<Sym> = p.syms().collect();
        // can[m][b]: symbols m.. derive w[b..j]
        let m = syms.len();
        let mut can = vec![vec![false; w.len() + 1]; m + 1];
        can[m][it.j] = true;
        for q in (0..m).rev() {
          for a in it.i..=it.j {
            can[q][a] = match syms[q] {
              Sym::T(t) => a < it.j && w[a] == t && can[q + 1][a + 1],
              Sym::N(x) => (a..=it.j).any(|b| can[q + 1][b] && spans.get(x, a, b)),
            };
          }
        }
        if !can[0][it.i] {
          continue;
        }
        // Depth-first over cuts.
        let mut stack: Vec<Vec<usize>> = vec![vec![it.i]];
        while let Some(c) = stack.pop() {
          let q = c.len() - 1;
          if q == m {
            total += 1;
            if total > cap {
              return Some(Err(()));
            }
            alts.push(RefAlt { prod: pi, cuts: c });
            continue;
          }
          let a = c[q];
          match syms[q] {
            Sym::T(t) => {
              if a < it.j && w[a] == t && can[q + 1][a + 1] {
                let mut d = c.clone();
                d.push(a + 1);
                stack.push(d);
              }
            }
            Sym::N(x) => {
              for b in a..=it.j {
                if can[q + 1][b] && spans.get(x, a, b) {
                  let mut d = c.clone();
                  d.push(b);
                  stack.push(d);
                }
              }
            }
          }
        }
      }
      for a in &alts {
        for (q, s) in g.rules[it.nt as usize][a.prod].syms().enumerate() {
          if let Sym::N(x) = s {
            let c = Item {
              nt: x,
              i: a.cuts[q],
              j: a.cuts[q + 1],
            };
            let next = f.items.len();
            f.index.entry(c).or_insert_with(|| {
              f.items.push(c);
              next
            });
          }
        }
      }
      f.alts.push(alts);
      k += 1;
    }
    Some(Ok(f))
  }

  /// Children item indexes of an alternative (nonterminals only).
  pub fn children(&self, g: &Gram, node: usize, a: &RefAlt) -> Vec<usize> {
    let it = self.items[node];
    g.rules[it.nt as usize][a.prod]
      .syms()
      .enumerate()
      .filter_map(|(q, s)| match s {
        Sym::T(_) => None,
        Sym::N(x) => Some(
          self.index[&Item {
            nt: x,
            i: a.cuts[q],
            j: a.cuts[q + 1],
          }],
        ),
      })
      .collect()
  }

  pub fn shape(&self, g: &Gram) -> Shape {
    Shape {
      root: 0,
      alts: (0..self.items.len())
        .map(|n| self.alts[n].iter().map(|a| self.children(g, n, a)).collect())
        .collect(),
    }
  }
}

impl RefForest {
  /// The structure without the parts that cover no token: the size of a tree
  /// is its number of branches that cover something.
  pub fn shape_of_nonempty(&self, g: &Gram) -> Shape {
    let mut s = self.shape(g);
    for alts in &mut s.alts {
      for kids in alts.iter_mut() {
        kids.retain(|c| self.items[*c].i < self.items[*c].j);
      }
    }
    s
  }
}

/// The bare structure of a forest: node -> alternatives -> child nodes, with
/// leaves left out. The size of a tree is its number of branches.
pub struct Shape {
  pub root: usize,
  pub alts: Vec<Vec<Vec<usize>>>,
}

impl Shape {
  /// Least tree size per node (None: no finite tree).
  pub fn min_sizes(&self) -> Vec<Option<u64>> {
    let n = self.alts.len();
    let mut best: Vec<Option<u64>> = vec![None; n];
    let mut parents: Vec<Vec<usize>> = vec![Vec::new(); n];
    for (p, alts) in self.alts.iter().enumerate() {
      for a in alts {
        for c in a {
          parents[*c].push(p);
        }
      }
    }
    let mut queue: std::collections::VecDeque<usize> = (0..n).collect();
    let mut queued = vec![true; n];
    while let Some(x) = queue.pop_front() {
      queued[x] = false;
      let m = self.alts[x]
        .iter()
        .filter_map(|a| {
          let mut s: u64 = 1;
          for c in a {
            s = s.saturating_add(best[*c]?).min(1 << 60);
          }
          Some(s)
        })
        .min();
      if m.is_some() && (best[x].is_none() || m < best[x]) {
        best[x] = m;
        for p in &parents[x] {
          if !queued[*p] {
            queued[*p] = true;
            queue.push_back(*p);
          }
        }
      }
    }
    best
  }

  /// Total number of trees modulo 2^128; None when infinite (a cycle is
  /// reachable; all nodes are assumed productive).
  pub fn total(&self) -> Option<u128> {
    // Iterative post-order with cycle detection.
    let n = self.alts.len();
    let mut state = vec![0u8; n];
    let mut count = vec![0u128; n];
    let mut stack = vec![(self.root, false)];
    while let Some((x, leave)) = stack.pop() {
      if leave {
        let mut sum = 0u128;
        for a in &self.alts[x] {
          let mut p = 1u128;
          for c in a {
            p = p.wrapping_mul(count[*c]);
          }
          sum = sum.wrapping_add(p);
        }
        count[x] = sum;
        state[x] = 2;
        continue;
      }
      if state[x] == 2 {
        continue;
      }
      if state[x] == 1 {
        // On the stack already: either queued twice or a cycle.
        continue;
      }
      state[x] = 1;
      stack.push((x, true));
      for a in &self.alts[x] {
        for c in a {
          match state[*c] {
            0 => stack.push((*c, false)),
            1 => {}
            _ => {}
          }
        }
      }
    }
    if self.has_cycle() {
      None
    } else {
      Some(count[self.root])
    }
  }

  pub fn has_cycle(&self) -> bool {
    let n = self.alts.len();
    let mut state = vec![0u8; n];
    // Explicit stack of (node, next child number).
    let kids: Vec<Vec<usize>> = self
      .alts
      .iter()
      .map(|alts| alts.iter().flatten().copied().collect())
      .collect();
    let mut stack = vec![(self.root, 0usize)];
    state[self.root] = 1;
    while let Some((x, k)) = stack.pop() {
      if k < kids[x].len() {
        stack.push((x, k + 1));
        let c = kids[x][k];
        match state[c] {
          0 => {
            state[c] = 1;
            stack.push((c, 0));
          }
          1 => return true,
          _ => {}
        }
      } else {
        state[x] = 2;
      }
    }
    false
  }

  /// Number of trees of each size 0..=max at the root, modulo 2^128.
  pub fn sizes(&self, max: usize) -> Vec<u128> {
    let n = self.alts.len();
    let mut cnt = vec![vec![0u128; max + 1]; n];
    // prefix[node][alt][m][s]: ways for the first m children to have total s
    let mut prefix: Vec<Vec<Vec<Vec<u128>>>> = self
      .alts
      .iter()
      .map(|alts| {
        alts
          .iter()
          .map(|a| vec![vec![0u128; max + 1]; a.len() + 1])
          .collect()
      })
      .collect();
    for s in 0..max {
      // Everything of size <= s is known; extend the prefixes to total s,
      // then trees have size s + 1.
      for x in 0..n {
        for (ai, a) in self.alts[x].iter().enumerate() {
          let pre = &mut prefix[x][ai];
          pre[0][s] = if s == 0 { 1 } else { 0 };
          for m in 0..a.len() {
            let mut v = 0u128;
            for k in 0..=s {
              let l = pre[m][s - k];
              if l != 0 {
                let r = cnt[a[m]][k];
                if r != 0 {
                  v = v.wrapping_add(l.wrapping_mul(r));
                }
              }
            }
            pre[m + 1][s] = v;
          }
        }
      }
      for x in 0..n {
        let mut v = 0u128;
        for (ai, a) in self.alts[x].iter().enumerate() {
          v = v.wrapping_add(prefix[x][ai][a.len()][s]);
        }
        cnt[x][s + 1] = v;
      }
    }
    std::mem::take(&mut cnt[self.root])
  }
}

/// A forest read from the code under test.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Alt {
  Leaf { kind: u16, value: u32 },
  Branch { key: u16, kids: Vec<usize> },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Forest {
  /// Node 0 is the root.
  pub nodes: Vec<Vec<Alt>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Yield {
  Empty,
  Span(usize, usize),
}

impl Forest {
  pub fn shape(&self) -> Shape {
    // Leaf-only nodes are left out as children.
    let is_leaf: Vec<bool> = self
      .nodes
      .iter()
      .map(|alts| {
        !alts.is_empty() && alts.iter().all(|a| matches!(a, Alt::Leaf { .. }))
      })
      .collect();
    Shape {
      root: 0,
      alts: self
        .nodes
        .iter()
        .map(|alts| {
          alts
            .iter()
            .filter_map(|a| match a {
              Alt::Leaf { .. } => None,
              Alt::Branch { kids, .. } => {
                Some(kids.iter().copied().filter(|k| !is_leaf[*k]).collect())
              }
            })
            .collect()
        })
        .collect(),
    }
  }

  /// Checks every readable tree to be a derivation from `g.start` of the word
  /// whose token at position p has kind `w[p]` and value p. Returns the yield
  /// of each node.
  pub fn check_sound(
    &self,
    g: &Gram,
    w: &[u16],
  ) -> Result<Vec<Yield>, String> {
    let n = self.nodes.len();
    // 1. Expectations: which symbol is a node used as?
    let mut seen: BTreeMap<(usize, Sym), ()> = BTreeMap::new();
    let mut work = vec![(0usize, Sym::N(g.start))];
    while let Some((x, s)) = work.pop() {
      if seen.insert((x, s), ()).is_some() {
        continue;
      }
      for a in &self.nodes[x] {
        match (a, s) {
          (Alt::Leaf { kind, value }, Sym::T(t)) => {
            if *kind != t {
              return Err(format!(
                "a leaf of kind {} stands where terminal {} is expected",
                kind, t
              ));
            }
            match w.get(*value as usize) {
              Some(k) if k == kind => {}
              _ => {
                return Err(format!(
                  "leaf (kind {}, value {}) is not an input token",
                  kind, value
                ))
              }
            }
          }
          (Alt::Branch { key, kids }, Sym::N(nt)) => {
            let p = g.rules[nt as usize].iter().find(|p| p.key == *key);
            let p = match p {
              Some(p) => p,
              None => {
                return Err(format!(
                  "branch with action {} stands where <{}> is expected, which has no such production",
                  key, nt
                ))
              }
            };
            if p.elems.len() != kids.len() {
              return Err(format!(
                "branch with action {} of <{}> has {} children, its production has {} elements",
                key,
                nt,
                kids.len(),
                p.elems.len()
              ));
            }
            for (k, e) in kids.iter().zip(p.syms()) {
              work.push((*k, e));
            }
          }
          (Alt::Leaf { kind, .. }, Sym::N(nt)) => {
            return Err(format!(
              "a leaf of kind {} stands where <{}> is expected",
              kind, nt
            ))
          }
          (Alt::Branch { key, .. }, Sym::T(t)) => {
            return Err(format!(
              "a branch with action {} stands where terminal {} is expected",
              key, t
            ))
          }
        }
      }
    }
    // 2. Yields.
    let mut y: Vec<Option<Yield>> = vec![None; n];
    let alt_yield = |a: &Alt, y: &[Option<Yield>]| -> Option<Result<Yield, String>> {
      match a {
        Alt::Leaf { value, .. } => Some(Ok(Yield::Span(
          *value as usize,
          *value as usize + 1,
        ))),
        Alt::Branch { kids, key } => {
          let mut acc = Yield::Empty;
          for k in kids {
            match (y[*k]?, acc) {
              (Yield::Empty, _) => {}
              (s, Yield::Empty) => acc = s,
              (Yield::Span(i, j), Yield::Span(a, b)) => {
                if i != b {
                  return Some(Err(format!(
                    "leaves out of order: action {} joins tokens {}..{} and {}..{}",
                    key, a, b, i, j
                  )));
                }
                acc = Yield::Span(a, j);
              }
            }
          }
          Some(Ok(acc))
        }
      }
    };
    let mut parents: Vec<Vec<usize>> = vec![Vec::new(); n];
    for (x, alts) in self.nodes.iter().enumerate() {
      for a in alts {
        if let Alt::Branch { kids, .. } = a {
          for k in kids {
            parents[*k].push(x);
          }
        }
      }
    }
    let mut work: Vec<usize> = (0..n).collect();
    while let Some(x) = work.pop() {
      if y[x].is_some() {
        continue;
      }
      for a in &self.nodes[x] {
        if let Some(r) = alt_yield(a, &y) {
          y[x] = Some(r?);
          work.extend(parents[x].iter().copied());
          break;
        }
      }
    }
    for x in 0..n {
      match y[x] {
        None => {
          return Err(
            "the forest contains a node from which no finite tree can be read"
              .to_string(),
          )
        }
        Some(v) => {
          for a in &self.nodes[x] {
            let r = alt_yield(a, &y).expect("all yields known")?;
            if r != v {
              return Err(format!(
                "two alternatives of one node cover different tokens: {:?} and {:?}",
                v, r
              ));
            }
          }
        }
      }
    }
    let want = if w.is_empty() {
      Yield::Empty
    } else {
      Yield::Span(0, w.len())
    };
    if y[0] != Some(want) {
      return Err(format!(
        "the trees cover {:?} instead of {:?}",
        y[0].unwrap(),
        want
      ));
    }
    Ok(y.into_iter().map(|v| v.unwrap()).collect())
  }

  /// Greatest simulation: can every alternative of the reference item be
  /// followed from this node?
  pub fn simulates(&self, g: &Gram, r: &RefForest, y: &[Yield]) -> bool {
    let fits = |node: usize, i: usize, j: usize| match y[node] {
      Yield::Empty => i == j,
      Yield::Span(a, b) => a == i && b == j,
    };
    // Collect pairs.
    type Pair = (usize, usize);
    let mut pairs: HashMap<Pair, Vec<Vec<Vec<Pair>>>> = HashMap::new();
    let mut work: Vec<Pair> = vec![(0, 0)];
    while let Some((f, q)) = work.pop() {
      if pairs.contains_key(&(f, q)) {
        continue;
      }
      let it = r.items[q];
      let mut need = Vec::new();
      for a in &r.alts[q] {
        let p = &g.rules[it.nt as usize][a.prod];
        let mut options = Vec::new();
        for fa in &self.nodes[f] {
          if let Alt::Branch { key, kids } = fa {
            if *key == p.key
              && kids.len() == p.elems.len()
              && kids
                .iter()
                .enumerate()
                .all(|(m, k)| fits(*k, a.cuts[m], a.cuts[m + 1]))
            {
              let sub: Vec<Pair> = p
                .syms()
                .enumerate()
                .filter_map(|(m, s)| match s {
                  Sym::T(_) => None,
                  Sym::N(x) => Some((
                    kids[m],
                    r.index[&Item {
                      nt: x,
                      i: a.cuts[m],
                      j: a.cuts[m + 1],
                    }],
                  )),
                })
                .collect();
              work.extend(sub.iter().copied());
              options.push(sub);
            }
          }
        }
        need.push(options);
      }
      pairs.insert((f, q), need);
    }
    // Eliminate.
    let mut bad: std::collections::HashSet<Pair> = Default::default();
    loop {
      let before = bad.len();
      for (p, need) in &pairs {
        if bad.contains(p) {
          continue;
        }
        let ok = need
          .iter()
          .all(|opts| opts.iter().any(|o| o.iter().all(|c| !bad.contains(c))));
        if !ok {
          bad.insert(*p);
        }
      }
      if bad.contains(&(0, 0)) {
        return false;
      }
      if bad.len() == before {
        return true;
      }
    }
  }

  /// Looks for a tree that can be read in two ways: a node with two
  /// alternatives that share a tree. Decided by the least fixpoint of "these
  /// two nodes have a tree in common".
  pub fn read_twice(&self) -> Option<String> {
    let n = self.nodes.len();
    let mut common = vec![false; n * n];
    let meet = |a: &Alt, b: &Alt, common: &[bool]| match (a, b) {
      (
        Alt::Leaf { kind, value },
        Alt::Leaf {
          kind: k2,
          value: v2,
        },
      ) => kind == k2 && value == v2,
      (Alt::Branch { key, kids }, Alt::Branch { key: k2, kids: c2 }) => {
        key == k2
          && kids.len() == c2.len()
          && kids.iter().zip(c2).all(|(x, y)| common[x * n + y])
      }
      _ => false,
    };
    loop {
      let mut changed = false;
      for x in 0..n {
        for y in x..n {
          if !common[x * n + y]
            && self.nodes[x].iter().any(|a| {
              self.nodes[y].iter().any(|b| meet(a, b, &common))
            })
          {
            common[x * n + y] = true;
            common[y * n + x] = true;
            changed = true;
          }
        }
      }
      if !changed {
        break;
      }
    }
    for (x, alts) in self.nodes.iter().enumerate() {
      for (i, a) in alts.iter().enumerate() {
        for b in &alts[..i] {
          if meet(a, b, &common) {
            return Some(format!(
              "a tree can be read in two ways, through {:?} and {:?} of node {}",
              b, a, x
            ));
          }
        }
      }
    }
    None
  }

  /// Writes the trees of exactly `size` branches below `node`, each as text;
  /// stops beyond `cap`.
  pub fn trees(&self, node: usize, size: usize, cap: usize) -> Vec<String> {
    self.trees_of(node, size, cap)
  }

  fn trees_of(&self, node: usize, size: usize, cap: usize) -> Vec<String> {
    let mut out = Vec::new();
    for a in &self.nodes[node] {
      match a {
        Alt::Leaf { kind, value } => {
          if size == 0 {
            out.push(format!("{}@{}", kind, value));
          }
        }
        Alt::Branch { key, kids } => {
          if size == 0 {
            continue;
          }
          let mut acc: Vec<(usize, String)> = vec![(0, String::new())];
          for k in kids {
            let mut next = Vec::new();
            for (used, text) in &acc {
              for s in 0..=(size - 1 - used) {
                for t in self.trees_of(*k, s, cap) {
                  next.push((used + s, format!("{} {}", text, t)));
                  if next.len() > cap {
                    return out;
                  }
                }
              }
            }
            acc = next;
          }
          for (used, text) in acc {
            if used == size - 1 {
              out.push(format!("({}{})", key, text));
            }
          }
        }
      }
      if out.len() > cap {
        return out;
      }
    }
    out
  }
}

/// The reference trees of exactly `size` branches, in the same notation.
pub fn ref_trees(
  g: &Gram,
  r: &RefForest,
  w: &[u16],
  node: usize,
  size: usize,
  cap: usize,
) -> Vec<String> {
  let mut out = Vec::new();
  if size == 0 {
    return out;
  }
  let it = r.items[node];
  for a in &r.alts[node] {
    let p = &g.rules[it.nt as usize][a.prod];
    let mut acc: Vec<(usize, String)> = vec![(0, String::new())];
    for (m, s) in p.syms().enumerate() {
      let mut next = Vec::new();
      for (used, text) in &acc {
        match s {
          Sym::T(t) => {
            next.push((*used, format!("{} {}@{}", text, t, a.cuts[m])));
            debug_assert_eq!(w[a.cuts[m]], t);
          }
          Sym::N(x) => {
            let c = r.index[&Item {
              nt: x,
              i: a.cuts[m],
              j: a.cuts[m + 1],
            }];
            for sz in 1..=(size - 1).saturating_sub(*used) {
              for t in ref_trees(g, r, w, c, sz, cap) {
                next.push((used + sz, format!("{} {}", text, t)));
                if next.len() > cap {
                  return out;
                }
              }
            }
          }
        }
      }
      acc = next;
    }
    for (used, text) in acc {
      if used == size - 1 {
        out.push(format!("({}{})", p.key, text));
      }
    }
    if out.len() > cap {
      return out;
    }
  }
  out
}
