//! Comparisons must be a total order that agrees with identities.

use engine::{ensure, Res};
use std::cmp::Ordering;
use std::fmt::Debug;

/// All pairs of `xs`: equal exactly when their identities are.
pub fn total_order<X: Ord, I: PartialEq + Debug>(xs: &[(I, X)], what: &str) -> Res {
  let mut order: Vec<usize> = (0..xs.len()).collect();
  order.sort_by(|a, b| xs[*a].1.cmp(&xs[*b].1));
  let mut rank = vec![0; xs.len()];
  for k in 1..order.len() {
    rank[order[k]] = rank[order[k - 1]] + (xs[order[k - 1]].0 != xs[order[k]].0) as usize;
  }
  for a in 0..xs.len() {
    for b in 0..xs.len() {
      let (x, y) = (&xs[a].1, &xs[b].1);
      let same = xs[a].0 == xs[b].0;
      ensure!((x == y) == same, "{} {:?} and {:?}: equal is {}", what, xs[a].0, xs[b].0, x == y);
      ensure!((x != y) != same, "{} {:?} and {:?}: != is {}", what, xs[a].0, xs[b].0, x != y);
      let c = x.cmp(y);
      ensure!(
        (c == Ordering::Equal) == same && c == rank[a].cmp(&rank[b]),
        "{} {:?} and {:?} compare {:?}, sorted they are {} and {}",
        what,
        xs[a].0,
        xs[b].0,
        c,
        rank[a],
        rank[b]
      );
      ensure!(x.partial_cmp(y) == Some(c), "{} {:?} and {:?}: partial_cmp is {:?}", what, xs[a].0, xs[b].0, x.partial_cmp(y));
      ensure!(
        (x < y) == (c == Ordering::Less) && (x >= y) == (c != Ordering::Less),
        "{} {:?} and {:?}: < or >= differs from cmp",
        what,
        xs[a].0,
        xs[b].0
      );
    }
  }
  Ok(())
}

/// The same, and the order must be that of the identities.
pub fn ordered_as<X: Ord, I: Ord + Debug>(xs: &[(I, X)], what: &str) -> Res {
  for (i, x) in xs {
    for (j, y) in xs {
      ensure!(x.cmp(y) == i.cmp(j), "{} {:?} and {:?} compare {:?}", what, i, j, x.cmp(y));
    }
  }
  Ok(())
}
