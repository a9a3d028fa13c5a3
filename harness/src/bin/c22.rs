//! C22: fixed-point and search helpers compute exact closures and terminate.

use checks::shy::{shy, way, WAYS};
use bongo::utils::{
  apply_fixed_point, breadth_first_search, change_loop, fixed_point, take_only, FixedPointProcessor, WasChanged,
};
use engine::{caught_panic, ensure, main_with, tick, Ctx, Res, Src, Suite};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

fn graph(src: &mut Src, n: usize) -> Vec<Vec<usize>> {
  let mut succ = vec![Vec::new(); n];
  match src.below(4) {
    // A long path, possibly closed or with some extra edges.
    0 => {
      let p = src.permutation(n);
      for i in 1..n {
        succ[p[i - 1]].push(p[i]);
      }
      for _ in 0..src.idx(3) {
        let (a, b) = (src.idx(n), src.idx(n));
        succ[a].push(b);
      }
    }
    _ => {
      let m = src.count(0, 2 * n + 2);
      for _ in 0..m {
        let (a, b) = (src.idx(n), src.idx(n));
        succ[a].push(b);
      }
    }
  }
  succ
}

/// Reachability by repeatedly squaring the relation.
fn closure(succ: &[Vec<usize>]) -> Vec<BTreeSet<usize>> {
  let n = succ.len();
  let mut r: Vec<BTreeSet<usize>> = (0..n).map(|i| succ[i].iter().copied().chain(Some(i)).collect()).collect();
  loop {
    let next: Vec<BTreeSet<usize>> = r.iter().map(|s| s.iter().flat_map(|j| r[*j].iter().copied()).collect()).collect();
    if next == r {
      return r;
    }
    r = next;
  }
}

fn bfs(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
  let n = src.urange(1, max);
  let succ = graph(src, n);
  let k = src.count(0, 4);
  let init: Vec<usize> = (0..k).map(|_| src.idx(n)).collect();
  ctx.show(|| format!("successors {:?} from {:?}", succ, init));
  let all = closure(&succ);
  let want: BTreeSet<usize> = init.iter().flat_map(|i| all[*i].iter().copied()).collect();
  let mut asked = vec![0; n];
  let (first, then) = (way(src), way(src));
  let got = caught_panic("breadth_first_search", || {
    breadth_first_search(shy(first, init.iter().copied()), |i: &usize| {
      tick();
      asked[*i] += 1;
      shy(then + *i as u8, succ[*i].clone())
    })
  })?;
  ensure!(got == want, "successors {:?}: {:?} are reached from {:?} instead of {:?}", succ, got, init, want);
  for i in 0..n {
    ensure!(
      asked[i] <= 1,
      "successors {:?} from {:?}: those of {} are asked for {} times",
      succ,
      init,
      i,
      asked[i]
    );
  }
  if want.len() > init.iter().collect::<BTreeSet<_>>().len() && want.len() < n {
    ctx.nontrivial(&(&succ, &init));
  }
  Ok(())
}

/// Values are sets of small numbers (bit sets); an edge passes on what is in
/// its mask, and adds something of its own.
struct Sets {
  edges: Vec<Vec<(usize, u32, u32)>>,
  calls: RefCell<u64>,
}

impl FixedPointProcessor<usize, u32> for Sets {
  fn next(&self, k: &usize, v: &u32) -> Vec<(usize, u32)> {
    tick();
    *self.calls.borrow_mut() += 1;
    self.edges[*k].iter().map(|(to, mask, add)| (*to, (v & mask) | add)).collect()
  }
  fn merge(&self, target: &mut u32, other: u32) -> WasChanged {
    let old = *target;
    *target |= other;
    WasChanged::from_changed(*target != old)
  }
}

fn keyed(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
  let n = src.urange(1, max);
  let succ = graph(src, n);
  let edges: Vec<Vec<(usize, u32, u32)>> = succ
    .iter()
    .map(|s| {
      s.iter()
        .map(|to| {
          let mask = if src.chance(1, 3) { src.below(64) as u32 } else { 63 };
          let add = if src.chance(1, 4) { 1 << src.below(6) } else { 0 };
          (*to, mask, add)
        })
        .collect()
    })
    .collect();
  let mut start = BTreeMap::new();
  for _ in 0..src.count(0, 3) {
    start.insert(src.idx(n), src.below(64) as u32);
  }
  ctx.show(|| format!("edges (to, mask, added) {:?} from {:?}", edges, start));
  // The least solution: rounds over all entries until nothing changes.
  let mut want: BTreeMap<usize, u32> = start.clone();
  let mut rounds = 0;
  loop {
    let mut next = want.clone();
    for (k, v) in &want {
      for (to, mask, add) in &edges[*k] {
        *next.entry(*to).or_insert(0) |= (v & mask) | add;
      }
    }
    if next == want {
      break;
    }
    rounds += 1;
    want = next;
  }
  let p = Sets { edges, calls: RefCell::new(0) };
  let mut got = start.clone();
  caught_panic("apply_fixed_point", || apply_fixed_point(&p, &mut got))?;
  ensure!(got == want, "edges {:?} from {:?}: {:?} instead of {:?}", p.edges, start, got, want);
  ctx.label_if(rounds >= 3, "three or more rounds");
  let grown = start.iter().any(|(k, v)| want[k] != *v);
  ctx.label_if(grown, "a starting entry grows");
  if rounds >= 2 && grown {
    ctx.nontrivial(&(&p.edges, &start));
  }
  Ok(())
}

/// Shortest distances: values go down, and often several times.
struct Distances(Vec<Vec<(usize, u64)>>);

impl FixedPointProcessor<String, u64> for Distances {
  fn next(&self, k: &String, v: &u64) -> Vec<(String, u64)> {
    tick();
    let i: usize = k.parse().unwrap();
    self.0[i].iter().map(|(to, w)| (to.to_string(), v + w)).collect()
  }
  fn merge(&self, target: &mut u64, other: u64) -> WasChanged {
    let c = other < *target;
    if c {
      *target = other;
    }
    WasChanged::from_changed(c)
  }
}

fn distances(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(1, 9);
  let succ = graph(src, n);
  let edges: Vec<Vec<(usize, u64)>> =
    succ.iter().map(|s| s.iter().map(|to| (*to, src.range(0, 12))).collect()).collect();
  let mut start: BTreeMap<String, u64> = BTreeMap::new();
  for _ in 0..src.count(0, 3) {
    let k = src.idx(n);
    start.insert(k.to_string(), src.below(20));
  }
  ctx.show(|| format!("weighted edges {:?} from {:?}", edges, start));
  let mut d: Vec<Option<u64>> = (0..n).map(|i| start.get(&i.to_string()).copied()).collect();
  let mut rounds = 0;
  for _ in 0..n {
    let mut c = false;
    for i in 0..n {
      if let Some(v) = d[i] {
        for (to, w) in &edges[i] {
          if d[*to].map_or(true, |x| v + w < x) {
            d[*to] = Some(v + w);
            c = true;
          }
        }
      }
    }
    rounds += c as u32;
  }
  let want: BTreeMap<String, u64> = (0..n).filter_map(|i| d[i].map(|v| (i.to_string(), v))).collect();
  let p = Distances(edges);
  let mut got = start.clone();
  caught_panic("apply_fixed_point", || apply_fixed_point(&p, &mut got))?;
  ensure!(got == want, "weighted edges {:?} from {:?}: {:?} instead of {:?}", p.0, start, got, want);
  if rounds >= 2 {
    ctx.nontrivial(&(&p.0, &start));
  }
  Ok(())
}

/// A step function on numbers, given as a table; or one that grows sets.
fn plain(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(1, 30);
  // A function that ends up in a fixed point from everywhere: each number
  // goes to one that comes before it in some order, or stays.
  let order = src.permutation(n);
  let mut f = vec![0; n];
  for (pos, i) in order.iter().enumerate() {
    f[*i] = if pos == 0 || src.chance(1, 8) {
      *i
    } else if src.chance(2, 3) {
      order[pos - 1]
    } else {
      order[src.idx(pos)]
    };
  }
  let start = order[n - 1 - src.idx((n + 1) / 2)];
  ctx.show(|| format!("table {:?} from {}", f, start));
  let mut want = vec![start];
  while f[want[want.len() - 1]] != want[want.len() - 1] {
    want.push(f[want[want.len() - 1]]);
  }
  let mut seen = Vec::new();
  let got = caught_panic("fixed_point", || {
    fixed_point(start, |i| {
      tick();
      seen.push(*i);
      f[*i]
    })
  })?;
  ensure!(got == want[want.len() - 1], "table {:?} from {}: {} instead of {:?}", f, start, got, want);
  seen.dedup();
  ensure!(seen == want, "table {:?} from {}: the iterates are {:?} instead of {:?}", f, start, seen, want);
  // The change loop, on the same function.
  let (mut at, mut passes) = (start, 0);
  caught_panic("change_loop", || {
    change_loop(|| {
      tick();
      passes += 1;
      let next = f[at];
      let c = next != at;
      at = next;
      WasChanged::from_changed(c)
    })
  })?;
  ensure!(
    at == want[want.len() - 1] && passes == want.len(),
    "table {:?} from {}: the change loop ends at {} after {} passes",
    f,
    start,
    at,
    passes
  );
  if want.len() >= 3 {
    ctx.nontrivial(&(&f, start));
  }
  Ok(())
}

fn only(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.below(5) as usize;
  let items: Vec<Option<u64>> = (0..n).map(|_| if src.chance(1, 4) { None } else { Some(src.below(3)) }).collect();
  ctx.show(|| format!("{:?}", items));
  let want = if n == 1 { Some(items[0]) } else { None };
  for way in 0..WAYS {
    let got = caught_panic("take_only", || take_only(shy(way, items.iter().copied())))?;
    ensure!(got == want, "the only item of {:?} (hint {}) is {:?}", items, way, got);
  }
  let got = caught_panic("take_only", || take_only(items.iter().copied()))?;
  ensure!(got == want, "the only item of {:?} is {:?}", items, got);
  let got = caught_panic("take_only", || take_only(items.clone().into_iter().filter(|x| x.is_some())))?;
  let some: Vec<_> = items.iter().filter(|x| x.is_some()).collect();
  ensure!(got.as_ref() == if some.len() == 1 { Some(some[0]) } else { None }, "the only item of {:?} is {:?}", some, got);
  // An endless sequence has no only item.
  let got = caught_panic("take_only", || {
    take_only(items.iter().copied().chain(std::iter::repeat_with(|| {
      tick();
      None
    })))
  })?;
  ensure!(got.is_none(), "the only item of an endless sequence is {:?}", got);
  if n > 0 {
    ctx.nontrivial(&items);
  }
  Ok(())
}

/// Far more rounds, passes, iterates and items than any other case has.
fn deep(i: u64, ctx: &mut Ctx) -> Res {
  let n = [1_100, 5_000, 70_000][i as usize / 2];
  let back = i % 2 == 1;
  let step = move |k: usize| if back { k.checked_sub(1) } else { Some(k + 1).filter(|k| *k < n) };
  let (first, last) = if back { (n - 1, 0) } else { (0, n - 1) };
  ctx.show(|| format!("a path of {} from {}", n, first));
  ctx.nontrivial(&i);
  let got = caught_panic("breadth_first_search", || breadth_first_search(Some(first), |k: &usize| step(*k)))?;
  ensure!(got.len() == n && got.iter().copied().eq(0..n), "{} of {} items of a path are reached", got.len(), n);
  let star = caught_panic("breadth_first_search", || {
    breadth_first_search(Some(first), |k: &usize| if *k == first { (0..n).collect() } else { vec![*k] })
  })?;
  ensure!(star.len() == n, "{} of {} items of a star are reached", star.len(), n);
  struct Path<F>(F);
  impl<F: Fn(usize) -> Option<usize>> FixedPointProcessor<usize, usize> for Path<F> {
    fn next(&self, k: &usize, v: &usize) -> Vec<(usize, usize)> {
      (self.0)(*k).map(|n| (n, v + 1)).into_iter().collect()
    }
    fn merge(&self, target: &mut usize, other: usize) -> WasChanged {
      let c = other > *target;
      *target = other.max(*target);
      WasChanged::from_changed(c)
    }
  }
  let mut got = BTreeMap::new();
  got.insert(first, 7);
  got.insert((n / 2) as usize, 0);
  caught_panic("apply_fixed_point", || apply_fixed_point(&Path(step), &mut got))?;
  let bad = got.iter().find(|(k, v)| **v != 7 + if back { n - 1 - **k } else { **k });
  ensure!(got.len() == n && bad.is_none(), "propagation along {} items: {} are there, and {:?}", n, got.len(), bad);
  let got = caught_panic("fixed_point", || fixed_point(first, |k| step(*k).unwrap_or(*k)))?;
  ensure!(got == last, "iterating along {} ends at {}", n, got);
  let mut passes = 0;
  caught_panic("change_loop", || {
    change_loop(|| {
      passes += 1;
      WasChanged::from_changed(passes < n)
    })
  })?;
  ensure!(passes == n, "a change loop makes {} passes instead of {}", passes, n);
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("search", 1_600_000, 12_800_000, |src: &mut Src, ctx: &mut Ctx| bfs(src, ctx, 9)),
    Suite::random("search-large", 15_000, 200_000, |src: &mut Src, ctx: &mut Ctx| bfs(src, ctx, 80)),
    Suite::random("keyed", 2_000_000, 16_000_000, |src: &mut Src, ctx: &mut Ctx| keyed(src, ctx, 8)),
    Suite::random("keyed-large", 50_000, 400_000, |src: &mut Src, ctx: &mut Ctx| keyed(src, ctx, 60)),
    Suite::random("distances", 1_000_000, 8_000_000, distances),
    Suite::random("iteration", 1_000_000, 8_000_000, plain),
    Suite::fixed("deep", 6, deep),
    Suite::random("only", 200_000, 1_600_000, only),
  ];
  main_with(
    "C22",
    "A case is a random graph with starting items (reachability compared with a squared relation, calls counted), a propagation problem over bit sets or distances (compared with the least solution by rounds over all entries), a step table (iterates compared), or a short sequence (its only item). Non-trivial: something but not everything is newly reached; several rounds are needed; three or more iterates; a non-empty sequence.",
    &["step functions and propagation problems are ones that reach a fixed point"],
    suites,
  )
}
