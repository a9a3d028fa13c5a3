//! C21: set-collecting maps hold exactly what was inserted and report change exactly.

use checks::shy::{shy, way};
use bongo::utils::{change_iter, change_loop, merge_value_pairs, CollectMap, WasChanged};
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use std::collections::{BTreeMap, BTreeSet};

type Model = BTreeMap<u16, BTreeSet<u16>>;

fn changed(c: WasChanged) -> bool {
  c == WasChanged::Changed
}

/// A key without values counts as absent.
fn same(real: &CollectMap<u16, u16>, model: &Model, keys: u16) -> Res {
  let empty = BTreeSet::new();
  for k in 0..keys {
    let got = real.get(&k).unwrap_or(&empty);
    let want = model.get(&k).unwrap_or(&empty);
    ensure!(got == want, "key {} holds {:?} instead of {:?}", k, got, want);
  }
  let got: Vec<(u16, &BTreeSet<u16>)> = real.iter().map(|(k, v)| (*k, v)).filter(|(_, v)| !v.is_empty()).collect();
  let want: Vec<(u16, &BTreeSet<u16>)> = model.iter().map(|(k, v)| (*k, v)).filter(|(_, v)| !v.is_empty()).collect();
  let mut sorted = got.clone();
  sorted.sort();
  ensure!(sorted == want, "iteration yields {:?} instead of {:?}", got, want);
  Ok(())
}

/// Owned iterators of various sorts, to be consumed at most once.
fn values(src: &mut Src, vals: u16, max: usize) -> Vec<u16> {
  let n = src.count(0, max);
  (0..n).map(|_| src.below(vals as u64) as u16).collect()
}

fn history(src: &mut Src, ctx: &mut Ctx, max_ops: usize, keys: u16, vals: u16) -> Res {
  let mut model = Model::new();
  let mut log = String::new();
  let mut real = match src.below(4) {
    0 => {
      for _ in 0..src.idx(4) {
        let k = src.below(keys as u64) as u16;
        let v: BTreeSet<u16> = values(src, vals, 4).into_iter().collect();
        model.insert(k, v);
      }
      log += &format!("from_seed({:?}); ", model);
      CollectMap::from_seed(model.clone())
    }
    1 => CollectMap::default(),
    _ => CollectMap::new(),
  };
  let (mut grew, mut not, mut copies, mut mixed) = (0, 0, 0, 0);
  let mut reports: Vec<bool> = Vec::new();
  let r = (|| -> Res {
    for _ in 0..src.count(1, max_ops) {
      let k = src.below(keys as u64) as u16;
      let before = model.get(&k).map_or(0, |s| s.len());
      let got = match src.weighted(&[4, 4, 4]) {
        0 => {
          let v = src.below(vals as u64) as u16;
          log += &format!("insert({}, {}); ", k, v);
          model.entry(k).or_default().insert(v);
          caught_panic("insert", || real.insert(k, v))?
        }
        1 => {
          let vs = values(src, vals, 6);
          let way = way(src);
          log += &format!("insert_iter({}, {:?} (hint {})); ", k, vs, way);
          let s = model.entry(k).or_default();
          let new = vs.iter().filter(|v| !s.contains(v)).count();
          mixed += (new > 0 && new < vs.len()) as u32;
          s.extend(vs.iter().copied());
          caught_panic("insert_iter", || match way {
            0 => real.insert_iter(k, vs),
            _ => real.insert_iter(k, shy(way, vs)),
          })?
        }
        _ => {
          let o = src.below(keys as u64) as u16;
          log += &format!("insert_from_key_set({}, {}); ", k, o);
          let from = model.get(&o).cloned().unwrap_or_default();
          copies += !from.is_empty() as u32;
          model.entry(k).or_default().extend(from);
          caught_panic("insert_from_key_set", || real.insert_from_key_set(k, o))?
        }
      };
      let want = model.get(&k).map_or(0, |s| s.len()) > before;
      ensure!(changed(got) == want, "{:?} is reported, the set of {} grew: {}", got, k, want);
      reports.push(changed(got));
      if want {
        grew += 1
      } else {
        not += 1
      }
      same(&real, &model, keys)?;
    }
    let inner = real.into_inner();
    same(&CollectMap::from_seed(inner), &model, keys)
  })();
  r.map_err(|m| format!("{}\nafter {}", m, log))?;
  ctx.show(|| log.clone());
  ctx.label_if(mixed > 0, "several values, some of them new");
  ctx.label_if(copies > 0, "a set copied");
  if grew > 0 && not > 0 {
    ctx.nontrivial(&log);
  }
  Ok(())
}

/// Sizes around powers of two.
fn size(src: &mut Src, top: usize) -> usize {
  let base = *src.pick(&[1usize, 8, 16, 64, 100, 128, 256, 256, 512, 1024, 65_536]);
  (base.min(top) + src.idx(3)).saturating_sub(1)
}

/// Large sets and many keys.
fn bulk(src: &mut Src, ctx: &mut Ctx, ops: usize, top: usize) -> Res {
  let mut model: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
  let mut real: CollectMap<u32, u32> = CollectMap::new();
  let mut log = String::new();
  let keys = size(src, top).max(1) as u32;
  let (mut grew, mut not) = (0, 0);
  let r = (|| -> Res {
    for _ in 0..ops {
      let few = src.flag();
      let pick = |src: &mut Src| if few { src.below(2) as u32 % keys } else { src.below(keys as u64) as u32 };
      let k = pick(src);
      match src.below(4) {
        0 => {
          let lo = *src.pick(&[0u32, 0, 0, 1, 256, 70_000]);
          let n = size(src, top) as u32;
          log += &format!("insert_iter({}, {}..{}); ", k, lo, lo + n);
          let set = model.entry(k).or_default();
          let before = set.len();
          set.extend(lo..lo + n);
          let want = set.len() > before;
          let down = src.flag();
          let way = way(src);
          let got = caught_panic("insert_iter", || {
            if down {
              real.insert_iter(k, (lo..lo + n).rev())
            } else if way > 0 {
              real.insert_iter(k, shy(way, lo..lo + n))
            } else {
              real.insert_iter(k, lo..lo + n)
            }
          })?;
          ensure!(changed(got) == want, "{:?} is reported, the set of {} grew: {}", got, k, want);
          if want {
            grew += 1
          } else {
            not += 1
          }
        }
        1 => {
          let o = pick(src);
          log += &format!("insert_from_key_set({}, {}); ", k, o);
          let from = model.get(&o).cloned().unwrap_or_default();
          let set = model.entry(k).or_default();
          let before = set.len();
          set.extend(from);
          let want = set.len() > before;
          let got = caught_panic("insert_from_key_set", || real.insert_from_key_set(k, o))?;
          ensure!(changed(got) == want, "{:?} is reported, the set of {} grew: {}", got, k, want);
          if want {
            grew += 1
          } else {
            not += 1
          }
        }
        2 => {
          let v = src.below(300) as u32;
          log += &format!("insert({}, {}); ", k, v);
          let want = model.entry(k).or_default().insert(v);
          let got = caught_panic("insert", || real.insert(k, v))?;
          ensure!(changed(got) == want, "{:?} is reported, the set of {} grew: {}", got, k, want);
        }
        _ => {
          let n = size(src, top).min(keys as usize) as u32;
          let v = src.below(3) as u32;
          log += &format!("insert({{0..{}}}, {}); ", n, v);
          for k in 0..n {
            let want = model.entry(k).or_default().insert(v);
            let got = caught_panic("insert", || real.insert(k, v))?;
            ensure!(changed(got) == want, "{:?} is reported, the set of {} grew: {}", got, k, want);
          }
        }
      }
    }
    let none = BTreeSet::new();
    for (k, want) in &model {
      let got = real.get(k).unwrap_or(&none);
      ensure!(got == want, "key {} holds {} values instead of {}", k, got.len(), want.len());
    }
    let full = |x: &(&u32, &BTreeSet<u32>)| !x.1.is_empty();
    ensure!(
      real.iter().filter(full).map(|x| *x.0).collect::<BTreeSet<_>>()
        == model.iter().filter(full).map(|x| *x.0).collect::<BTreeSet<_>>()
        && real.iter().filter(full).count() == model.iter().filter(full).count(),
      "iteration yields other keys"
    );
    ensure!(real.iter().all(|(k, v)| v.is_empty() || model.get(k) == Some(v)), "iteration yields other values");
    let inner = real.into_inner();
    ensure!(
      inner.iter().filter(full).eq(model.iter().filter(full)),
      "the map taken out holds something else"
    );
    Ok(())
  })();
  r.map_err(|m| format!("{}\nafter {}", m, log))?;
  ctx.show(|| log.clone());
  ctx.label_if(model.values().any(|s| s.len() >= 256), "256 or more values of a key");
  ctx.label_if(model.len() >= 256, "256 or more keys");
  if grew > 0 && not > 0 {
    ctx.nontrivial(&log);
  }
  Ok(())
}

/// Many reports, of which one or a few say changed; many pairs to group.
fn bulk_reports(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = size(src, 65_536) + 1;
  let some: BTreeSet<usize> = (0..src.idx(3)).map(|_| src.idx(n)).collect();
  ctx.show(|| format!("{} reports, changed: {:?}", n, some));
  let mut seen = 0;
  let mut order = true;
  let way = way(src);
  let got = caught_panic("change_iter", || {
    change_iter(shy(way, 0..n), |i| {
      order &= i == seen;
      seen += 1;
      WasChanged::from_changed(some.contains(&i))
    })
  })?;
  ensure!(order && seen == n, "change_iter visits {} of {} items", seen, n);
  ensure!(changed(got) == !some.is_empty(), "change_iter of {} with changes at {:?} reports {:?}", n, some, got);
  let mut calls = 0;
  caught_panic("change_loop", || {
    change_loop(|| {
      calls += 1;
      engine::tick();
      WasChanged::from_changed(calls < n)
    })
  })?;
  ensure!(calls == n, "change_loop runs {} passes instead of {}", calls, n);
  let keys = *src.pick(&[1usize, 2, 255, 256, 257, 1000]);
  let got = caught_panic("merge_value_pairs", || merge_value_pairs(shy(way, (0..n).map(|i| (i % keys, i / 2)))))?;
  let mut want: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
  for i in 0..n {
    want.entry(i % keys).or_default().insert(i / 2);
  }
  ensure!(got == want, "grouping {} pairs by {} keys is wrong", n, keys);
  if n > 100 && !some.is_empty() {
    ctx.nontrivial(&(n, some, keys));
  }
  Ok(())
}

fn reports(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.count(0, 12);
  let items: Vec<(u64, bool)> = (0..n).map(|_| (src.below(5), src.chance(1, 3))).collect();
  let report = |b: bool| if b { WasChanged::Changed } else { WasChanged::Unchanged };
  ctx.show(|| format!("{:?}", items));
  let any = items.iter().any(|i| i.1);
  // Iteration visits everything, in order, once.
  let mut seen = Vec::new();
  let way = way(src);
  let got = caught_panic("change_iter", || {
    change_iter(shy(way, items.iter()), |i| {
      seen.push(*i);
      report(i.1)
    })
  })?;
  ensure!(seen == items, "change_iter visits {:?} of {:?}", seen, items);
  ensure!(changed(got) == any, "change_iter of {:?} reports {:?}", items, got);
  // Joining and merging.
  let mut acc = WasChanged::Unchanged;
  let mut so_far = false;
  for (i, (_, b)) in items.iter().enumerate() {
    let r = WasChanged::from_changed(*b);
    ensure!(r == report(*b), "from_changed({}) is {:?}", b, r);
    let (x, y) = (acc.join(r), r.join(acc));
    so_far |= *b;
    ensure!(
      changed(x) == so_far && changed(y) == so_far,
      "joining {:?} and {:?} gives {:?} and {:?}",
      acc,
      r,
      x,
      y
    );
    let before = acc;
    acc.merge(r);
    ensure!(changed(acc) == so_far, "merging {:?} into {:?} gives {:?} (item {})", r, before, acc, i);
  }
  // The loop: the reports come one by one, then no change for ever.
  let mut calls = 0;
  let queue: Vec<bool> = items.iter().map(|i| i.1).collect();
  caught_panic("change_loop", || {
    change_loop(|| {
      calls += 1;
      engine::tick();
      report(queue.get(calls - 1).copied().unwrap_or(false))
    })
  })?;
  let want = queue.iter().position(|b| !b).unwrap_or(queue.len()) + 1;
  ensure!(calls == want, "change_loop with reports {:?} runs {} passes instead of {}", queue, calls, want);
  if any && items.iter().any(|i| !i.1) {
    ctx.nontrivial(&items);
  }
  Ok(())
}

fn pairs(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.count(0, 20);
  let keys = src.range(1, 6);
  let vals = src.range(1, 6);
  let ps: Vec<(String, u64)> = (0..n).map(|_| (format!("k{}", src.below(keys)), src.below(vals))).collect();
  ctx.show(|| format!("{:?}", ps));
  let mut want: BTreeMap<String, BTreeSet<u64>> = BTreeMap::new();
  for k in 0..keys {
    let key = format!("k{}", k);
    let vs: BTreeSet<u64> = ps.iter().filter(|p| p.0 == key).map(|p| p.1).collect();
    if !vs.is_empty() {
      want.insert(key, vs);
    }
  }
  let way = way(src);
  let got = caught_panic("merge_value_pairs", || merge_value_pairs(ps.clone()))?;
  ensure!(got == want, "grouping {:?} gives {:?}", ps, got);
  let got = caught_panic("merge_value_pairs", || merge_value_pairs(shy(way, ps.iter().cloned())))?;
  ensure!(got == want, "grouping {:?} (hint {}) gives {:?}", ps, way, got);
  if want.values().any(|v| v.len() > 1) && want.len() > 1 {
    ctx.nontrivial(&ps);
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("small", 2_400_000, 19_200_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 10, 3, 4)),
    Suite::random("long", 150_000, 1_200_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 80, 8, 12)),
    Suite::random("bulk", 6_000, 60_000, |src: &mut Src, ctx: &mut Ctx| bulk(src, ctx, 10, 1_024)),
    Suite::random("huge", 400, 2_000, |src: &mut Src, ctx: &mut Ctx| bulk(src, ctx, 8, 65_536)),
    Suite::random("bulk-reports", 1_000, 4_000, bulk_reports),
    Suite::random("reports", 2_000_000, 16_000_000, reports),
    Suite::random("pairs", 1_600_000, 12_800_000, pairs),
  ];
  main_with(
    "C21",
    "A case is a sequence of insertions into a set-collecting map mirrored on a map of sets (all sets, iteration and every change report compared after every operation), a list of change reports given to joining, merging, iterating and looping, or a list of pairs to group. Non-trivial: some insertions change something and some do not; reports of both sorts; several keys and several values of one key.",
    &["a key whose set is empty counts as absent"],
    suites,
  )
}
