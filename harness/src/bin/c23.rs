//! C23: dotted productions and their sets behave as (production, position) pairs.

use bongo::grammar::{Elem, Prod, ProdElement};
use bongo::state::{ProdState, ProdStateSet};
use checks::{built, elem_of, prod_elem_of, A, K, N, T};
use checks::short;
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{Gram, Sym};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};

type P<'a> = Prod<'a, T, N, K, A>;
type S<'a> = ProdState<'a, T, N, K, A>;
type Set<'a> = ProdStateSet<'a, T, N, K, A>;
/// Number of the production, position.
type Item = (usize, usize);

/// Checks one dotted production against its model through every method.
fn same(s: &S, it: Item, ps: &[P], ms: &[(u16, &model::Prod)]) -> Res {
  let (h, m) = ms[it.0];
  let what = || format!("position {} of production {} of <{}>", it.1, m.key, h);
  let n = m.elems.len();
  ensure!(s.prod() == ps[it.0], "{}: prod() is another one", what());
  ensure!(s.action_key() == &K(m.key), "{}: action key {:?}", what(), s.action_key());
  ensure!(s.is_complete() == (it.1 == n), "{}: is_complete() is {}", what(), s.is_complete());
  let want = |i: usize| -> Option<ProdElement<T, N>> { m.elems.get(it.1.checked_add(i)?).map(prod_elem_of) };
  // Of very many, those around powers of two and the ends. Far outside, too.
  let far = [256, 1 << 16, 1 << 32, usize::MAX - it.1, usize::MAX];
  let offsets: Vec<usize> = if n < 1500 {
    (0..n + 3).collect()
  } else {
    let around = |k: usize| k.saturating_sub(2)..k + 3;
    let powers = (8..17).map(|k| 1usize << k).chain([n, n - it.1]).flat_map(around);
    (0..3).chain(powers).collect()
  };
  for i in offsets.into_iter().chain(far) {
    let w = want(i);
    let (a, b) = caught_panic("offset_elem", || (s.offset_prod_elem(i), s.offset_elem(i)))?;
    ensure!(
      a == w.as_ref() && b == w.as_ref().map(|e| e.elem()),
      "{}: the element {} further on is {:?} / {:?} instead of {:?}",
      what(),
      i,
      a,
      b,
      w
    );
  }
  let w = want(0);
  ensure!(s.next_prod_elem() == w.as_ref(), "{}: next_prod_elem() is {:?}", what(), s.next_prod_elem());
  ensure!(
    s.next_elem() == w.as_ref().map(|e| e.elem()),
    "{}: next_elem() is {:?}",
    what(),
    s.next_elem()
  );
  Ok(())
}

/// Which of the grammar's dotted productions this is.
fn locate(s: &S, pool: &BTreeMap<Item, S>, ids: &HashMap<(u16, u16), (usize, usize)>) -> Option<Item> {
  let (number, len) = *ids.get(&(s.prod().head().0, s.action_key().0))?;
  // How many elements are left.
  let (mut lo, mut hi) = (0, len + 1);
  while lo < hi {
    let mid = (lo + hi) / 2;
    if s.offset_elem(mid).is_some() {
      lo = mid + 1;
    } else {
      hi = mid;
    }
  }
  let it = (number, len.checked_sub(lo)?);
  Some(it).filter(|it| pool.get(it) == Some(s))
}

/// The members, as shown to the function given to take_closure.
fn members<'a>(
  set: &Set<'a>,
  pool: &BTreeMap<Item, S<'a>>,
  ids: &HashMap<(u16, u16), (usize, usize)>,
) -> Result<BTreeSet<Item>, String> {
  let mut got = Vec::new();
  let mut copy = set.clone();
  copy.take_closure(|s| {
    got.push(s.clone());
    std::iter::empty()
  });
  let mut items = BTreeSet::new();
  for g in got {
    let it = locate(&g, pool, ids)
      .ok_or_else(|| format!("a set contains {:?}, which is none of the grammar's", g))?;
    items.insert(it);
  }
  Ok(items)
}

fn total_order<X: Ord>(xs: &[X], what: &str, same: impl Fn(usize, usize) -> bool) -> Res {
  let mut order: Vec<usize> = (0..xs.len()).collect();
  order.sort_by(|a, b| xs[*a].cmp(&xs[*b]));
  let mut rank = vec![0; xs.len()];
  for k in 1..order.len() {
    rank[order[k]] = rank[order[k - 1]] + !same(order[k - 1], order[k]) as usize;
  }
  for a in 0..xs.len() {
    for b in 0..xs.len() {
      let c = xs[a].cmp(&xs[b]);
      ensure!(
        c == rank[a].cmp(&rank[b]) && (c == Ordering::Equal) == same(a, b),
        "{} {} and {} compare {:?}, sorted they are {} and {}, the same: {}",
        what,
        a,
        b,
        c,
        rank[a],
        rank[b],
        same(a, b)
      );
      ensure!(xs[a].partial_cmp(&xs[b]) == Some(c), "{} {} and {}: partial_cmp differs from cmp", what, a, b);
      ensure!((xs[a] == xs[b]) == same(a, b), "{} {} and {}: equal is {}", what, a, b, xs[a] == xs[b]);
      ensure!((xs[a] < xs[b]) == (c == Ordering::Less), "{} {} and {}: < differs from cmp", what, a, b);
    }
  }
  Ok(())
}

fn check(src: &mut Src, ctx: &mut Ctx, g: &Gram) -> Res {
  let b = built(g)?;
  let ms: Vec<(u16, &model::Prod)> = g.prods().collect();
  let by_key: HashMap<(u16, u16), P> =
    (0..g.n() as u16).flat_map(|h| b.get_rule(&N(h)).prods().map(move |p| ((h, p.action_key().0), p))).collect();
  let ps: Vec<P> = ms
    .iter()
    .map(|(h, m)| {
      by_key
        .get(&(*h, m.key))
        .copied()
        .ok_or_else(|| format!("production {} of <{}> is not there", m.key, h))
    })
    .collect::<Result<_, _>>()?;
  let ids: HashMap<(u16, u16), (usize, usize)> =
    ms.iter().enumerate().map(|(i, (h, m))| ((*h, m.key), (i, m.elems.len()))).collect();
  // All dotted productions, each reached by steps of either sort.
  let mut pool: BTreeMap<Item, S> = BTreeMap::new();
  let mut all: Vec<(Item, S)> = Vec::new();
  for (k, p) in ps.iter().enumerate() {
    let (_, m) = ms[k];
    for _ in 0..2 {
      let mut s = ProdState::from_start(*p);
      for pos in 0..=m.elems.len() {
        same(&s, (k, pos), &ps, &ms)?;
        let copy = if src.flag() { s.clone() } else { s };
        all.push(((k, pos), copy.clone()));
        pool.insert((k, pos), copy.clone());
        s = copy;
        let next = caught_panic("next_elem_state", || s.next_elem_state())?;
        // Conditional steps, by every symbol.
        let nts = if g.n() > 1500 { g.n() as u16 - 9 } else { 0 }..g.n() as u16;
        let here = m.elems.get(pos).map(|e| e.sym);
        for sym in (0..g.terms).map(Sym::T).chain(nts.map(Sym::N)).chain(here) {
          let there = m.elems.get(pos).map(|e| e.sym) == Some(sym);
          let e: Elem<T, N> = elem_of(sym);
          let got = caught_panic("advance_if", || s.advance_if(&e))?;
          match (got, there) {
            (None, false) => {}
            (Some(t), true) => same(&t, (k, pos + 1), &ps, &ms)?,
            (g, _) => {
              return Err(format!(
                "at position {} of production {} of <{}>, advancing over {:?} gives {:?}",
                pos, m.key, ms[k].0, e, g
              ))
            }
          }
        }
        match next {
          None => {
            ensure!(pos == m.elems.len(), "no step from position {} of production {:?}", pos, m);
            break;
          }
          Some((e, t)) => {
            ensure!(pos < m.elems.len(), "a step from the end of production {:?} over {:?}", m, e);
            let want = prod_elem_of(&m.elems[pos]);
            ensure!(*e == want, "the step from position {} of {:?} is over {:?}", pos, m, e);
            s = if src.flag() { t } else { s.advance_if(want.elem()).unwrap_or(t) };
          }
        }
      }
    }
  }
  // As pairs.
  let mut some: Vec<(Item, S)> = all.clone();
  while some.len() > 24 {
    some.swap_remove(src.idx(some.len()));
  }
  let items: Vec<Item> = some.iter().map(|x| x.0).collect();
  let states: Vec<S> = some.iter().map(|x| x.1.clone()).collect();
  total_order(&states, "dotted productions", |a, b| items[a] == items[b]).map_err(|m| format!("{}\nof {:?}", m, items))?;

  // Sets.
  let chain: Option<(Vec<Item>, HashMap<Item, usize>)> = if src.chance(1, 4) {
    // One after the other.
    let keys: Vec<Item> = pool.keys().copied().collect();
    let c: Vec<Item> = src.permutation(keys.len()).into_iter().map(|i| keys[i]).collect();
    let at = c.iter().enumerate().map(|(i, it)| (*it, i)).collect();
    Some((c, at))
  } else {
    None
  };
  let step: BTreeMap<Item, Vec<Item>> = pool
    .keys()
    .map(|it| {
      if let Some((c, at)) = &chain {
        return (*it, c.get(at[it] + 1).copied().into_iter().collect());
      }
      let k = src.weighted(&[3, 3, 1]);
      (*it, (0..k).map(|_| all[src.idx(all.len())].0).collect())
    })
    .collect();
  let mut sets: Vec<(Set, BTreeSet<Item>)> = Vec::new();
  let mut several = false;
  for _ in 0..src.urange(1, 4) {
    let picked: Vec<usize> = match src.below(if pool.len() > 60 { 6 } else { 3 }) {
      0..=2 => (0..src.count(0, 8)).map(|_| src.idx(all.len())).collect(),
      3 => (0..src.count(0, 100)).map(|_| src.idx(all.len())).collect(),
      // All but a few.
      4 => {
        let from = src.idx(all.len());
        (from..all.len()).collect()
      }
      _ => {
        let gap = src.urange(2, 40);
        (0..all.len()).filter(|i| i % gap > 0).collect()
      }
    };
    let model: BTreeSet<Item> = picked.iter().map(|i| all[*i].0).collect();
    let mut set: Set = if src.flag() {
      let way = checks::shy::way(src);
      checks::shy::shy(way, picked.iter().map(|i| all[*i].1.clone())).collect()
    } else {
      let mut s = ProdStateSet::new_empty();
      for i in &picked {
        s.add(all[*i].1.clone());
      }
      s
    };
    let got = members(&set, &pool, &ids)?;
    ensure!(got == model, "a set of {:?} contains {:?}", model, got);
    // Complete members.
    let mut done = BTreeSet::new();
    for s in set.complete() {
      let it = locate(&s, &pool, &ids);
      ensure!(it.map_or(false, |it| done.insert(it)), "a set of {:?} reports {:?} ({:?}) as complete", model, it, s);
    }
    let want: BTreeSet<Item> = model.iter().copied().filter(|it| it.1 == ms[it.0].1.elems.len()).collect();
    ensure!(done == want, "a set of {:?} reports {:?} as complete instead of {:?}", model, done, want);
    // Successors.
    let mut groups: BTreeMap<(Option<String>, Sym), BTreeSet<Item>> = BTreeMap::new();
    for it in &model {
      if let Some(e) = ms[it.0].1.elems.get(it.1) {
        groups.entry((e.name.clone(), e.sym)).or_default().insert((it.0, it.1 + 1));
      }
    }
    several |= groups.values().any(|s| s.len() > 1);
    let mut got = BTreeMap::new();
    for (e, s) in caught_panic("nexts", || set.nexts().collect::<Vec<_>>())? {
      let sym = match e.elem() {
        Elem::Term(t) => Sym::T(t.0),
        Elem::NonTerm(n) => Sym::N(n.0),
      };
      let key = (e.id().map(|n| n.str().to_string()), sym);
      let m = members(&s, &pool, &ids)?;
      ensure!(
        got.insert(key.clone(), m).is_none(),
        "the successors of {:?} have two groups for {:?}",
        model,
        key
      );
    }
    ensure!(got == groups, "the successors of {:?} are {:?} instead of {:?}", model, got, groups);
    // Closure under the step function.
    let mut closed = model.clone();
    let mut todo: Vec<Item> = model.iter().copied().collect();
    while let Some(i) = todo.pop() {
      for j in &step[&i] {
        if closed.insert(*j) {
          todo.push(*j);
        }
      }
    }
    if src.flag() {
      let (pool, ids) = (&pool, &ids);
      let step = &step;
      caught_panic("take_closure", || {
        set.take_closure(|s| {
          engine::tick();
          let it = locate(s, pool, ids).expect("a member of the pool");
          checks::shy::shy((it.0 + it.1) as u8, step[&it].iter().map(move |i| pool[i].clone()))
        })
      })?;
      let got = members(&set, pool, ids)?;
      ensure!(got == closed, "the closure of {:?} under {:?} is {:?} instead of {:?}", model, step, got, closed);
      sets.push((set, closed));
    } else {
      let copy = set.clone();
      sets.push((set, model.clone()));
      sets.push((copy, model));
    }
  }
  let models: Vec<BTreeSet<Item>> = sets.iter().map(|s| s.1.clone()).collect();
  let reals: Vec<Set> = sets.into_iter().map(|s| s.0).collect();
  total_order(&reals, "sets", |a, b| models[a] == models[b]).map_err(|m| format!("{}\nof {:?}", m, models))?;
  ctx.label_if(several, "several successors over one element");
  if several && models.iter().any(|m| m.len() > 1) {
    ctx.nontrivial(&(g, &models));
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("random", 600_000, 8_000_000, |src: &mut Src, ctx: &mut Ctx| {
      let names = *src.pick(&[Names::None, Names::Distinct]);
      let (mut g, label) = gen::grammar(src, names);
      ctx.label(label);
      if src.chance(1, 3) {
        checks::whole::rename(src, &mut g);
      }
      ctx.show(|| format!("{:?}", g));
      check(src, ctx, &g).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("extreme", 4_000, 40_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::extreme(src, Names::Distinct, 300);
      ctx.label(label);
      ctx.show(|| format!("{:?}", g));
      check(src, ctx, &g).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("wide", 600, 6_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::extreme(src, Names::Distinct, 1_100);
      ctx.label(label);
      ctx.show(|| format!("{:?}", g));
      check(src, ctx, &g).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("huge", 60, 1_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::huge(src, Names::Distinct, 66_000);
      ctx.label(label);
      ctx.show(|| format!("{}, {} rules, {} productions", label, g.n(), g.prods().count()));
      check(src, ctx, &g).map_err(short)
    })
    .fuel(4_000_000_000, 4_000_000_000),
    Suite::random("repetitive", 450_000, 4_000_000, |src: &mut Src, ctx: &mut Ctx| {
      // Productions that differ in nothing but position or identity.
      let n = src.urange(1, 2);
      let prods = src.urange(1, 3);
      let len = src.urange(0, 5) as usize;
      let rules: Vec<Vec<model::Prod>> = (0..n)
        .map(|_| {
          (0..prods)
            .map(|k| model::Prod {
              key: k as u16,
              val: 0,
              elems: (0..len)
                .map(|_| model::Elem {
                  name: if src.chance(1, 4) { Some("x".to_string()) } else { None },
                  sym: if src.chance(1, 6) { Sym::N(src.idx(n) as u16) } else { Sym::T(0) },
                })
                .collect(),
            })
            .collect()
        })
        .collect();
      let mut g = Gram { start: 0, terms: 1, rules, decl: vec![0] };
      if n == 2 {
        // Keep the second nonterminal reachable.
        g.rules[0][0].elems.push(model::Elem { name: None, sym: Sym::N(1) });
        g.decl = vec![1, 0];
      }
      ctx.show(|| format!("{:?}", g));
      check(src, ctx, &g).map_err(|m| format!("{:?}\n{}", g, m))
    }),
  ];
  main_with(
    "C23",
    "A case is a grammar (half of them with productions that are copies of each other); all its dotted productions are reached by unconditional and conditional steps and compared with (production, position) pairs through every method, and random sets of them with sets of pairs: members, complete members, successor groups, closure under a random step function, comparison. Non-trivial: a set has several successors over one element.",
    &["set members are observed through the step function of take_closure on a copy of the set"],
    suites,
  )
}
