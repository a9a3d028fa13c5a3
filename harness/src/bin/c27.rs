//! C27: LR(1) item sets are exact.

use engine::main_with;

#[cfg(any(bongo_verif, bongo_verif_lalr))]
mod run {
  use bongo::grammar::passes::PassContext;
  use bongo::grammar::Prod;
  use bongo::parsers::lalr::verif::ItemSet;
  use bongo::state::ProdState;
  use checks::{built, A, K, N, T};
  use engine::{caught_panic, ensure, Ctx, Res, Src};
  use model::gen::{self, Names};
  use model::{analyse, Gram, Sym};
  use std::collections::{BTreeMap, BTreeSet};

  type P<'a> = Prod<'a, T, N, K, A>;
  type S<'a> = ProdState<'a, T, N, K, A>;
  type Real<'a> = ItemSet<'a, T, N, K, A>;
  /// Number of the production and position, with lookaheads.
  type Items = BTreeMap<(usize, usize), BTreeSet<u16>>;

  struct Model<'a> {
    prods: Vec<(u16, &'a model::Prod)>,
    null: Vec<bool>,
    firsts: Vec<BTreeSet<u16>>,
    /// Productions of each nonterminal.
    of: Vec<Vec<usize>>,
  }

  impl<'a> Model<'a> {
    fn new(g: &'a Gram) -> Self {
      let mut of = vec![Vec::new(); g.n()];
      for (q, (h, _)) in g.prods().enumerate() {
        of[h as usize].push(q);
      }
      Model { prods: g.prods().collect(), null: analyse::nullable(g), firsts: analyse::firsts(g), of }
    }

    /// Terminals that can come first in what is left of production `p` from
    /// `pos` on, followed by `la`.
    fn first_of(&self, p: usize, pos: usize, la: u16) -> BTreeSet<u16> {
      let mut out = BTreeSet::new();
      for s in self.prods[p].1.syms().skip(pos) {
        match s {
          Sym::T(t) => {
            out.insert(t);
            return out;
          }
          Sym::N(n) => {
            out.extend(&self.firsts[n as usize]);
            if !self.null[n as usize] {
              return out;
            }
          }
        }
      }
      out.insert(la);
      out
    }

    /// The closure, item by item and lookahead by lookahead.
    fn close(&self, kernel: &Items) -> Items {
      let mut todo: Vec<(usize, usize, u16)> =
        kernel.iter().flat_map(|((p, i), las)| las.iter().map(move |la| (*p, *i, *la))).collect();
      let mut seen: BTreeSet<(usize, usize, u16)> = todo.iter().copied().collect();
      while let Some((p, i, la)) = todo.pop() {
        if let Some(Sym::N(n)) = self.prods[p].1.elems.get(i).map(|e| e.sym) {
          for b in self.first_of(p, i + 1, la) {
            for q in self.of[n as usize].iter().copied() {
              if seen.insert((q, 0, b)) {
                todo.push((q, 0, b));
              }
            }
          }
        }
      }
      let mut out = Items::new();
      for (p, i, la) in seen {
        out.entry((p, i)).or_default().insert(la);
      }
      out
    }
  }

  fn show(m: &Model, items: &Items) -> String {
    items
      .iter()
      .map(|((p, i), las)| {
        let (h, prod) = m.prods[*p];
        let mut s = format!("[<{}> =>", h);
        for (k, e) in prod.elems.iter().enumerate() {
          if k == *i {
            s += " .";
          }
          s += " ";
          s += &model::sym_str(e.sym);
        }
        if *i == prod.elems.len() {
          s += " .";
        }
        s += &format!("  {:?}]", las);
        s
      })
      .collect::<Vec<_>>()
      .join(" ")
  }

  fn read(r: &Real, m: &Model, ps: &[P]) -> Result<Items, String> {
    let mut out = Items::new();
    for (s, las) in r.items() {
      let p = m
        .of
        .get(s.prod().head().0 as usize)
        .and_then(|of| of.iter().copied().find(|p| ps[*p] == s.prod()))
        .ok_or_else(|| format!("an item of {:?}, which is not of the grammar", s.prod()))?;
      // The position: how many steps are left.
      let (mut left, mut at) = (0, s.clone());
      while let Some((_, next)) = at.next_elem_state() {
        left += 1;
        at = next;
      }
      let i = m.prods[p].1.elems.len() - left;
      // Items without lookahead are no items.
      if !las.is_empty() {
        ensure!(
          out.insert((p, i), las.iter().map(|t| t.0).collect()).is_none(),
          "the item at {} of production {} is there twice",
          i,
          p
        );
      }
    }
    Ok(out)
  }

  fn state<'a>(ps: &[P<'a>], it: (usize, usize)) -> S<'a> {
    let mut s = ProdState::from_start(ps[it.0]);
    for _ in 0..it.1 {
      s = s.next_elem_state().expect("a step").1;
    }
    s
  }

  fn make<'a>(passes: &PassContext<'a, T, N, K, A>, ps: &[P<'a>], kernel: &Items) -> Result<Real<'a>, String> {
    let items: Vec<(S, BTreeSet<T>)> =
      kernel.iter().map(|(it, las)| (state(ps, *it), las.iter().map(|t| T(*t)).collect())).collect();
    caught_panic("building an item set", || ItemSet::from_kernel(passes, items))?
      .map_err(|e| format!("no item set is built: {:?}", e))
  }

  fn compare(real: &Real, want: &Items, m: &Model, ps: &[P]) -> Res {
    let got = read(real, m, ps)?;
    ensure!(got == *want, "the item set is\n{}\ninstead of\n{}", show(m, &got), show(m, want));
    let keys: BTreeSet<u16> = real.reducible().into_iter().map(|k| k.0).collect();
    let done: BTreeSet<u16> = want
      .keys()
      .filter(|(p, i)| *i == m.prods[*p].1.elems.len())
      .map(|(p, _)| m.prods[*p].1.key)
      .collect();
    ensure!(keys == done, "{}: reducible are {:?} instead of {:?}", show(m, want), keys, done);
    Ok(())
  }

  pub fn check(g: &Gram, kernels: &[Items], max_sets: usize, ctx: &mut Ctx) -> Res {
    let m = Model::new(g);
    let b = built(g)?;
    let ps: Vec<P> = m
      .prods
      .iter()
      .map(|(h, p)| b.get_rule(&N(*h)).prods().find(|q| q.action_key().0 == p.key).expect("the production"))
      .collect();
    let passes = PassContext::new(&b);
    let mut looked_through = false;
    let (mut shifted, mut merged) = (0, false);
    let mut all: Vec<(Real, Items)> = Vec::new();
    for kernel in kernels {
      let want = m.close(kernel);
      let real = make(&passes, &ps, kernel)?;
      let mut todo = vec![(real, want)];
      let mut done: Vec<Items> = Vec::new();
      while let Some((real, want)) = todo.pop() {
        compare(&real, &want, &m, &ps)?;
        for (r, w) in &all {
          ensure!(
            r.same_as(&real) == (*w == want) && real.same_as(r) == (*w == want),
            "{} and {}: the same is {} / {}",
            show(&m, w),
            show(&m, &want),
            r.same_as(&real),
            real.same_as(r)
          );
        }
        if all.len() < 8 {
          all.push((real.clone(), want.clone()));
        }
        for ((p, i), _) in &want {
          if let Some(Sym::N(_)) = m.prods[*p].1.elems.get(*i).map(|e| e.sym) {
            if let Some(Sym::N(n)) = m.prods[*p].1.elems.get(*i + 1).map(|e| e.sym) {
              looked_through |= m.null[n as usize];
            }
          }
        }
        if done.contains(&want) || done.len() >= max_sets {
          continue;
        }
        // Shifts.
        let mut moves: BTreeMap<u16, Items> = BTreeMap::new();
        for ((p, i), las) in &want {
          if let Some(Sym::T(t)) = m.prods[*p].1.elems.get(*i).map(|e| e.sym) {
            moves.entry(t).or_default().insert((*p, *i + 1), las.clone());
          }
        }
        merged |= moves.values().any(|k| k.len() > 1);
        let got = caught_panic("shifting", || real.shifts(&passes))?.map_err(|e| format!("no shifts: {:?}", e))?;
        let terms: Vec<u16> = got.iter().map(|x| x.0 .0).collect();
        let wanted: Vec<u16> = moves.keys().copied().collect();
        ensure!(
          terms == wanted,
          "{}: shifts are offered over {:?} instead of {:?}",
          show(&m, &want),
          terms,
          wanted
        );
        for (t, next) in got {
          let kernel = &moves[&t.0];
          let closed = m.close(kernel);
          compare(&next, &closed, &m, &ps).map_err(|e| format!("after shifting {:?} in {}: {}", t, show(&m, &want), e))?;
          let direct = make(&passes, &ps, kernel)?;
          ensure!(
            direct.same_as(&next) && next.same_as(&direct.clone()),
            "shifting {:?} in {} gives another set than building it",
            t,
            show(&m, &want)
          );
          shifted += 1;
          todo.push((next, closed));
        }
        done.push(want);
      }
    }
    ctx.label_if(looked_through, "a nullable element behind a nonterminal");
    ctx.label_if(shifted > 0, "shifts");
    ctx.label_if(merged, "several items shifted together");
    if looked_through || merged {
      ctx.nontrivial(&(g, kernels));
    }
    Ok(())
  }

  pub fn kernels(src: &mut Src, g: &Gram) -> Vec<Items> {
    let prods: Vec<(u16, &model::Prod)> = g.prods().collect();
    let n = src.urange(1, 3);
    let mut ks = (0..n)
      .map(|_| {
        let mut k = Items::new();
        for _ in 0..src.count(0, 4) {
          let p = src.idx(prods.len());
          let i = if src.flag() { 0 } else { src.idx(prods[p].1.elems.len() + 1) };
          // Also terminals that are not in the grammar.
          let las = (0..src.count(1, 3)).map(|_| src.below(g.terms as u64 + 2) as u16).collect();
          k.insert((p, i), las);
        }
        k
      })
      .collect::<Vec<_>>();
    if !ks[0].is_empty() && src.flag() {
      // the first one again with another lookahead, or without an item
      let mut k = ks[0].clone();
      let at = k.keys().copied().nth(src.idx(k.len()));
      match at {
        Some(it) if k.len() > 1 && src.flag() => {
          k.remove(&it);
        }
        Some(it) => {
          k.get_mut(&it).expect("there").insert(g.terms + 2);
        }
        None => {}
      }
      ks.push(k);
    }
    ks
  }

  pub fn start_kernel(g: &Gram) -> Vec<Items> {
    let mut k = Items::new();
    for (i, (h, _)) in g.prods().enumerate() {
      if h == g.start {
        k.insert((i, 0), Some(g.terms).into_iter().collect());
      }
    }
    vec![k]
  }

  /// One large dimension.
  pub fn extreme(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (g, label) = gen::extreme(src, Names::Distinct, 100);
    ctx.label(label);
    if analyse::empty_derivations(&g).iter().any(|c| *c > 1) {
      ctx.label("skipped: empty-derivation ambiguity");
      return Ok(());
    }
    let ks = if src.flag() { start_kernel(&g) } else { kernels(src, &g) };
    ctx.show(|| format!("{:?}\nkernels (production, position): lookaheads {:?}", g, ks));
    check(&g, &ks, 3, ctx).map_err(|m| format!("{:?}\nkernels {:?}\n{}", g, ks, m))
  }

  /// Many productions that start alike, and many lookaheads.
  pub fn fans(src: &mut Src, ctx: &mut Ctx) -> Res {
    let elem = |sym| model::Elem { name: None, sym };
    let n = gen::sized(src, 300);
    let starts = src.urange(1, 3) as u16;
    let mut own: Vec<model::Prod> = (0..n)
      .map(|k| {
        let mut elems = vec![elem(Sym::T(src.below(starts as u64) as u16))];
        for _ in 0..src.idx(3) {
          elems.push(elem(if src.chance(1, 4) { Sym::N(1) } else { Sym::T(3 + src.below(3) as u16) }));
        }
        model::Prod { key: k as u16, val: 0, elems }
      })
      .collect();
    let plain = |key: u16, elems: Vec<model::Elem>| model::Prod { key, val: 0, elems };
    own.push(plain(n as u16, vec![elem(Sym::N(1)), elem(Sym::T(0))]));
    let mut rules = vec![own, vec![plain(0, vec![]), plain(1, vec![elem(Sym::T(3)), elem(Sym::N(1))])]];
    let mut start = 0;
    if src.flag() {
      // Below another one, itself followed by what may vanish.
      rules.push(vec![plain(0, vec![elem(Sym::N(0)), elem(Sym::N(1))])]);
      start = 2;
    }
    let g = Gram { start, terms: 6, rules, decl: vec![] };
    let g = gen::decorate(src, g, Names::Distinct);
    let mut ks = start_kernel(&g);
    if src.flag() {
      let many = gen::sized(src, 300) as u16;
      for las in ks[0].values_mut() {
        *las = (0..many).collect();
      }
    }
    ctx.show(|| format!("{:?}\nkernels (production, position): lookaheads {:?}", g, ks));
    check(&g, &ks, 2, ctx).map_err(|m| format!("{:?}\nkernels {:?}\n{}", g, ks, m))
  }

  pub fn random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let g = if src.chance(1, 3) {
      let (g, label) = gen::grammar(src, Names::Distinct);
      ctx.label(label);
      if analyse::empty_derivations(&g).iter().any(|c| *c > 1) {
        ctx.label("skipped: empty-derivation ambiguity");
        return Ok(());
      }
      g
    } else {
      gen::null_unambiguous(src, Names::Distinct)
    };
    let mut ks = kernels(src, &g);
    ks.extend(start_kernel(&g));
    ctx.show(|| format!("{:?}\nkernels (production, position): lookaheads {:?}", g, ks));
    check(&g, &ks, 6, ctx).map_err(|m| format!("{:?}\nkernels {:?}\n{}", g, ks, m))
  }
}

fn main() {
  #[allow(unused_mut)]
  let mut suites = Vec::new();
  #[cfg(any(bongo_verif, bongo_verif_lalr))]
  {
    use engine::{Ctx, Src, Suite};
    use model::{analyse, gen};
    for (name, n, prods, len, quick) in vec![("small-2nt", 2, 2, 2, 1), ("small-3nt", 3, 1, 3, 4)] {
      suites.push(Suite::enumerated(name, quick, 1, move |src: &mut Src, ctx: &mut Ctx| {
        let g = match gen::enumerate_small(src, n, 1, prods, len) {
          Some(g) if !src.dry() => g,
          _ => return Ok(()),
        };
        if analyse::empty_derivations(&g).iter().any(|c| *c > 1) {
          return Ok(());
        }
        let ks = run::start_kernel(&g);
        run::check(&g, &ks, 6, ctx).map_err(|m| format!("{:?}\nstart kernel: {}", g, m))
      }));
    }
    suites.push(Suite::random("random", 300_000, 8_000_000, run::random));
    suites.push(Suite::random("extreme", 20_000, 200_000, run::extreme));
    suites.push(Suite::random("fans", 6_000, 60_000, run::fans));
  }
  main_with(
    "C27",
    "A case is a grammar without empty-derivation ambiguity and kernels: that of the start symbol's productions and random ones; the item set, the reducible actions and the shifts (followed through up to six sets) are compared with a closure computed lookahead by lookahead. Non-trivial: a nullable element stands behind a nonterminal after the dot, or a shift takes several items along.",
    &["kernels have no item twice and no item without lookahead; items without lookahead in a result count as absent", "the item set type is private and read through hooks"],
    suites,
  )
}
