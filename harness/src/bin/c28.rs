//! C28: rules and productions compare by identity within their grammar.

use bongo::grammar::{Grammar, Prod, Rule};
use checks::order::total_order;
use checks::whole::{self, make, Types};
use checks::short;
use engine::{catch_expected, caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::Gram;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

/// (head, index in the rule), as obtained in many ways.
type Prods<'a, T, NT, AK, AV> = Vec<((u16, usize), Prod<'a, T, NT, AK, AV>)>;
type Rules<'a, T, NT, AK, AV> = Vec<(u16, Rule<'a, T, NT, AK, AV>)>;

fn collect<'a, T, NT, AK, AV>(
  b: &'a Grammar<T, NT, AK, AV>,
  g: &Gram,
  ty: &Types<T, NT, AK, AV>,
) -> Result<(Rules<'a, T, NT, AK, AV>, Prods<'a, T, NT, AK, AV>), String>
where
  T: Clone,
  NT: Ord + Clone + Debug,
  AK: Ord + Clone,
{
  let index: BTreeMap<NT, u16> = (0..g.n() as u16).map(|i| ((ty.nt)(i), i)).collect();
  let mut rules: Rules<T, NT, AK, AV> = Vec::new();
  let mut prods: Prods<T, NT, AK, AV> = Vec::new();
  for r in b.rules() {
    rules.push((index[r.head()], r));
  }
  for (nt, r) in b.rule_set() {
    rules.push((index[nt], r));
  }
  for h in 0..g.n() as u16 {
    let nt = (ty.nt)(h);
    rules.push((h, b.get_rule(&nt)));
    rules.push((h, b.try_get_rule(&nt).ok_or("a rule is not there")?));
  }
  for (h, r) in rules.clone() {
    // Copies.
    let c = r;
    #[allow(clippy::clone_on_copy)]
    let d = c.clone();
    if h % 2 == 0 {
      rules.push((h, c));
    } else {
      rules.push((h, d));
    }
    for (k, p) in r.prods().enumerate() {
      prods.push(((h, k), p));
      prods.push(((h, k), p.clone()));
      if k > 300 {
        // Getting there takes as long as going through all before it.
        continue;
      }
      for q in r.prods().skip(k).take(1) {
        prods.push(((h, k), q));
      }
    }
  }
  let mut per_head: BTreeMap<u16, usize> = BTreeMap::new();
  for p in b.prods() {
    let h = index[p.head()];
    let k = per_head.entry(h).or_insert(0);
    prods.push(((h, *k), p));
    *k += 1;
  }
  Ok((rules, prods))
}

fn thin<X>(src: &mut Src, v: &mut Vec<X>, max: usize) {
  if v.len() > 20_000 {
    let (step, first) = (v.len() / 1000, src.idx(v.len() / 1000));
    let mut i = 0;
    v.retain(|_| {
      i += 1;
      i % step == first
    });
  }
  while v.len() > max {
    let i = src.idx(v.len());
    v.swap_remove(i);
  }
}

fn check<T, NT, AK, AV>(g: &Gram, ty: &Types<T, NT, AK, AV>, src: &mut Src, ctx: &mut Ctx) -> Res
where
  T: Clone,
  NT: Ord + Clone + Debug,
  AK: Ord + Clone,
  AV: Clone,
{
  let how: Vec<u8> = (0..5).map(|_| src.below(12) as u8).collect();
  let b = make(g, ty, &how)?;
  let other = if src.flag() { b.clone() } else { make(g, ty, &how)? };
  let (mut rules, mut prods) = caught_panic("collecting", || collect(&b, g, ty))??;
  // All of them find themselves.
  let rule_set: BTreeSet<_> = rules.iter().map(|r| r.1).collect();
  ensure!(rule_set.len() == g.n(), "{} rules make a set of {}", g.n(), rule_set.len());
  let total = g.prods().count();
  let prod_set: BTreeSet<_> = prods.iter().map(|p| p.1).collect();
  ensure!(prod_set.len() == total, "{} productions make a set of {}", total, prod_set.len());
  thin(src, &mut rules, 24);
  thin(src, &mut prods, 32);
  total_order(&rules, "rules")?;
  total_order(&prods, "productions")?;
  // Another grammar.
  let (mut rules2, mut prods2) = caught_panic("collecting", || collect(&other, g, ty))??;
  thin(src, &mut rules2, 4);
  thin(src, &mut prods2, 8);
  for (i, p) in &prods {
    for (j, q) in &prods2 {
      ensure!(p != q && q != p, "productions {:?} and {:?} of two grammars are equal", i, j);
      ensure!(
        p.cmp(q) != Ordering::Equal && p.cmp(q) == q.cmp(p).reverse(),
        "productions {:?} and {:?} of two grammars compare {:?} and {:?}",
        i,
        j,
        p.cmp(q),
        q.cmp(p)
      );
    }
  }
  thin(src, &mut rules, 4);
  for (i, r) in &rules {
    for (j, s) in &rules2 {
      for (what, e) in vec![
        ("==", catch_expected(|| r == s).map(|_| ())),
        ("cmp", catch_expected(|| s.cmp(r)).map(|_| ())),
        ("<", catch_expected(|| r < s).map(|_| ())),
      ] {
        ensure!(e.is_err(), "{} on rules {} and {} of two grammars does not panic", what, i, j);
      }
    }
  }
  let twins = g.rules.iter().any(|r| (1..r.len()).any(|i| r[..i].iter().any(|p| p.elems == r[i].elems)));
  ctx.label_if(twins, "productions with the same elements in one rule");
  let mut bodies: Vec<_> = g.prods().map(|p| &p.1.elems).collect();
  bodies.sort();
  bodies.dedup();
  if bodies.len() < total {
    ctx.nontrivial(g);
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("own types", 120_000, 2_000_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::grammar(src, Names::Distinct);
      ctx.label(label);
      ctx.show(|| format!("{:?}", g));
      check(&g, &whole::own(), src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("bongo's types", 120_000, 2_000_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::grammar(src, Names::None);
      ctx.label(label);
      ctx.show(|| format!("{:?}", g));
      let shift = src.idx(whole::TEXTS.len());
      check(&g, &whole::names(shift), src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("extreme", 20_000, 200_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::extreme(src, Names::None, 300);
      ctx.label(label);
      ctx.show(|| format!("{:?}", g));
      check(&g, &whole::own(), src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("huge", 400, 4_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::huge(src, Names::None, 66_000);
      ctx.label(label);
      ctx.show(|| format!("{}, {} rules, {} productions", label, g.n(), g.prods().count()));
      check(&g, &whole::own(), src, ctx)
    })
    .fuel(4_000_000_000, 4_000_000_000),
    Suite::random("twins", 120_000, 2_000_000, |src: &mut Src, ctx: &mut Ctx| {
      // Rules and productions with nothing to tell them apart; the types of
      // keys and values have no size.
      let n = src.urange(1, 4);
      let body: Vec<model::Elem> = (0..src.idx(3))
        .map(|_| model::Elem { name: None, sym: model::Sym::N(src.idx(n) as u16) })
        .collect();
      let rules = (0..n)
        .map(|h| {
          (0..src.urange(1, 3))
            .map(|k| {
              let mut elems = body.clone();
              if k == 0 && h + 1 < n {
                elems.push(model::Elem { name: None, sym: model::Sym::N(h as u16 + 1) });
              }
              model::Prod { key: k as u16, val: 0, elems }
            })
            .collect()
        })
        .collect();
      let g = Gram { start: 0, terms: 1, rules, decl: (0..n as u16).rev().collect() };
      ctx.show(|| format!("{:?}", g));
      let ty: Types<(), u16, (), ()> = Types {
        t: Box::new(|_| ()),
        nt: Box::new(|i| i),
        ak: Box::new(|_| ()),
        av: Box::new(|_| ()),
        same_av: Box::new(|_, _| true),
      };
      check(&g, &ty, src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
    }),
  ];
  main_with(
    "C28",
    "A case is a grammar and a second one that is a clone or built alike; rules and productions are obtained in every way the interface offers, and all pairs (of a sample of at most 24 and 32) are compared with the identities they must have; pairs across the grammars must panic or differ. Non-trivial: two productions have the same elements.",
    &[],
    suites,
  )
}
