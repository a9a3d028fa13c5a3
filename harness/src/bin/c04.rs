//! C04: grammar construction accepts exactly the well-formed grammars.

use checks::{elem_of, A, G, K, N, T};
use bongo::grammar::{build, GrammarErrors, ProdElement};
use engine::{caught_panic, ensure, ensure_eq, main_with, Ctx, Res, Src, Suite};
use model::gen;
use model::{sym_str, Sym};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, Hash)]
struct Script {
  start: u16,
  /// Heads are distinct.
  rules: Vec<(u16, Vec<Vec<Sym>>)>,
}

impl std::fmt::Debug for Script {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "start <{}>", self.start)?;
    for (h, ps) in &self.rules {
      write!(f, "; <{}> =>", h)?;
      for (i, p) in ps.iter().enumerate() {
        write!(f, "{}", if i > 0 { " |" } else { "" })?;
        if p.is_empty() {
          write!(f, " ()")?;
        }
        for s in p {
          write!(f, " {}", sym_str(*s))?;
        }
      }
      if ps.is_empty() {
        write!(f, " (no productions)")?;
      }
    }
    Ok(())
  }
}

struct Expect {
  unreachable: BTreeSet<u16>,
  no_rule: BTreeSet<u16>,
  no_prods: BTreeSet<u16>,
}

fn expect(s: &Script) -> Expect {
  let by_head: BTreeMap<u16, &Vec<Vec<Sym>>> = s.rules.iter().map(|(h, ps)| (*h, ps)).collect();
  let mut used: BTreeSet<u16> = BTreeSet::new();
  for (_, ps) in &s.rules {
    for sym in ps.iter().flatten() {
      if let Sym::N(n) = sym {
        used.insert(*n);
      }
    }
  }
  let mut reach: BTreeSet<u16> = BTreeSet::new();
  let mut stack = vec![s.start];
  while let Some(n) = stack.pop() {
    if reach.insert(n) {
      if let Some(ps) = by_head.get(&n) {
        for sym in ps.iter().flatten() {
          if let Sym::N(m) = sym {
            stack.push(*m);
          }
        }
      }
    }
  }
  let heads: BTreeSet<u16> = s.rules.iter().map(|(h, _)| *h).collect();
  let mut mentioned = used.clone();
  mentioned.insert(s.start);
  Expect {
    unreachable: heads.union(&used).copied().filter(|n| !reach.contains(n)).collect(),
    no_rule: mentioned.into_iter().filter(|n| !heads.contains(n)).collect(),
    no_prods: s.rules.iter().filter(|(_, p)| p.is_empty()).map(|(h, _)| *h).collect(),
  }
}

fn run_build(s: &Script) -> Result<G, GrammarErrors<N>> {
  build(N(s.start), |gb| {
    for (h, ps) in &s.rules {
      gb.add_rule(N(*h), |rb| {
        for (i, p) in ps.iter().enumerate() {
          if i % 2 == 1 {
            rb.add_prod_with_elems(
              K(i as u16),
              A(0),
              p.iter().map(|e| ProdElement::new_empty(elem_of(*e))).collect::<Vec<_>>(),
            );
          } else {
            rb.add_prod(K(i as u16), A(0), |pb| {
              for e in p {
                match *e {
                  Sym::T(t) => pb.add_term(T(t)),
                  Sym::N(n) => pb.add_nonterm(N(n)),
                };
              }
            });
          }
        }
      });
    }
  })
}

#[cfg(any(bongo_verif, bongo_verif_errors))]
fn names(err: &GrammarErrors<N>) -> Option<[BTreeSet<u16>; 3]> {
  let set = |s: &BTreeSet<N>| s.iter().map(|n| n.0).collect();
  Some([
    set(err.verif_unreachable_nonterms()),
    set(err.verif_nonterms_without_rules()),
    set(err.verif_rules_without_prods()),
  ])
}

#[cfg(not(any(bongo_verif, bongo_verif_errors)))]
fn names(_: &GrammarErrors<N>) -> Option<[BTreeSet<u16>; 3]> {
  None
}

fn check(s: &Script, ctx: &mut Ctx) -> Res {
  let e = expect(s);
  let good = e.unreachable.is_empty() && e.no_rule.is_empty() && e.no_prods.is_empty();
  ctx.show(|| {
    format!(
      "{:?}: unreachable {:?}, without rule {:?}, without productions {:?}",
      s, e.unreachable, e.no_rule, e.no_prods
    )
  });
  let kinds =
    !e.unreachable.is_empty() as u8 + !e.no_rule.is_empty() as u8 + !e.no_prods.is_empty() as u8;
  ctx.label(match kinds {
    0 => "well-formed",
    1 => "one kind of error",
    2 => "two kinds of error",
    _ => "all three kinds of error",
  });
  if s.rules.len() >= 2 || !good {
    ctx.nontrivial(s);
  }
  match caught_panic("build", || run_build(s)).map_err(|m| format!("{:?}: {}", s, m))? {
    Ok(_) => ensure!(
      good,
      "{:?} is accepted, but unreachable {:?}, without rule {:?}, without productions {:?}",
      s,
      e.unreachable,
      e.no_rule,
      e.no_prods
    ),
    Err(err) => {
      ensure!(!good, "{:?} is well-formed but rejected: {:?}", s, err);
      if let Some([u, r, p]) = names(&err) {
        ensure_eq!(u, e.unreachable, "{:?}: unreachable nonterminals", s);
        ensure_eq!(r, e.no_rule, "{:?}: nonterminals without rules", s);
        ensure_eq!(p, e.no_prods, "{:?}: rules without productions", s);
      }
    }
  }
  Ok(())
}

fn random(src: &mut Src, ctx: &mut Ctx) -> Res {
  let max = src.scaled(1, 8) as usize;
  let n = src.urange(1, max);
  // Some nonterminals may lack a rule.
  let p_rule = *src.pick(&[100u64, 90, 60]);
  let p_noprods = *src.pick(&[0u64, 0, 10, 40]);
  let p_nt = *src.pick(&[10u64, 40, 70]);
  let order = src.permutation(n);
  let mut rules = Vec::new();
  for h in order {
    if !src.chance(p_rule, 100) {
      continue;
    }
    let k = if src.chance(p_noprods, 100) { 0 } else { src.urange(1, 3) };
    let prods = (0..k)
      .map(|_| {
        let len = src.urange(0, 3);
        (0..len)
          .map(|_| {
            if src.chance(p_nt, 100) {
              Sym::N(src.below(n as u64) as u16)
            } else {
              Sym::T(src.below(2) as u16)
            }
          })
          .collect()
      })
      .collect();
    rules.push((h as u16, prods));
  }
  let s = Script {
    start: src.below(n as u64) as u16,
    rules,
  };
  check(&s, ctx)
}

/// A chain of nonterminals, cut somewhere: reachability has to be followed
/// over many steps.
fn chain(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(2, 40);
  let perm = src.permutation(n);
  let cut = if src.flag() { Some(src.idx(n)) } else { None };
  let mut rules: Vec<(u16, Vec<Vec<Sym>>)> = (0..n)
    .map(|i| {
      let mut p = vec![Sym::T(0)];
      if i + 1 < n && cut != Some(i) {
        p.push(Sym::N(perm[i + 1] as u16));
      }
      (perm[i] as u16, vec![p])
    })
    .collect();
  if src.chance(1, 3) {
    let back = src.idx(n);
    let at = src.idx(n);
    rules[at].1.push(vec![Sym::N(perm[back] as u16)]);
  }
  let order = src.permutation(n);
  let s = Script {
    start: perm[0] as u16,
    rules: order.into_iter().map(|i| rules[i].clone()).collect(),
  };
  check(&s, ctx)
}

/// One large dimension, well-formed or spoilt at one place.
fn extreme(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label) = gen::extreme(src, gen::Names::None, 200);
  ctx.label(label);
  spoilt(src, ctx, g)
}

/// Larger still, and spoilt at one place or in many.
fn huge(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (mut g, label) = gen::huge(src, gen::Names::None, 20_000);
  ctx.label(label);
  let n = g.n() as u16;
  let density = *src.pick(&[0u64, 0, 1, 50, 99]);
  match src.below(4) {
    // Rules without productions.
    0 => {
      for r in &mut g.rules {
        if src.chance(density, 100) {
          r.clear();
        }
      }
    }
    // Rules that are not there.
    1 => g.decl.retain(|h| *h == g.start || !src.chance(density, 100)),
    // Rules that nothing mentions, or that only mention each other.
    2 => {
      for i in 0..src.idx(1 + 5000 * density as usize / 99) as u16 {
        let to = n + if src.flag() { i } else { i.saturating_sub(1) };
        let sym = if src.flag() { Sym::N(to) } else { Sym::T(0) };
        let elems = vec![model::Elem { name: None, sym }];
        g.rules.push(vec![model::Prod { key: 0, val: 0, elems }]);
        g.decl.push(n + i);
      }
    }
    // Symbols without rules.
    _ => {
      for (k, e) in g.rules.iter_mut().flatten().flat_map(|p| &mut p.elems).enumerate() {
        if src.chance(density, 100) {
          e.sym = Sym::N(n + (k % 5000) as u16);
        }
      }
    }
  }
  spoilt(src, ctx, g)
}

fn spoilt(src: &mut Src, ctx: &mut Ctx, g: model::Gram) -> Res {
  let mut rules: Vec<(u16, Vec<Vec<Sym>>)> =
    g.decl.iter().map(|h| (*h, g.rules[*h as usize].iter().map(|p| p.syms().collect()).collect())).collect();
  let at = src.idx(rules.len());
  match src.below(6) {
    0 => {
      rules.remove(at);
    }
    1 => rules[at].1.clear(),
    2 => {
      // Nothing mentions it.
      let body = src.pick(&[vec![], vec![vec![]], vec![vec![Sym::N(g.n() as u16)]]]).clone();
      rules.insert(at, (g.n() as u16, body));
    }
    3 => {
      // An occurrence becomes something else.
      let spots: Vec<(usize, usize, usize)> = rules
        .iter()
        .enumerate()
        .flat_map(|(i, r)| {
          let of = r.1.iter().enumerate();
          of.flat_map(move |(j, p)| (0..p.len()).map(move |k| (i, j, k))).collect::<Vec<_>>()
        })
        .collect();
      if !spots.is_empty() {
        let (i, j, k) = *src.pick(&spots);
        rules[i].1[j][k] = match src.below(3) {
          0 => Sym::T(0),
          1 => Sym::N(g.n() as u16),
          _ => Sym::N(src.below(g.n() as u64) as u16),
        };
      }
    }
    _ => {}
  }
  check(&Script { start: g.start, rules }, ctx)
}

/// Every script over `n` nonterminals with at most `prods` productions of
/// length up to `len` over the nonterminals and one terminal.
fn small(n: usize, prods: usize, len: usize) -> impl Fn(&mut Src, &mut Ctx) -> Res {
  move |src, ctx| {
    let k = n as u64 + 1;
    let start = src.below(n as u64) as u16;
    let mut rules = Vec::new();
    for h in 0..n {
      if src.flag() {
        let count = src.urange(0, prods);
        let ps = (0..count)
          .map(|_| {
            let l = src.urange(0, len);
            (0..l)
              .map(|_| match src.below(k) {
                0 => Sym::T(0),
                x => Sym::N(x as u16 - 1),
              })
              .collect()
          })
          .collect();
        rules.push((h as u16, ps));
      }
    }
    if src.dry() {
      return Ok(());
    }
    check(&Script { start, rules }, ctx)
  }
}

fn main() {
  let suites = vec![
    Suite::enumerated("small-2", 1, 1, small(2, 2, 2)),
    Suite::enumerated("small-3", 1, 1, small(3, 1, 2)),
    Suite::random("random", 1_500_000, 12_000_000, random),
    Suite::random("chains", 50_000, 400_000, chain),
    Suite::random("extreme", 40_000, 400_000, extreme),
    Suite::random("huge", 1_500, 15_000, huge).fuel(4_000_000_000, 4_000_000_000),
  ];
  main_with(
    "C04",
    "A case is a builder script: a start symbol and rules with distinct heads, some of them missing, empty or unreachable. Non-trivial: at least two rules, or ill-formed.",
    &["two rules with the same head are not handed to the builder (what then happens is unspecified)", "the names in an error are read through the hooks"],
    suites,
  )
}
