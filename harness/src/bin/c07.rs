//! C07: empty-derivation ambiguity and empty-derivation trees are exact.

use bongo::grammar::passes::nullable::{Nullable, NullableError};
use bongo::grammar::passes::PassContext;
use checks::nulls::{empty_tree, keys};
use checks::{built, K, N};
use checks::short;
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{analyse, Elem, Gram, Prod, Sym};

fn check(g: &Gram, ctx: &mut Ctx) -> Res {
  let counts = analyse::empty_derivations(g);
  let null = analyse::nullable(g);
  let ambiguous = counts.iter().any(|c| *c > 1);
  ctx.show(|| format!("{:?}: numbers of empty derivations {:?}", g, counts));
  let b = built(g)?;
  let pc = PassContext::new(&b);
  let r = caught_panic("the nullability pass", || pc.get_pass::<Nullable<N, K>>())
    .map_err(|m| format!("{:?}: {}", g, m))?;
  let info = match r {
    Err(NullableError::Ambiguity) => {
      ensure!(ambiguous, "{:?}: ambiguity is reported, but there is none", g);
      ctx.label("ambiguous");
      ctx.nontrivial(g);
      return Ok(());
    }
    Ok(i) => i,
  };
  ensure!(
    !ambiguous,
    "{:?}: numbers of empty derivations {:?}, but no ambiguity is reported",
    g,
    counts
  );
  let keys = keys(&b);
  let mut deepest = 0;
  for n in 0..g.n() as u16 + 2 {
    let got = info.get_nullable_info().get_nullable_action(&N(n));
    if (n as usize) < g.n() && null[n as usize] {
      let (want, depth) = empty_tree(g, &keys, &null, n);
      deepest = deepest.max(depth);
      ensure!(
        got == Some(&want),
        "{:?}: empty derivation of <{}>\n  got:      {:?}\n  expected: {:?}",
        g,
        n,
        got,
        want
      );
    } else {
      ensure!(got.is_none(), "{:?}: <{}> is not nullable but has the empty derivation {:?}", g, n, got);
    }
  }
  ctx.label(match deepest {
    0 => "flat empty derivations",
    1 => "empty derivations of depth 1",
    _ => "empty derivations of depth 2 or more",
  });
  if null.iter().any(|x| *x) {
    ctx.nontrivial(g);
  }
  Ok(())
}

/// A chain of nonterminals that vanish only through each other, with one extra
/// way to vanish at one of them now and then.
fn chain(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(2, 14);
  let perm = src.permutation(n);
  let mut rules = vec![Vec::new(); n];
  for i in 0..n {
    let mut syms = Vec::new();
    if i + 1 < n {
      syms.push(Sym::N(perm[i + 1] as u16));
      if src.chance(1, 4) {
        syms.push(Sym::N(perm[src.urange(i + 1, n - 1)] as u16));
      }
    }
    rules[perm[i]].push(Prod {
      key: 0,
      val: 0,
      elems: syms.into_iter().map(|sym| Elem { name: None, sym }).collect(),
    });
  }
  if src.flag() {
    let at = src.idx(n);
    let to = src.idx(n);
    let syms = match src.below(3) {
      0 => vec![],
      1 => vec![Sym::N(to as u16)],
      _ => vec![Sym::N(to as u16), Sym::T(0)],
    };
    let pos = src.idx(2);
    rules[at].insert(
      pos,
      Prod {
        key: 0,
        val: 0,
        elems: syms.into_iter().map(|sym| Elem { name: None, sym }).collect(),
      },
    );
  }
  let g = Gram { start: perm[0] as u16, terms: 1, rules, decl: vec![] };
  let g = gen::decorate(src, g, Names::Distinct);
  check(&g, ctx)
}

/// A nonterminal with many productions, some or all of which vanish.
fn many_ways(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = match src.below(20) {
    19 => gen::sized(src, 1100),
    18 => 256 + src.idx(3) - 1,
    _ => src.count(1, 70),
  };
  // Below the start: nonterminals that vanish in one way, and one that never
  // does.
  let helpers = 3;
  let empty = |key: usize| Prod { key: key as u16, val: 0, elems: vec![] };
  let p = *src.pick(&[1, 3, 9]);
  let elem = |sym| Elem { name: None, sym };
  let mut prods: Vec<Prod> = (0..n)
    .map(|k| {
      let mut e: Vec<Elem> = (0..src.idx(3)).map(|_| elem(Sym::N(src.urange(1, helpers) as u16))).collect();
      if !src.chance(p, 10) {
        let at = src.idx(e.len() + 1);
        e.insert(at, elem(if src.flag() { Sym::T(0) } else { Sym::N(helpers as u16 + 1) }));
      }
      Prod { key: k as u16, val: 0, elems: e }
    })
    .collect();
  let mut all: Vec<Elem> = (1..=helpers + 1).map(|i| elem(Sym::N(i as u16))).collect();
  all.push(elem(Sym::T(0)));
  prods.push(Prod { key: n as u16, val: 0, elems: all });
  let mut rules = vec![prods];
  rules.extend((0..helpers).map(|k| {
    let mut r = vec![empty(0)];
    r.extend((0..k).map(|j| Prod { key: 1 + j as u16, val: 0, elems: vec![elem(Sym::T(0))] }));
    r
  }));
  rules.push(vec![Prod { key: 0, val: 0, elems: vec![elem(Sym::T(0))] }]);
  let g = Gram { start: 0, terms: 1, rules, decl: vec![] };
  let g = gen::decorate(src, g, Names::Distinct);
  ctx.label_if(analyse::empty_derivations(&g).iter().any(|c| *c > 8), "more than eight ways to vanish");
  check(&g, ctx)
}

/// Exactly so many ways to vanish.
fn exactly(n: usize, src: &mut Src, ctx: &mut Ctx) -> Res {
  let extra = src.idx(2);
  let prods = (0..n + extra)
    .map(|k| Prod {
      key: (k % 60_000) as u16,
      val: (k / 60_000) as _,
      elems: if k < extra { vec![Elem { name: None, sym: Sym::T(0) }] } else { vec![] },
    })
    .collect();
  let mut g = Gram { start: 0, terms: 1, rules: vec![prods], decl: vec![0] };
  if extra > 0 {
    g.rules[0][0].elems.push(Elem { name: None, sym: Sym::N(0) });
  }
  check(&g, ctx)
}

fn main() {
  let named = |g: Gram| g.named();
  let suites = vec![
    Suite::enumerated("small-2nt", 1, 1, move |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 2, 1, 2, 2);
      match g {
        Some(g) if !src.dry() => check(&named(g), ctx),
        _ => Ok(()),
      }
    }),
    Suite::enumerated("small-3nt", 5, 1, move |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 3, 1, 1, 3);
      match g {
        Some(g) if !src.dry() => check(&named(g), ctx),
        _ => Ok(()),
      }
    }),
    Suite::random("null-unambiguous", 600_000, 4_800_000, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::null_unambiguous(src, Names::Distinct);
      check(&g, ctx)
    }),
    Suite::random("random", 400_000, 3_200_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::grammar(src, Names::Distinct);
      ctx.label(label);
      check(&g, ctx)
    }),
    Suite::random("many-ways", 40_000, 400_000, many_ways),
    Suite::enumerated("exact counts", 1, 1, |src: &mut Src, ctx: &mut Ctx| {
      let n = (1usize << src.below(16)) + src.idx(2);
      if src.dry() {
        let _ = src.idx(2);
        return Ok(());
      }
      exactly(n, src, ctx)
    }),
    Suite::random("chains", 200_000, 1_600_000, chain),
    Suite::random("extreme", 40_000, 400_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::extreme(src, Names::Distinct, 300);
      ctx.label(label);
      check(&g, ctx)
    }),
    Suite::random("huge", 300, 3_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::huge(src, Names::Distinct, 2_100);
      ctx.label(label);
      check(&g, ctx).map_err(short)
    })
    .fuel(4_000_000_000, 4_000_000_000),
  ];
  main_with(
    "C07",
    "A case is a well-formed grammar with named elements; the ambiguity verdict is compared with a count of empty derivations, and each nonterminal's empty derivation with the one built from the definition. Non-trivial: ambiguous, or some nonterminal is nullable.",
    &["names are distinct within a production"],
    suites,
  )
}
