//! C06: nullability is exact.

use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::PassContext;
use bongo::grammar::Elem;
use bongo::start_grammar::{StartActionKey, StartNonTerminal};
use checks::{built, wrapped, K, N};
use checks::short;
use engine::{caught_panic, ensure_eq, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{analyse, Gram, Sym};
use std::collections::BTreeSet;

fn check(g: &Gram, ctx: &mut Ctx) -> Res {
  let null = analyse::nullable(g);
  let prod_null = |p: &model::Prod| {
    p.syms().all(|s| match s {
      Sym::T(_) => false,
      Sym::N(n) => null[n as usize],
    })
  };
  ctx.show(|| format!("{:?}: nullable {:?}", g, null));
  let k = null.iter().filter(|x| **x).count();
  let b = built(g)?;
  let pc = PassContext::new(&b);
  let r = caught_panic("the nullability pass", || pc.get_pass::<Nullable<N, K>>())
    .map_err(|m| format!("{:?}: {}", g, m))?;
  let info = match r {
    Ok(i) => i,
    Err(_) => {
      // Whether that is right is C07's business.
      ctx.label("ambiguous");
      return Ok(());
    }
  };
  ctx.label(match k {
    0 => "nothing nullable",
    1 => "one nullable",
    _ => "several nullable",
  });
  if k > 0 && k < g.n() {
    ctx.nontrivial(g);
  }
  for n in 0..g.n() + 2 {
    let want = null.get(n).copied().unwrap_or(false);
    ensure_eq!(info.is_nullable(&N(n as u16)), want, "{:?}: is_nullable(<{}>)", g, n);
    ensure_eq!(
      info.get_nullable_info().is_nullable(&N(n as u16)),
      want,
      "{:?}: info.is_nullable(<{}>)",
      g,
      n
    );
  }
  let want: BTreeSet<u16> = (0..g.n()).filter(|n| null[*n]).map(|n| n as u16).collect();
  let got: BTreeSet<u16> = info.get_nullable_set().into_iter().map(|n| n.0).collect();
  ensure_eq!(got, want, "{:?}: nullable set", g);
  let got: BTreeSet<u16> =
    info.get_nullable_info().get_nullable_set().into_iter().map(|n| n.0).collect();
  ensure_eq!(got, want, "{:?}: nullable set of the info", g);
  let rules: Vec<_> = (0..g.n()).map(|h| (b.get_rule(&N(h as u16)), &g.rules[h])).collect();
  for (p, m) in rules.iter().flat_map(|(r, m)| r.prods().zip(m.iter()).collect::<Vec<_>>()) {
    let want = prod_null(m);
    ensure_eq!(info.is_prod_nullable(&p), want, "{:?}: is_prod_nullable({:?})", g, p);
    ensure_eq!(
      info.get_nullable_info().is_prod_nullable(&p),
      want,
      "{:?}: info.is_prod_nullable({:?})",
      g,
      p
    );
  }
  Ok(())
}

/// The wrapped grammar: nothing changes, and the new start is not nullable.
fn check_wrapped(g: &Gram) -> Res {
  let null = analyse::nullable(g);
  let sg = wrapped(g)?;
  let pc = PassContext::new(&sg);
  let info = match pc.get_pass::<Nullable<StartNonTerminal<N>, StartActionKey<K>>>() {
    Ok(i) => i,
    Err(_) => return Ok(()),
  };
  let start_prod = sg.start_prod();
  ensure_eq!(info.is_nullable(start_prod.head()), false, "wrapped {:?}: start", g);
  ensure_eq!(info.is_prod_nullable(&start_prod), false, "wrapped {:?}: start production", g);
  let original = match start_prod.element_at(0) {
    Some(Elem::NonTerm(n)) => n.clone(),
    x => return Err(format!("wrapped {:?}: start production begins with {:?}", g, x)),
  };
  ensure_eq!(
    info.is_nullable(&original),
    null[g.start as usize],
    "wrapped {:?}: original start",
    g
  );
  ensure_eq!(
    info.get_nullable_set().len(),
    null.iter().filter(|x| **x).count(),
    "wrapped {:?}: size of the nullable set",
    g
  );
  Ok(())
}

/// Nullability that has to travel up a long chain, in any declaration order.
fn chain(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(2, 30);
  let perm = src.permutation(n);
  let broken = if src.flag() { src.idx(n) } else { n };
  let mut rules = vec![Vec::new(); n];
  for i in 0..n {
    let mut syms = Vec::new();
    if i + 1 < n {
      for j in 0..src.urange(1, 2) {
        let to = if j == 0 { i + 1 } else { src.urange(i + 1, n - 1) };
        syms.push(Sym::N(perm[to] as u16));
      }
    }
    if i == broken {
      let at = src.idx(syms.len() + 1);
      syms.insert(at, Sym::T(0));
    }
    rules[perm[i]].push(model::Prod {
      key: 0,
      val: 0,
      elems: syms.into_iter().map(|sym| model::Elem { name: None, sym }).collect(),
    });
    if src.chance(1, 3) {
      rules[perm[i]].push(model::Prod {
        key: 0,
        val: 0,
        elems: vec![model::Elem { name: None, sym: Sym::T(1) }],
      });
    }
  }
  let g = Gram { start: perm[0] as u16, terms: 2, rules, decl: vec![] };
  let g = gen::decorate(src, g, Names::None);
  check(&g, ctx)
}

fn main() {
  let suites = vec![
    Suite::enumerated("small-2nt", 1, 1, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 2, 1, 2, 2);
      match g {
        Some(g) if !src.dry() => check(&g, ctx),
        _ => Ok(()),
      }
    }),
    Suite::enumerated("small-3nt", 5, 1, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 3, 1, 1, 3);
      match g {
        Some(g) if !src.dry() => check(&g, ctx),
        _ => Ok(()),
      }
    }),
    Suite::random("null-unambiguous", 600_000, 4_800_000, |src: &mut Src, ctx: &mut Ctx| {
      let mut g = gen::null_unambiguous(src, Names::None);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      check(&g, ctx)?;
      if src.chance(1, 8) {
        check_wrapped(&g)?;
      }
      Ok(())
    }),
    Suite::random("random", 300_000, 2_400_000, |src: &mut Src, ctx: &mut Ctx| {
      let (mut g, label) = gen::grammar(src, Names::None);
      ctx.label(label);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      check(&g, ctx)
    }),
    Suite::random("chains", 100_000, 800_000, chain),
    Suite::random("extreme", 40_000, 400_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::extreme(src, Names::None, 400);
      ctx.label(label);
      check(&g, ctx)?;
      if src.chance(1, 4) {
        check_wrapped(&g)?;
      }
      Ok(())
    }),
    Suite::random("huge", 300, 3_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::huge(src, Names::None, 2_100);
      ctx.label(label);
      check(&g, ctx).map_err(short)
    })
    .fuel(4_000_000_000, 4_000_000_000),
  ];
  main_with(
    "C06",
    "A case is a well-formed grammar; every nonterminal, every production and the whole set are queried. Non-trivial: the analysis succeeds and some but not all nonterminals are nullable.",
    &["grammars on which the analysis reports ambiguity are not judged here (C07)"],
    suites,
  )
}
