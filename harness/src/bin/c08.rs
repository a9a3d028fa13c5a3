//! C08: FIRST sets are exact.

use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::PassContext;
use bongo::start_grammar::{StartNonTerminal, StreamTerminal};
use checks::{built, wrapped, N, T};
use checks::short;
use engine::{caught_panic, ensure, ensure_eq, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{analyse, Elem, Gram, Prod, Sym};
use std::collections::BTreeSet;

fn check(g: &Gram, ctx: &mut Ctx, definition: bool) -> Res {
  let want = analyse::firsts(g);
  ctx.show(|| format!("{:?}: first sets {:?}", g, want));
  let b = built(g)?;
  let ambiguous = analyse::empty_derivations(g).iter().any(|c| *c > 1);
  let pc = PassContext::new(&b);
  let firsts = match caught_panic("the firsts pass", || pc.get_pass::<Firsts<T, N>>())
    .map_err(|m| format!("{:?}: {}", g, m))?
  {
    Ok(f) => f,
    Err(e) => {
      ensure!(ambiguous, "{:?}: computing first sets fails: {}", g, e);
      ctx.label("ambiguous: not judged");
      return Ok(());
    }
  };
  let get = |n: u16| -> BTreeSet<u16> {
    firsts.get(&N(n)).map(|s| s.iter().map(|t| t.0).collect()).unwrap_or_default()
  };
  for n in 0..g.n() as u16 {
    ensure_eq!(get(n), want[n as usize], "{:?}: first set of <{}>", g, n);
  }
  ensure!(get(g.n() as u16).is_empty(), "{:?}: first set of a nonterminal that is not there", g);
  if definition {
    for n in 0..g.n() as u16 {
      let (lower, _) = analyse::sentential_bounds(g, n, 6, 300);
      ensure!(
        lower.is_subset(&get(n)),
        "{:?}: sentential forms of <{}> begin with {:?}, first set {:?}",
        g,
        n,
        lower,
        get(n)
      );
    }
    ctx.label("compared with enumerated sentential forms");
  }
  let null = analyse::nullable(g);
  let through = g.prods().any(|(_, p)| {
    p.elems.len() > 1 && matches!(p.elems[0].sym, Sym::N(n) if null[n as usize])
  });
  ctx.label_if(through, "nullable prefixes");
  ctx.label_if(want.iter().any(|s| s.is_empty()), "an empty first set");
  if want.iter().any(|s| s.len() > 1) || through {
    ctx.nontrivial(g);
  }
  Ok(())
}

fn check_wrapped(g: &Gram) -> Res {
  let first = analyse::firsts(g);
  let null = analyse::nullable(g);
  let sg = wrapped(g)?;
  let pc = PassContext::new(&sg);
  let firsts = match pc.get_pass::<Firsts<StreamTerminal<T>, StartNonTerminal<N>>>() {
    Ok(f) => f,
    Err(_) => return Ok(()),
  };
  let get = |n: &StartNonTerminal<N>| -> (BTreeSet<u16>, bool) {
    let mut s = BTreeSet::new();
    let mut end = false;
    for t in firsts.get(n).into_iter().flatten() {
      match t {
        StreamTerminal::Term(t) => {
          s.insert(t.0);
        }
        StreamTerminal::EndOfStream => end = true,
      }
    }
    (s, end)
  };
  for n in 0..g.n() {
    ensure_eq!(
      get(&StartNonTerminal::NTerm(N(n as u16))),
      (first[n].clone(), false),
      "wrapped {:?}: first set of <{}>",
      g,
      n
    );
  }
  ensure_eq!(
    get(&StartNonTerminal::Start),
    (first[g.start as usize].clone(), null[g.start as usize]),
    "wrapped {:?}: first set of the start nonterminal",
    g
  );
  Ok(())
}

/// Terminals that have to travel through a long chain of nullable prefixes.
fn chain(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(2, 25);
  let perm = src.permutation(n + 1);
  let nothing = perm[n] as u16;
  let prod = |syms: Vec<Sym>| Prod {
    key: 0,
    val: 0,
    elems: syms.into_iter().map(|sym| Elem { name: None, sym }).collect(),
  };
  let mut rules = vec![Vec::new(); n + 1];
  rules[nothing as usize].push(prod(vec![]));
  for i in 0..n {
    let mut syms = Vec::new();
    for _ in 0..src.idx(3) {
      syms.push(Sym::N(nothing));
    }
    if i + 1 < n {
      syms.push(Sym::N(perm[i + 1] as u16));
    }
    if i + 1 == n || src.chance(1, 3) {
      syms.push(Sym::T(i as u16 % 4));
    }
    rules[perm[i]].push(prod(syms));
    if src.chance(1, 4) {
      let back = perm[src.idx(n)] as u16;
      let mut p = vec![Sym::N(back), Sym::T(3)];
      if src.flag() {
        p.insert(0, Sym::N(nothing));
      }
      rules[perm[i]].push(prod(p));
    }
  }
  let mut g = Gram { start: perm[0] as u16, terms: 4, rules, decl: vec![] };
  if !analyse::reachable(&g).iter().all(|x| *x) {
    g = gen::drop_unreachable(&g);
  }
  let g = gen::decorate(src, g, Names::None);
  check(&g, ctx, false)
}

fn main() {
  let suites = vec![
    Suite::enumerated("small-2nt", 1, 1, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 2, 1, 2, 2);
      match g {
        Some(g) if !src.dry() => check(&g, ctx, false),
        _ => Ok(()),
      }
    }),
    Suite::enumerated("small-2nt-2t", 8, 1, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 2, 2, 2, 2);
      match g {
        Some(g) if !src.dry() => check(&g, ctx, false),
        _ => Ok(()),
      }
    }),
    Suite::random("null-unambiguous", 640_000, 5_120_000, |src: &mut Src, ctx: &mut Ctx| {
      let mut g = gen::null_unambiguous(src, Names::None);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      let definition = g.n() <= 4 && src.chance(1, 20);
      check(&g, ctx, definition)?;
      if src.chance(1, 4) {
        check_wrapped(&g)?;
      }
      Ok(())
    }),
    Suite::random("random", 400_000, 3_200_000, |src: &mut Src, ctx: &mut Ctx| {
      let (mut g, label) = gen::grammar(src, Names::None);
      ctx.label(label);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      check(&g, ctx, false)?;
      if src.chance(1, 8) {
        check_wrapped(&g)?;
      }
      Ok(())
    }),
    Suite::random("chains", 80_000, 640_000, chain),
    Suite::random("extreme", 40_000, 400_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::extreme(src, Names::None, 300);
      ctx.label(label);
      check(&g, ctx, false)?;
      if src.chance(1, 4) {
        check_wrapped(&g)?;
      }
      Ok(())
    }),
    Suite::random("huge", 300, 3_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::huge(src, Names::None, 2_100);
      ctx.label(label);
      check(&g, ctx, false).map_err(short)
    })
    .fuel(4_000_000_000, 4_000_000_000),
  ];
  main_with(
    "C08",
    "A case is a well-formed grammar (bare or wrapped); all first sets are compared with reachability over 'can begin', and for some small grammars with enumerated sentential forms. Non-trivial: a first set with several terminals, or a production with a nullable prefix.",
    &["grammars whose nullability analysis reports ambiguity have no first sets and are not judged"],
    suites,
  )
}
