//! C09: FOLLOW sets are exact. The sets can only be read through the hooks;
//! without them only "never fails" is checked.

use bongo::grammar::passes::follows::Follows;
use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::PassContext;
use bongo::start_grammar::{StartActionKey, StartNonTerminal, StreamTerminal};
use checks::{built, wrapped, K, N, T};
use checks::short;
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{analyse, Elem, Gram, Prod, Sym};
use std::collections::BTreeSet;

#[cfg(any(bongo_verif, bongo_verif_follows))]
fn read<X: Clone, Y: Ord>(f: &Follows<X, Y>, n: &Y) -> Option<Vec<X>> {
  Some(f.verif_get(n).map(|s| s.iter().cloned().collect()).unwrap_or_default())
}

#[cfg(not(any(bongo_verif, bongo_verif_follows)))]
fn read<X: Clone, Y: Ord>(_: &Follows<X, Y>, _: &Y) -> Option<Vec<X>> {
  None
}

const END: u16 = u16::MAX;

fn bare(g: &Gram, ctx: &mut Ctx, definition: bool) -> Res {
  let want = analyse::follows(g, None);
  let b = built(g)?;
  let pc = PassContext::new(&b);
  let follows = match caught_panic("the follows pass", || pc.get_pass::<Follows<T, N>>())
    .map_err(|m| format!("{:?}: {}", g, m))?
  {
    Ok(f) => f,
    Err(e) => {
      let nullable = PassContext::new(&b);
      ensure!(
        nullable.get_pass::<Nullable<N, K>>().is_err(),
        "{:?}: computing follow sets fails although the nullability analysis succeeds: {}",
        g,
        e
      );
      ctx.label("ambiguous: not judged");
      return Ok(());
    }
  };
  let get = |n: u16| read(&follows, &N(n)).map(|v| v.iter().map(|t| t.0).collect::<BTreeSet<u16>>());
  for n in 0..g.n() {
    if let Some(s) = get(n as u16) {
      ensure!(s == want[n], "{:?}: follow set of <{}> is {:?} instead of {:?}", g, n, s, want[n]);
    }
  }
  if let Some(s) = get(g.n() as u16) {
    ensure!(s.is_empty(), "{:?}: follow set of a nonterminal that is not there", g);
  }
  if definition {
    let (_, lower) = analyse::sentential_bounds(g, g.start, 6, 400);
    for n in 0..g.n() {
      if let Some(s) = get(n as u16) {
        ensure!(
          lower[n].is_subset(&s),
          "{:?}: in sentential forms <{}> is followed by {:?}, follow set {:?}",
          g,
          n,
          lower[n],
          s
        );
      }
    }
    ctx.label("compared with enumerated sentential forms");
  }
  Ok(())
}

fn with_end(g: &Gram, ctx: &mut Ctx) -> Res {
  let want = analyse::follows(g, Some(END));
  ctx.show(|| format!("{:?}: follow sets of the wrapped grammar {:?} ({} = end)", g, want, END));
  let sg = wrapped(g)?;
  let pc = PassContext::new(&sg);
  type F = Follows<StreamTerminal<T>, StartNonTerminal<N>>;
  let follows = match caught_panic("the follows pass", || pc.get_pass::<F>())
    .map_err(|m| format!("wrapped {:?}: {}", g, m))?
  {
    Ok(f) => f,
    Err(e) => {
      let nullable = PassContext::new(&sg);
      ensure!(
        nullable.get_pass::<Nullable<StartNonTerminal<N>, StartActionKey<K>>>().is_err(),
        "wrapped {:?}: computing follow sets fails although the nullability analysis succeeds: {}",
        g,
        e
      );
      return Ok(());
    }
  };
  let get = |n: &StartNonTerminal<N>| {
    read(&follows, n).map(|v| {
      v.iter()
        .map(|t| match t {
          StreamTerminal::Term(t) => t.0,
          StreamTerminal::EndOfStream => END,
        })
        .collect::<BTreeSet<u16>>()
    })
  };
  for n in 0..g.n() {
    if let Some(s) = get(&StartNonTerminal::NTerm(N(n as u16))) {
      ensure!(
        s == want[n],
        "wrapped {:?}: follow set of <{}> is {:?} instead of {:?} ({} = end)",
        g,
        n,
        s,
        want[n],
        END
      );
    }
  }
  if let Some(s) = get(&StartNonTerminal::Start) {
    ensure!(s.is_empty(), "wrapped {:?}: the start nonterminal is followed by {:?}", g, s);
  }
  let null = analyse::nullable(g);
  let through = g.prods().any(|(_, p)| {
    p.elems.len() > 2
      && p.elems[1..p.elems.len() - 1].iter().any(|e| matches!(e.sym, Sym::N(n) if null[n as usize]))
  });
  ctx.label_if(through, "nullable elements in between");
  ctx.label_if(want.iter().any(|s| s.contains(&END)), "some nonterminal can end a sentence");
  if want.iter().filter(|s| s.len() > 1).count() > 0 {
    ctx.nontrivial(g);
  }
  Ok(())
}

/// Terminals that have to travel down a chain of last positions.
fn chain(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(2, 25);
  let perm = src.permutation(n + 1);
  let nothing = perm[n] as u16;
  let prod = |syms: Vec<Sym>| Prod {
    key: 0,
    val: 0,
    elems: syms.into_iter().map(|sym| Elem { name: None, sym }).collect(),
  };
  let mut rules = vec![Vec::new(); n + 1];
  rules[nothing as usize].push(prod(vec![]));
  for i in 0..n {
    let mut syms = vec![];
    if src.flag() {
      syms.push(Sym::T(0));
    }
    if i + 1 < n {
      syms.push(Sym::N(perm[i + 1] as u16));
    } else {
      syms.push(Sym::T(1));
    }
    for _ in 0..src.idx(3) {
      syms.push(Sym::N(nothing));
    }
    if src.chance(1, 4) {
      syms.push(Sym::T(i as u16 % 3 + 1));
    }
    rules[perm[i]].push(prod(syms));
    if src.chance(1, 4) {
      let back = perm[src.idx(n)] as u16;
      rules[perm[i]].push(prod(vec![Sym::T(3), Sym::N(back)]));
    }
  }
  let mut g = Gram { start: perm[0] as u16, terms: 4, rules, decl: vec![] };
  if !analyse::reachable(&g).iter().all(|x| *x) {
    g = gen::drop_unreachable(&g);
  }
  let g = gen::decorate(src, g, Names::None);
  bare(&g, ctx, false)?;
  with_end(&g, ctx)
}

fn main() {
  let both = |g: &Gram, ctx: &mut Ctx, definition: bool| -> Res {
    with_end(g, ctx)?;
    bare(g, ctx, definition)
  };
  let suites = vec![
    Suite::enumerated("small-2nt", 1, 1, move |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 2, 1, 2, 2);
      match g {
        Some(g) if !src.dry() => both(&g, ctx, false),
        _ => Ok(()),
      }
    }),
    Suite::enumerated("small-2nt-3", 64, 1, move |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 2, 1, 2, 3);
      match g {
        Some(g) if !src.dry() => both(&g, ctx, false),
        _ => Ok(()),
      }
    }),
    Suite::random("null-unambiguous", 400_000, 4_000_000, move |src: &mut Src, ctx: &mut Ctx| {
      let mut g = gen::null_unambiguous(src, Names::None);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      let definition = g.n() <= 4 && src.chance(1, 20);
      both(&g, ctx, definition)
    }),
    Suite::random("random", 320_000, 2_560_000, move |src: &mut Src, ctx: &mut Ctx| {
      let (mut g, label) = gen::grammar(src, Names::None);
      ctx.label(label);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      both(&g, ctx, false)
    }),
    Suite::random("chains", 50_000, 500_000, chain),
    Suite::random("extreme", 40_000, 400_000, move |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::extreme(src, Names::None, 300);
      ctx.label(label);
      both(&g, ctx, false)
    }),
    Suite::random("huge", 100, 1_000, move |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::huge(src, Names::None, 2_100);
      ctx.label(label);
      both(&g, ctx, false).map_err(short)
    })
    .fuel(4_000_000_000, 4_000_000_000),
  ];
  main_with(
    "C09",
    "A case is a well-formed grammar, bare and wrapped; all follow sets are compared with reachability over 'can be followed by' and 'ends', and for some small grammars with enumerated sentential forms. Non-trivial: a follow set with several terminals.",
    &["follow sets are read through the hooks", "grammars whose nullability analysis reports ambiguity have no follow sets and are not judged"],
    suites,
  )
}
