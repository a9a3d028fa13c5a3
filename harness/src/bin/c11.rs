//! C11: null removal preserves the language and removes all nullability.

use bongo::grammar::transform::nonnull::transform_to_nonnull;
use checks::built;
use checks::nulls::{read_nonnull, vanishing};
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::lang::{self, Spans};
use model::{analyse, word_str, Elem, Gram, Prod, Sym};

fn check(g: &Gram, ctx: &mut Ctx, len: usize, src: &mut Src) -> Res {
  let null = analyse::nullable(g);
  let counts = analyse::empty_derivations(g);
  let ambiguous = counts.iter().any(|c| *c > 1);
  let gone = vanishing(g);
  let b = built(g)?;
  let r = caught_panic("null removal", || transform_to_nonnull(&b)).map_err(|m| format!("{:?}: {}", g, m))?;
  let t = match r {
    Err(e) => {
      ctx.show(|| format!("{:?}: fails, {}", g, e));
      ensure!(
        ambiguous || gone[g.start as usize],
        "{:?}: null removal fails ({}) without an ambiguous empty derivation and although <{}> does not only vanish",
        g,
        e,
        g.start
      );
      ctx.label(if ambiguous { "fails: ambiguous" } else { "fails: the start symbol vanishes" });
      return Ok(());
    }
    Ok(t) => t,
  };
  ensure!(!ambiguous, "{:?}: null removal succeeds in spite of an ambiguous empty derivation", g);
  ensure!(!gone[g.start as usize], "{:?}: null removal succeeds although the start symbol can only vanish", g);
  let (h, kept) = read_nonnull(&t, g.n(), g.terms).map_err(|m| format!("{:?}: {}", g, m))?;
  ctx.show(|| format!("{:?} becomes {:?}", g, h));
  ensure!(h.start == g.start, "{:?}: the start symbol becomes <{}>", g, h.start);
  ensure!(kept[h.start as usize], "{:?}: the start symbol has no rule any more", g);
  for (head, p) in h.prods() {
    ensure!(!p.elems.is_empty(), "{:?}: empty production of <{}> in {:?}", g, head, h);
  }
  let still = analyse::nullable(&h);
  if let Some(x) = still.iter().position(|x| *x) {
    return Err(format!("{:?}: <{}> derives the empty sequence in {:?}", g, x, h));
  }
  // All short sequences of all nonterminals.
  let mut len = len;
  let (x, y) = loop {
    match (lang::bounded(g, len, 4000), lang::bounded(&h, len, 4000)) {
      (Some(x), Some(y)) => break (x, y),
      _ if len > 1 => len -= 1,
      _ => {
        ctx.label("language too big");
        return Ok(());
      }
    }
  };
  for n in 0..g.n() {
    if !kept[n] {
      continue;
    }
    for l in 1..=len {
      for (a, b, what) in [(&x, &y, "lost"), (&y, &x, "new")].iter() {
        for w in &a[n][l] {
          ensure!(
            b[n][l].contains(w),
            "{:?}: <{}> derives '{}' only {} in {:?}",
            g,
            n,
            word_str(w),
            if *what == "lost" { "there, not" } else { "newly" },
            h
          );
        }
      }
    }
  }
  // Longer ones.
  let target = if g.prods().any(|(_, p)| p.elems.len() > 14) { 60 } else { 14 };
  for k in 0..3 {
    let (from, to, w) = match if k % 2 == 0 { gen::derived_word(src, g, target) } else { gen::derived_word(src, &h, target) } {
      Some(w) => {
        if k % 2 == 0 {
          (g, &h, w)
        } else {
          (&h, g, w)
        }
      }
      None => continue,
    };
    if w.is_empty() || w.len() > target {
      continue;
    }
    ctx.label("longer derived sequence");
    let _ = from;
    ensure!(
      Spans::new(to, &w).get(to.start, 0, w.len()),
      "{:?}: the start symbol derives '{}' in the grammar {} null removal but not {} it: {:?}",
      g,
      word_str(&w),
      if k % 2 == 0 { "before" } else { "after" },
      if k % 2 == 0 { "after" } else { "before" },
      h
    );
  }
  let occurrences = g
    .prods()
    .flat_map(|(_, p)| p.syms().collect::<Vec<_>>())
    .filter(|s| matches!(s, Sym::N(m) if null[*m as usize]))
    .count();
  ctx.label_if(gone.iter().any(|x| *x), "some nonterminal vanishes");
  ctx.label_if(null[g.start as usize], "nullable start symbol");
  ctx.label(match occurrences {
    0 => "no nullable occurrence",
    1..=3 => "1-3 nullable occurrences",
    _ => "4 or more nullable occurrences",
  });
  if occurrences > 0 {
    ctx.nontrivial(g);
  }
  Ok(())
}

fn chain(src: &mut Src, ctx: &mut Ctx) -> Res {
  let g = gen::vanishing_chain(src, 12);
  check(&g, ctx, 5, src)
}

fn main() {
  let suites = vec![
    Suite::enumerated("small-2nt", 1, 1, move |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 2, 1, 2, 2);
      match g {
        Some(g) if !src.dry() => check(&g, ctx, 4, &mut Src::random(7, 50)),
        _ => Ok(()),
      }
    }),
    Suite::enumerated("small-2nt-3", 48, 1, move |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 2, 1, 2, 3);
      match g {
        Some(g) if !src.dry() => check(&g, ctx, 4, &mut Src::random(7, 50)),
        _ => Ok(()),
      }
    }),
    Suite::random("null-unambiguous", 120_000, 2_000_000, |src: &mut Src, ctx: &mut Ctx| {
      let mut g = gen::null_unambiguous(src, Names::Distinct);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      check(&g, ctx, 4, src)
    }),
    Suite::random("random", 160_000, 1_280_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::grammar(src, Names::Distinct);
      ctx.label(label);
      check(&g, ctx, 4, src)
    }),
    Suite::random("chains", 60_000, 500_000, chain),
    Suite::random("many", 200, 4_000, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::many_nullable(src, Names::None, 7, 12);
      check(&g, ctx, 4, src).map_err(checks::short)
    }),
    Suite::random("extreme", 4_000, 40_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::extreme(src, Names::Distinct, 60);
      ctx.label(label);
      let g = gen::limit_nullable(src, &g, 5, 16);
      check(&g, ctx, 3, src)
    }),
  ];
  main_with(
    "C11",
    "A case is a well-formed grammar; failure of null removal is compared with the two conditions for it, and otherwise the bounded languages of all nonterminals before and after are compared, plus some longer derived sequences, and nullability of the result is computed. Non-trivial: null removal succeeds and some element is nullable.",
    &["languages are compared up to length 4 (5 on chains; less for large languages), longer sequences are sampled"],
    suites,
  )
}
