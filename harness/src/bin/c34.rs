//! C34: null removal keeps every derivation of a non-empty sequence.

use bongo::grammar::transform::nonnull::{transform_to_nonnull, ActionKey};
use bongo::parsers::earley;
use bongo::parsers::tree::TreeOwner;
use bongo::start_grammar::wrap_grammar_with_start;
use checks::nulls::read_nonnull;
use checks::parse::{check_exact, extract_with, reference, tokens, Complete};
use checks::{built, K, T, V};
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{word_str, Gram};
use std::collections::BTreeMap;

/// Words for a grammar.
enum Words {
  All(usize),
  Derived(usize),
}

fn check(g: &Gram, words: Words, src: &mut Src, ctx: &mut Ctx) -> Res {
  let b = built(g)?;
  let t = match caught_panic("null removal", || transform_to_nonnull(&b)).map_err(|m| format!("{:?}: {}", g, m))? {
    Ok(t) => t,
    Err(_) => {
      ctx.label("null removal fails");
      return Ok(());
    }
  };
  let (mut h, _) = read_nonnull(&t, g.n(), g.terms).map_err(|m| format!("{:?}: {}", g, m))?;
  // Number the action keys.
  let mut keys: BTreeMap<ActionKey<K>, u16> = BTreeMap::new();
  for r in t.rules() {
    for (p, m) in r.prods().zip(h.rules[r.head().0 as usize].iter_mut()) {
      let next = keys.len() as u16;
      m.key = *keys.entry(p.action_key().clone()).or_insert(next);
    }
  }
  let sg = caught_panic("wrapping", || wrap_grammar_with_start(t))
    .and_then(|r| r.map_err(|e| format!("wrapping fails: {:?}", e)))
    .map_err(|m| format!("{:?} becomes {:?}: {}", g, h, m))?;
  let words = match words {
    Words::All(len) => gen::all_words(g.terms, len, 40),
    Words::Derived(max) => {
      let mut ws: Vec<Vec<u16>> = vec![vec![]];
      for k in 0..4 {
        let target = src.urange(0, max);
        let from = if k == 3 { &h } else { g };
        if let Some(w) = gen::derived_word(src, from, target) {
          if w.len() <= max + 2 && !ws.contains(&w) {
            if k == 2 {
              ws.push(gen::mutate(src, &w, g.terms));
            }
            ws.push(w);
          }
        }
      }
      ws
    }
  };
  ctx.show(|| format!("{:?} becomes {:?}; {:?}", g, h, words.iter().map(|w| word_str(w)).collect::<Vec<_>>()));
  let (mut filled, mut several, mut cyclic) = (false, false, false);
  for w in &words {
    let fail = |m: String| format!("{:?} becomes {:?}\ninput {}: {}", g, h, word_str(w), m);
    let before = match reference(g, w, 4000) {
      None => {
        ctx.label("skipped: too many alternatives");
        continue;
      }
      Some(r) => r,
    };
    let after = match reference(&h, w, 4000) {
      None => {
        ctx.label("skipped: too many alternatives");
        continue;
      }
      Some(r) => r,
    };
    // The parser's view.
    let owner = TreeOwner::<T, ActionKey<K>, V>::new();
    let handle = owner.handle();
    let toks = tokens(w, |i| i as u32);
    let root = caught_panic("parsing with the null-free grammar", || earley::parse(&sg, &handle, toks)).map_err(&fail)?;
    ensure!(
      root.is_some() == (before.is_some() && !w.is_empty()),
      "{}",
      fail(format!(
        "the original grammar {} it, the parser {} it with the null-free grammar",
        if before.is_some() { "derives" } else { "does not derive" },
        if root.is_some() { "accepts" } else { "rejects" }
      ))
    );
    let (root, before, after) = match (root, before, after) {
      (None, ..) => continue,
      (Some(r), Some(b), Some(a)) => (r, b, a),
      _ => return Err(fail("the null-free grammar does not derive it".to_string())),
    };
    let x = before.shape_of_nonempty(g);
    let y = after.shape(&h);
    let least = x.min_sizes()[0].expect("derivable");
    let max = (least as usize + 8).min(40);
    let (a, b) = (x.sizes(max), y.sizes(max));
    for s in 0..=max {
      ensure!(
        a[s] == b[s],
        "{}",
        fail(format!(
          "{} derivations with {} branches that cover something, {} with as many branches after null removal",
          a[s], s, b[s]
        ))
      );
    }
    let show = |v: Option<u128>| v.map_or("infinitely many".to_string(), |v| v.to_string());
    ensure!(
      x.total() == y.total(),
      "{}",
      fail(format!("{} derivations before and {} after null removal", show(x.total()), show(y.total())))
    );
    let (f, _) = caught_panic("reading the forest", || {
      extract_with(&root, &mut |k| keys.get(&k).copied().unwrap_or(u16::MAX))
    })?;
    if let Complete::Unsettled = check_exact(&h, w, &after, &f).map_err(&fail)? {
      ctx.label("settled by counts only");
    }
    filled |= before.items.iter().any(|i| i.i == i.j);
    several |= after.alts.iter().any(|a| a.len() > 1);
    cyclic |= x.has_cycle();
  }
  ctx.label_if(filled, "some derivation has empty parts");
  ctx.label_if(several, "several derivations");
  ctx.label_if(cyclic, "infinitely many derivations");
  if filled {
    ctx.nontrivial(&(g, words));
  }
  Ok(())
}

fn small(n: usize, terms: u16, prods: usize, len: usize, max_word: usize) -> impl Fn(&mut Src, &mut Ctx) -> Res {
  move |src, ctx| {
    let g = gen::enumerate_small(src, n, terms, prods, len);
    match g {
      Some(g) if !src.dry() => check(&g, Words::All(max_word), src, ctx),
      _ => Ok(()),
    }
  }
}

fn main() {
  let suites = vec![
    Suite::enumerated("small-2nt", 1, 1, small(2, 1, 2, 2, 5)),
    Suite::enumerated("small-2nt-2t", 64, 1, small(2, 2, 2, 2, 4)),
    Suite::random("null-unambiguous", 30_000, 600_000, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::null_unambiguous(src, Names::Distinct);
      let max = if src.chance(1, 10) { 10 } else { 5 };
      check(&g, Words::Derived(max), src, ctx)
    }),
    Suite::random("random", 60_000, 1_000_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::grammar(src, Names::Distinct);
      ctx.label(label);
      check(&g, Words::Derived(5), src, ctx)
    }),
    Suite::random("chains", 30_000, 300_000, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::vanishing_chain(src, 14);
      check(&g, Words::Derived(5), src, ctx)
    }),
    Suite::random("extreme", 3_000, 30_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::extreme(src, Names::Distinct, 30);
      ctx.label(label);
      let g = gen::limit_nullable(src, &g, 4, 16);
      check(&g, Words::Derived(20), src, ctx)
    }),
  ];
  main_with(
    "C34",
    "A case is a well-formed grammar with input sequences; where null removal succeeds, the number of derivations of each size (counting branches that cover something) and in total is compared between the original and the null-free grammar, and the parser's forest for the wrapped null-free grammar with a reference forest of it. Non-trivial: some derivation of an input has parts that cover nothing.",
    &["derivations are compared by number per size up to 8 branches more than the smallest (at most 40), and in total"],
    suites,
  )
}
