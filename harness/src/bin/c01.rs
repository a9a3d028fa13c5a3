//! C01: the Earley parser accepts exactly the grammar's language.

use checks::long;
use checks::parse::{parse, Owner};
use checks::wrapped;
use engine::{ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{lang, word_str, Gram};

fn check_word(g: &Gram, sg: &checks::SG, w: &[u16], expect: bool) -> Res {
  let owner = Owner::new();
  let got = parse(sg, &owner.handle(), w, |i| i as u32)
    .map_err(|m| format!("{} on {}", m, word_str(w)))?;
  ensure!(
    got.is_some() == expect,
    "{:?}\ninput {}: {} but the start symbol {} it",
    g,
    word_str(w),
    if got.is_some() { "accepted" } else { "not accepted" },
    if expect { "derives" } else { "does not derive" }
  );
  Ok(())
}

/// All words up to a length against the bounded language.
fn all_words(g: &Gram, max_len: usize, cap: usize, ctx: &mut Ctx) -> Res {
  // one kind more than the grammar mentions
  let k = g.terms + 1;
  let words = gen::all_words(k, max_len, cap);
  let longest = words.last().map_or(0, |w| w.len());
  let lang = match lang::bounded(g, longest, 20_000) {
    Some(l) => l,
    None => {
      ctx.label("skipped: language too large");
      return Ok(());
    }
  };
  let sg = wrapped(g)?;
  let (mut yes, mut no) = (0, 0);
  for w in &words {
    let e = lang[g.start as usize][w.len()].contains(w);
    if e {
      yes += 1
    } else {
      no += 1
    }
    check_word(g, &sg, w, e)?;
  }
  ctx.label_n("words accepted", yes);
  ctx.label_n("words rejected", no);
  ctx.label_if(yes == 0, "empty language (up to the bound)");
  ctx.label_if(lang[g.start as usize][0].len() == 1, "accepts the empty word");
  if yes > 0 && no > 0 {
    ctx.nontrivial(g);
  }
  ctx.show(|| format!("{:?} on all {} words up to length {}", g, words.len(), longest));
  Ok(())
}

fn small(n: usize, terms: u16, prods: usize, len: usize, max_word: usize) -> impl Fn(&mut Src, &mut Ctx) -> Res {
  move |src, ctx| {
    let g = gen::enumerate_small(src, n, terms, prods, len);
    if src.dry() {
      return Ok(());
    }
    match g {
      None => Ok(()),
      Some(g) => all_words(&g, max_word, 70, ctx),
    }
  }
}

fn random_small_words(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (mut g, label) = gen::grammar(src, Names::None);
  ctx.label(label);
  ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
  all_words(&g, 6, 50, ctx)
}

/// Derived and mutated words.
fn random_words(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (mut g, label) = gen::grammar(src, Names::None);
  ctx.label(label);
  ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
  let mut words: Vec<Vec<u16>> = Vec::new();
  let max = if src.chance(1, 10) { 14 } else { 8 };
  for _ in 0..3 {
    let target = src.urange(0, max);
    if let Some(w) = gen::derived_word(src, &g, target) {
      if w.len() <= max + 2 {
        words.push(gen::mutate(src, &w, g.terms + 1));
        words.push(w);
      }
    }
  }
  let len = src.urange(0, max);
  words.push((0..len).map(|_| src.below(g.terms as u64) as u16).collect());
  let sg = wrapped(&g)?;
  ctx.show(|| {
    format!(
      "{:?} on {:?}",
      g,
      words.iter().map(|w| word_str(w)).collect::<Vec<_>>()
    )
  });
  let mut yes = 0;
  for w in &words {
    let e = lang::earley_accepts(&g, w);
    if e && w.len() >= 2 {
      yes += 1;
    }
    ctx.label(if e { "words accepted" } else { "words rejected" });
    ctx.label_if(w.len() > 8, "words longer than 8");
    check_word(&g, &sg, w, e)?;
  }
  if yes > 0 {
    ctx.nontrivial(&(g, words));
  }
  Ok(())
}

/// Long inputs for grammars on which the parser stays polynomial of low order.
fn long_words(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, word) = long::grammar_and_word(src, false, &[40, 70, 130, 260, 300, 520, 700]);
  let bad = gen::mutate(src, &word, g.terms);
  let mut late = word.clone();
  if let Some(last) = late.last_mut() {
    *last = (*last + 1) % g.terms.max(2);
  }
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on a word of length {} and two mutants", g, word.len()));
  ctx.label_if(word.len() > 255, "longer than 255");
  ctx.label_if(word.len() > 512, "longer than 512");
  for w in [&word, &bad, &late] {
    let e = lang::earley_accepts(&g, w);
    ctx.label(if e { "words accepted" } else { "words rejected" });
    check_word(&g, &sg, w, e)?;
  }
  if word.len() > 30 {
    ctx.nontrivial(&(g, word));
  }
  Ok(())
}

/// Grammars with one large dimension.
fn extreme(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label, word) = gen::extreme_with_word(src, 60);
  word_and_mutants(src, g, label, word, ctx)
}

fn large(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label, word) = gen::large_with_word(src, 300);
  if label.ends_with("at once") {
    // Most productions should matter.
    let sg = wrapped(&g)?;
    for _ in 0..12 {
      if let Some(w) = gen::derived_word(src, &g, 3) {
        check_word(&g, &sg, &w, true)?;
      }
    }
  }
  word_and_mutants(src, g, label, word, ctx)
}

fn word_and_mutants(src: &mut Src, g: Gram, label: &'static str, word: Vec<u16>, ctx: &mut Ctx) -> Res {
  ctx.label(label);
  let sg = wrapped(&g)?;
  let bad = gen::mutate(src, &word, g.terms + 1);
  let worse = gen::mutate(src, &word, g.terms);
  ctx.show(|| {
    let n: usize = g.rules.iter().map(|r| r.len()).sum();
    let which = if n > 100 { format!("a grammar of {} productions", n) } else { format!("{:?}", g) };
    format!("{} on {} and two mutants", which, word_str(&word))
  });
  let mut yes = false;
  for w in [&word, &bad, &worse] {
    let e = lang::earley_accepts(&g, w);
    ctx.label(if e { "words accepted" } else { "words rejected" });
    check_word(&g, &sg, w, e)?;
    yes |= e && w.len() > 1;
  }
  if yes {
    ctx.nontrivial(&(g, word));
  }
  Ok(())
}

/// Inputs past 2^16 tokens.
fn huge(i: u64, ctx: &mut Ctx) -> Res {
  let g = Gram::parse('A', [&["Aa|b"][..], &["AB|", "a|b"][..]][i as usize % 2]);
  let n = 66_000 + i as usize * 100;
  let mut w = vec![0u16; n];
  w[0] = 1;
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on {} tokens", g, n));
  ctx.nontrivial(&i);
  check_word(&g, &sg, &w, true)?;
  // A foreign token where a truncated position would not see it.
  for at in [n - 1, 65_536] {
    let mut bad = w.clone();
    bad[at] = 2;
    check_word(&g, &sg, &bad, false)?;
  }
  Ok(())
}

/// Shapes that failed before the defects recorded in KNOWN_FINDINGS were fixed.
const FIXED: &[&[&str]] = &[
  &["aA|"],
  &["Ab|a"],
  &["BA|a", "|b"],
  &["BB", "|a"],
  &["A|a"],
  &["AA|a|"],
  &["BaB", "CC", "A|"],
  &["aB", "Bb"],
];

fn main() {
  let suites = vec![
    Suite::fixed("regressions", FIXED.len() as u64, |i, ctx| {
      all_words(&Gram::parse('A', FIXED[i as usize]), 6, 200, ctx)
    }),
    Suite::enumerated("small-1nt", 1, 1, small(1, 1, 3, 3, 5)),
    Suite::enumerated("small-1nt-2t", 8, 1, small(1, 2, 3, 3, 3)),
    Suite::enumerated("small-2nt", 1, 1, small(2, 1, 2, 2, 4)),
    Suite::enumerated("small-2nt-2t", 16, 1, small(2, 2, 2, 2, 3)),
    Suite::random("random-all-words", 40_000, 2_000_000, random_small_words),
    Suite::random("random-words", 60_000, 3_000_000, random_words),
    Suite::random("long-words", 3_000, 30_000, long_words),
    Suite::fixed("huge-words", 2, huge),
    Suite::random("extreme", 20_000, 40_000, extreme),
    Suite::random("large", 500, 6_000, large),
  ];
  main_with(
    "C01",
    "A case is a grammar with a set of words: every small grammar (stated shape) with all words up to a bound, or a random well-formed grammar with all short words, derived words, mutants of them and foreign tokens. Non-trivial: the case has at least one accepted and one rejected word, or an accepted word of two or more tokens (random words), or a word of more than 30 tokens (long words).",
    &["grammars are those of the generators: one rule per head", "termination is judged by a budget of operations per case"],
    suites,
  )
}
