//! C03: the parse forest contains every derivation exactly once.

use checks::long;
use checks::parse::{check_exact, extract, parse, reference, Complete, Owner};
use checks::wrapped;
use engine::{main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{word_str, Gram};

fn check_word(g: &Gram, sg: &checks::SG, w: &[u16], cap: usize, ctx: &mut Ctx) -> Result<bool, String> {
  let r = match reference(g, w, cap) {
    None => {
      ctx.label("skipped: too many alternatives");
      return Ok(false);
    }
    Some(None) => return Ok(false),
    Some(Some(r)) => r,
  };
  let owner = Owner::new();
  let handle = owner.handle();
  let fail = |m: String| format!("{:?}\ninput {}: {}", g, word_str(w), m);
  let root = match parse(sg, &handle, w, |i| i as u32).map_err(&fail)? {
    Some(r) => r,
    None => return Err(fail("every derivation is missing: no tree is returned".to_string())),
  };
  let (f, _) = engine::caught_panic("reading the forest", || extract(&root))?;
  let cyclic = r.shape(g).has_cycle();
  let several = r.alts.iter().any(|a| a.len() > 1);
  ctx.label_if(cyclic, "infinitely many derivations");
  ctx.label_if(several && !cyclic, "several derivations");
  ctx.label_if(!several, "one derivation");
  match check_exact(g, w, &r, &f).map_err(&fail)? {
    Complete::Yes => {}
    Complete::Unsettled => ctx.label("settled by counts only"),
  }
  Ok(several)
}

fn random(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label) = gen::grammar(src, Names::None);
  ctx.label(label);
  let max = if src.chance(1, 10) { 12 } else { 6 };
  let mut ws: Vec<Vec<u16>> = Vec::new();
  for _ in 0..4 {
    let target = src.urange(0, max);
    if let Some(w) = gen::derived_word(src, &g, target) {
      if w.len() <= max + 2 && !ws.contains(&w) {
        ws.push(w);
      }
    }
  }
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on {:?}", g, ws.iter().map(|w| word_str(w)).collect::<Vec<_>>()));
  let mut several = false;
  for w in &ws {
    several |= check_word(&g, &sg, w, 3000, ctx)?;
  }
  if several {
    ctx.nontrivial(&(g, ws));
  }
  Ok(())
}

/// Hundreds of elements, thousands of productions.
fn large(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label, w) = gen::large_with_word(src, 140);
  ctx.label(label);
  let sg = wrapped(&g)?;
  ctx.show(|| format!("a grammar of {} productions on {}", g.rules.iter().map(|r| r.len()).sum::<usize>(), word_str(&w)));
  check_word(&g, &sg, &w, 100_000, ctx)?;
  if w.len() > 1 {
    ctx.nontrivial(&(g, w));
  }
  Ok(())
}

/// Grammars with one large dimension.
fn extreme(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label, w) = gen::extreme_with_word(src, 40);
  ctx.label(label);
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on {}", g, word_str(&w)));
  if check_word(&g, &sg, &w, 20_000, ctx)? {
    ctx.nontrivial(&(g, w));
  }
  Ok(())
}

fn small(n: usize, terms: u16, prods: usize, len: usize, max_word: usize) -> impl Fn(&mut Src, &mut Ctx) -> Res {
  move |src, ctx| {
    let g = gen::enumerate_small(src, n, terms, prods, len);
    if src.dry() {
      return Ok(());
    }
    let g = match g {
      None => return Ok(()),
      Some(g) => g,
    };
    let sg = wrapped(&g)?;
    let mut several = false;
    for w in gen::all_words(terms, max_word, 40) {
      several |= check_word(&g, &sg, &w, 3000, ctx)?;
    }
    ctx.show(|| format!("{:?} on all words up to length {}", g, max_word));
    if several {
      ctx.nontrivial(&g);
    }
    Ok(())
  }
}

/// Highly ambiguous grammars on longer inputs: Catalan-like counts.
fn ambiguous_long(src: &mut Src, ctx: &mut Ctx) -> Res {
  const G: &[&[&str]] = &[
    &["AA|a"],
    &["AA|a|b"],
    &["AAA|AA|a"],
    &["AbA|a"],
    &["AaA|AbA|c"],
    &["aAbA|aA|c"],
    &["BB", "BB|a"],
    &["AB|BA|a", "BB|a"],
    &["BC", "bB|b|", "bC|b|"],
    &["BCD", "aB|", "aC|", "aD|"],
    &["AaB|B", "BaA|a"],
  ];
  let g = Gram::parse('A', *src.pick(G));
  let n = src.urange(3, 14);
  let w = match gen::derived_word(src, &g, n) {
    Some(w) if w.len() <= 20 => w,
    _ => return Ok(()),
  };
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on {}", g, word_str(&w)));
  ctx.label_if(w.len() >= 10, "ten or more tokens");
  if check_word(&g, &sg, &w, 20_000, ctx)? {
    ctx.nontrivial(&(g, w));
  }
  Ok(())
}

/// Local ambiguity over long inputs.
fn local_long(src: &mut Src, ctx: &mut Ctx) -> Res {
  const G: &[(&[&str], &[&str])] = &[
    // rules, blocks the words are made of
    (&["AB|", "b|C", "b|c"], &["b", "c"]),
    (&["AB|B", "bC|Cb|a", "bb|"], &["b", "bbb", "a"]),
    (&["AB|a", "bb|bC|Cb", "b"], &["bb"]),
    (&["AaB|B", "C|D", "c", "c|D"], &["ac"]),
  ];
  let which = src.idx(G.len());
  let g = Gram::parse('A', G[which].0);
  let n = *src.pick(&[20, 40, 70, 140]);
  let mut text = String::from(match which {
    2 => "a",
    3 => "c",
    _ => "",
  });
  while text.len() < n {
    text += src.pick(G[which].1);
  }
  let w: Vec<u16> = text.bytes().map(|b| (b - b'a') as u16).collect();
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on {}", g, word_str(&w)));
  ctx.label_if(w.len() >= 70, "seventy or more tokens");
  if check_word(&g, &sg, &w, 20_000, ctx)? {
    ctx.nontrivial(&(g, w));
  }
  Ok(())
}

/// Nonterminals that end together and begin far apart; there is one tree.
fn far_case(which: usize, d: &[usize], ctx: &mut Ctx) -> Res {
  let (g, w) = long::far(which, d);
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on {} tokens, distances {:?}", g, w.len(), d));
  let owner = Owner::new();
  let handle = owner.handle();
  let root = match parse(&sg, &handle, &w, |i| i as u32)? {
    Some(r) => r,
    None => return Err(format!("{:?}, distances {:?}: the derivation is missing: no tree is returned", g, d)),
  };
  let (f, _) = engine::caught_panic("reading the forest", || extract(&root))?;
  long::only_tree(&g, &w, &f, |i| i as u32)?;
  ctx.label_if(d.contains(&256), "256 apart");
  ctx.nontrivial(&(which, d));
  Ok(())
}

fn far(src: &mut Src, ctx: &mut Ctx) -> Res {
  let d = long::far_distances(src);
  let which = src.idx(4);
  far_case(which, &d, ctx)
}

const FIXED: &[(&[&str], &str)] = &[
  (&["BC|BD", "b|bb", "c|bc", "d"], "bbc"),
  (&["AA|a|"], "aaa"),
  (&["BCD", "aB|", "aC|", "aD|"], "aaa"),
  (&["BB", "A|a|"], "a"),
  (&["AB|a", "AA|"], "aa"),
  (&["BCB", "bC|", "cB|"], "bcbc"),
];

fn main() {
  let suites = vec![
    Suite::fixed("regressions", FIXED.len() as u64, |i, ctx| {
      let (rules, w) = FIXED[i as usize];
      let g = Gram::parse('A', rules);
      let w: Vec<u16> = w.bytes().map(|b| (b - b'a') as u16).collect();
      let sg = wrapped(&g)?;
      if check_word(&g, &sg, &w, 3000, ctx)? {
        ctx.nontrivial(&i);
      }
      Ok(())
    }),
    Suite::enumerated("small-1nt", 1, 1, small(1, 1, 3, 3, 5)),
    Suite::enumerated("small-2nt", 1, 1, small(2, 1, 2, 2, 4)),
    Suite::enumerated("small-2nt-2t", 16, 1, small(2, 2, 2, 2, 4)),
    Suite::random("random", 80_000, 2_000_000, random),
    Suite::random("ambiguous-long", 5_000, 40_000, ambiguous_long),
    Suite::random("local-long", 100, 3_000, local_long),
    Suite::random("far", 3_000, 30_000, far),
    Suite::fixed("farther", 2, |i, ctx| far_case(i as usize + 2, &[[65_536, 3], [65_535, 65_536]][i as usize], ctx)),
    Suite::random("extreme", 20_000, 40_000, extreme),
    Suite::random("large", 600, 6_000, large),
  ];
  main_with(
    "C03",
    "A case is a grammar with accepted words; the forest is compared with a reference forest of all derivations (number of trees of each size, total, a simulation showing that every reference derivation can be followed, and a product construction showing that no tree can be read in two ways). Non-trivial: some word has more than one derivation.",
    &["grammars are those of the generators: one rule per head, action keys unique within a rule", "for forests of more than 150 nodes with infinitely many derivations, uniqueness is decided for trees up to 8 branches more than the smallest (at most 40) only"],
    suites,
  )
}
