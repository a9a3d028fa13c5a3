//! C02: every tree in a parse forest is a real derivation of the input.

use checks::long;
use checks::parse::{extract, parse, Owner};
use checks::wrapped;
use engine::{ensure, main_with, Ctx, Res, Src, Suite};
use model::forest::{Alt, Forest};
use model::gen::{self, Names};
use model::{word_str, Gram, Sym};

/// One tree drawn from the forest: alternatives chosen at random near the
/// root, then the ones that lead to a leaf soonest.
enum Tree {
  Leaf(u16, u32),
  Branch(u16, Vec<Tree>),
}

fn draw(
  src: &mut Src,
  f: &Forest,
  height: &[u32],
  node: usize,
  free: &mut i32,
) -> Option<Tree> {
  let alts = &f.nodes[node];
  let rank = |a: &Alt| match a {
    Alt::Leaf { .. } => 0,
    Alt::Branch { kids, .. } => {
      kids.iter().map(|k| height[*k]).max().unwrap_or(0).saturating_add(1)
    }
  };
  let a = if *free > 0 {
    *free -= 1;
    src.pick(alts)
  } else {
    alts.iter().min_by_key(|a| rank(a))?
  };
  Some(match a {
    Alt::Leaf { kind, value } => Tree::Leaf(*kind, *value),
    Alt::Branch { key, kids } => {
      let mut v = Vec::new();
      for k in kids {
        v.push(draw(src, f, height, *k, free)?);
      }
      Tree::Branch(*key, v)
    }
  })
}

fn derivation(g: &Gram, t: &Tree, s: Sym, out: &mut Vec<(u16, u32)>) -> Res {
  match (t, s) {
    (Tree::Leaf(k, v), Sym::T(x)) => {
      ensure!(*k == x, "a leaf of kind {} stands for terminal {}", k, x);
      out.push((*k, *v));
      Ok(())
    }
    (Tree::Branch(k, kids), Sym::N(n)) => {
      let p = g.rules[n as usize].iter().find(|p| p.key == *k);
      let p = p.ok_or_else(|| format!("<{}> has no production with action {}", n, k))?;
      ensure!(
        p.elems.len() == kids.len(),
        "{} children for a production of {} elements (action {} of <{}>)",
        kids.len(),
        p.elems.len(),
        k,
        n
      );
      for (c, e) in kids.iter().zip(p.syms()) {
        derivation(g, c, e, out)?;
      }
      Ok(())
    }
    (Tree::Leaf(k, _), Sym::N(n)) => Err(format!("a leaf of kind {} stands for <{}>", k, n)),
    (Tree::Branch(k, _), Sym::T(n)) => Err(format!("a branch with action {} stands for terminal {}", k, n)),
  }
}

/// Least tree height per node; u32::MAX where no finite tree exists.
fn heights(f: &Forest) -> Vec<u32> {
  let mut h = vec![u32::MAX; f.nodes.len()];
  loop {
    let mut changed = false;
    for (i, alts) in f.nodes.iter().enumerate() {
      for a in alts {
        let v = match a {
          Alt::Leaf { .. } => 0,
          Alt::Branch { kids, .. } => kids.iter().map(|k| h[*k]).max().unwrap_or(0).saturating_add(1),
        };
        if v < h[i] {
          h[i] = v;
          changed = true;
        }
      }
    }
    if !changed {
      return h;
    }
  }
}

/// Distinct token values: the whole forest is checked.
fn check_word(g: &Gram, sg: &checks::SG, w: &[u16], ctx: &mut Ctx) -> Result<bool, String> {
  let owner = Owner::new();
  let handle = owner.handle();
  // A parse that fails outright is C01's business.
  let root = match parse(sg, &handle, w, |i| i as u32) {
    Ok(Some(r)) => r,
    _ => return Ok(false),
  };
  let (f, _) = engine::caught_panic("reading the forest", || extract(&root))?;
  ctx.label("forests");
  ctx.label_if(f.shape().has_cycle(), "cyclic forests");
  ctx.label_if(
    f.nodes.iter().any(|a| a.len() > 1),
    "forests with several trees",
  );
  f.check_sound(g, w)
    .map_err(|m| format!("{:?}\ninput {}: {}", g, word_str(w), m))?;
  Ok(f.nodes.len() > 4)
}

/// Repeated (or all equal) token values: trees drawn from the forest.
fn check_drawn(src: &mut Src, g: &Gram, sg: &checks::SG, w: &[u16], ctx: &mut Ctx) -> Res {
  let owner = Owner::new();
  let handle = owner.handle();
  let period = src.urange(1, 3);
  let value = |i: usize| (i % period) as u32 * 7;
  let root = match parse(sg, &handle, w, value) {
    Ok(Some(r)) => r,
    _ => return Ok(()),
  };
  let (f, _) = extract(&root);
  let h = heights(&f);
  ensure!(
    h.iter().all(|x| *x != u32::MAX),
    "{:?}\ninput {} with values repeating after {}: a node without finite tree",
    g,
    word_str(w),
    period
  );
  let want: Vec<(u16, u32)> = w.iter().enumerate().map(|(i, k)| (*k, value(i))).collect();
  for _ in 0..6 {
    let mut free = 30;
    let t = draw(src, &f, &h, 0, &mut free)
      .ok_or_else(|| "a node without alternatives".to_string())?;
    let mut leaves = Vec::new();
    derivation(g, &t, Sym::N(g.start), &mut leaves)
      .map_err(|m| format!("{:?}\ninput {}: {}", g, word_str(w), m))?;
    ensure!(
      leaves == want,
      "{:?}\ninput {}: a tree has the leaves {:?} instead of {:?}",
      g,
      word_str(w),
      leaves,
      want
    );
    ctx.label("trees drawn with repeated token values");
  }
  Ok(())
}

fn words(src: &mut Src, g: &Gram, max: usize) -> Vec<Vec<u16>> {
  let mut words: Vec<Vec<u16>> = Vec::new();
  for _ in 0..3 {
    let target = src.urange(0, max);
    if let Some(w) = gen::derived_word(src, g, target) {
      if w.len() <= max + 2 {
        words.push(w);
      }
    }
  }
  // not only accepted inputs: a tree for anything else is wrong as well
  let len = src.urange(0, max.min(5));
  words.push((0..len).map(|_| src.below(g.terms as u64) as u16).collect());
  words
}

fn random(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label) = gen::grammar(src, Names::None);
  ctx.label(label);
  let max = if src.chance(1, 10) { 12 } else { 6 };
  let ws = words(src, &g, max);
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on {:?}", g, ws.iter().map(|w| word_str(w)).collect::<Vec<_>>()));
  let mut big = false;
  for w in &ws {
    big |= check_word(&g, &sg, w, ctx)?;
  }
  let k = src.idx(ws.len());
  check_drawn(src, &g, &sg, &ws[k], ctx)?;
  if big {
    ctx.nontrivial(&(g, ws));
  }
  Ok(())
}

/// Long inputs: the one tree there is, read without recursion.
fn long(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, w) = long::grammar_and_word(src, true, &[40, 70, 130, 260, 300, 520]);
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on a word of length {}", g, w.len()));
  let owner = Owner::new();
  let handle = owner.handle();
  let same = src.chance(1, 3);
  let value = |i: usize| if same { 5 } else { i as u32 };
  let root = match parse(&sg, &handle, &w, value) {
    Ok(Some(r)) => r,
    _ => return Ok(()),
  };
  let (f, _) = engine::caught_panic("reading the forest", || extract(&root))?;
  long::only_tree(&g, &w, &f, value)?;
  ctx.label_if(w.len() > 255, "longer than 255");
  if w.len() > 30 {
    ctx.nontrivial(&(g, w));
  }
  Ok(())
}

/// Nonterminals that end together and begin far apart.
fn far_case(which: usize, d: &[usize], ctx: &mut Ctx) -> Res {
  let (g, w) = long::far(which, d);
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on {} tokens, distances {:?}", g, w.len(), d));
  let owner = Owner::new();
  let handle = owner.handle();
  let root = match parse(&sg, &handle, &w, |i| i as u32) {
    Ok(Some(r)) => r,
    _ => return Ok(()),
  };
  let (f, _) = engine::caught_panic("reading the forest", || extract(&root))?;
  long::only_tree(&g, &w, &f, |i| i as u32)?;
  ctx.label_if(d.contains(&256), "256 apart");
  ctx.nontrivial(&(which, d));
  Ok(())
}

fn far(src: &mut Src, ctx: &mut Ctx) -> Res {
  let d = long::far_distances(src);
  let which = src.idx(4);
  far_case(which, &d, ctx)
}

/// Hundreds of elements, thousands of productions.
fn large(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label, w) = gen::large_with_word(src, 300);
  ctx.label(label);
  let sg = wrapped(&g)?;
  ctx.show(|| format!("a grammar of {} productions on {}", g.rules.iter().map(|r| r.len()).sum::<usize>(), word_str(&w)));
  check_word(&g, &sg, &w, ctx)?;
  if w.len() > 1 {
    ctx.nontrivial(&(g, w));
  }
  Ok(())
}

/// Grammars with one large dimension.
fn extreme(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label, w) = gen::extreme_with_word(src, 40);
  ctx.label(label);
  let sg = wrapped(&g)?;
  ctx.show(|| format!("{:?} on {}", g, word_str(&w)));
  if check_word(&g, &sg, &w, ctx)? {
    ctx.nontrivial(&(g, w));
  }
  Ok(())
}

fn small(n: usize, terms: u16, prods: usize, len: usize, max_word: usize) -> impl Fn(&mut Src, &mut Ctx) -> Res {
  move |src, ctx| {
    let g = gen::enumerate_small(src, n, terms, prods, len);
    if src.dry() {
      return Ok(());
    }
    let g = match g {
      None => return Ok(()),
      Some(g) => g,
    };
    let sg = wrapped(&g)?;
    let mut big = false;
    for w in gen::all_words(terms, max_word, 40) {
      big |= check_word(&g, &sg, &w, ctx)?;
    }
    ctx.show(|| format!("{:?} on all words up to length {}", g, max_word));
    if big {
      ctx.nontrivial(&g);
    }
    Ok(())
  }
}

const FIXED: &[(&[&str], &str)] = &[
  (&["BC|BD", "b|bb", "c|bc", "d"], "bbc"),
  (&["AA|a|"], "aaa"),
  (&["aBc|aCd", "Bb|b", "bC|b"], "abbbc"),
  (&["BB", "A|a|"], "a"),
  (&["AB|a", "AA|"], "aa"),
  (&["BCB", "bC|", "cB|"], "bcbc"),
];

fn main() {
  let suites = vec![
    Suite::fixed("regressions", FIXED.len() as u64, |i, ctx| {
      let (rules, w) = FIXED[i as usize];
      let g = Gram::parse('A', rules);
      let w: Vec<u16> = w.bytes().map(|b| (b - b'a') as u16).collect();
      let sg = wrapped(&g)?;
      if check_word(&g, &sg, &w, ctx)? {
        ctx.nontrivial(&i);
      }
      Ok(())
    }),
    Suite::enumerated("small-1nt", 1, 1, small(1, 1, 3, 3, 5)),
    Suite::enumerated("small-2nt", 1, 1, small(2, 1, 2, 2, 4)),
    Suite::enumerated("small-2nt-2t", 16, 1, small(2, 2, 2, 2, 4)),
    Suite::random("random", 120_000, 3_000_000, random),
    Suite::random("long", 4_800, 38_400, long),
    Suite::random("far", 3_000, 30_000, far),
    Suite::fixed("farther", 2, |i, ctx| far_case(i as usize, &[[65_536, 3], [65_535, 65_536]][i as usize], ctx)),
    Suite::random("extreme", 20_000, 40_000, extreme),
    Suite::random("large", 2_000, 20_000, large),
  ];
  main_with(
    "C02",
    "A case is a grammar with words; the forests returned are read completely (token values distinct, so that each node has one yield) or trees are drawn from them (token values repeated). Non-trivial: a forest with more than four nodes was read.",
    &["grammars are those of the generators: one rule per head, action keys unique within a rule", "inputs on which parsing returns no tree are not judged here (C01)"],
    suites,
  )
}
