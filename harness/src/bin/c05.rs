//! C05: a grammar reports exactly what was built.

use checks::whole::{make, names, own, rename, same_grammar, Types, TEXTS};
use engine::{main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::Gram;
use std::fmt::Debug;

fn run<T, NT, AK, AV>(g: &Gram, ty: &Types<T, NT, AK, AV>, how: &[u8]) -> Res
where
  T: Clone + Eq + Debug,
  NT: Ord + Clone + Debug,
  AK: Ord + Clone + Debug,
  AV: Clone,
{
  let b = make(g, ty, how).map_err(|m| format!("{:?}: {}", g, m))?;
  same_grammar(g, &b, ty).map_err(|m| format!("{:?}: {}", g, m))?;
  let c = b.clone();
  same_grammar(g, &c, ty).map_err(|m| format!("clone of {:?}: {}", g, m))?;
  drop(b);
  same_grammar(g, &c, ty).map_err(|m| format!("clone of {:?} after the original is gone: {}", g, m))
}

fn own_types(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (mut g, label) = gen::grammar(src, Names::Distinct);
  ctx.label(label);
  rename(src, &mut g);
  let shared = gen::share_keys(src, &mut g);
  ctx.label_if(shared, "an action key twice in a rule");
  let how: Vec<u8> = (0..7).map(|_| src.below(4) as u8).collect();
  ctx.show(|| format!("{:?}", g));
  if g.prods().count() >= 2 {
    ctx.nontrivial(&g);
  }
  run(&g, &own(), &how)
}

/// bongo's own symbol types; terminals, nonterminals and keys share texts.
fn name_types(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (mut g, label) = gen::grammar(src, Names::Distinct);
  ctx.label(label);
  rename(src, &mut g);
  let shared = gen::share_keys(src, &mut g);
  ctx.label_if(shared, "an action key twice in a rule");
  let shift = src.idx(TEXTS.len());
  let how: Vec<u8> = (0..7).map(|_| src.below(4) as u8).collect();
  ctx.show(|| format!("{:?} with texts from {:?}", g, TEXTS[shift]));
  if g.prods().count() >= 2 {
    ctx.nontrivial(&(&g, shift));
  }
  run(&g, &names(shift), &how)
}

/// Large grammars: order has to be kept over many productions.
fn large(src: &mut Src, ctx: &mut Ctx) -> Res {
  let cfg = gen::Cfg {
    max_nts: 30,
    max_terms: 5,
    max_prods: *src.pick(&[3usize, 40]),
    max_len: *src.pick(&[3usize, 30]),
    p_nt: 40,
    p_empty: 10,
    p_base: 50,
    p_dup: 20,
    names: Names::Distinct,
  };
  let mut g = gen::with_cfg(src, &cfg);
  rename(src, &mut g);
  let how: Vec<u8> = (0..7).map(|_| src.below(4) as u8).collect();
  ctx.show(|| format!("{} rules, {} productions", g.n(), g.prods().count()));
  ctx.nontrivial(&g);
  run(&g, &own(), &how)
}

/// One large dimension.
fn extreme(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (mut g, label) = gen::extreme(src, Names::Distinct, 400);
  ctx.label(label);
  rename(src, &mut g);
  gen::share_keys(src, &mut g);
  let how: Vec<u8> = (0..7).map(|_| src.below(4) as u8).collect();
  ctx.show(|| format!("{} rules, {} productions", g.n(), g.prods().count()));
  ctx.nontrivial(&g);
  run(&g, &own(), &how)
}

/// One very large dimension.
fn huge(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label) = gen::huge(src, Names::Distinct, 66_000);
  ctx.label(label);
  let how: Vec<u8> = (0..7).map(|_| src.below(4) as u8).collect();
  ctx.show(|| format!("{}, {} rules, {} productions", label, g.n(), g.prods().count()));
  ctx.nontrivial(&g);
  run(&g, &own(), &how)
}

fn main() {
  let suites = vec![
    Suite::random("own-types", 200_000, 1_600_000, own_types),
    Suite::random("name-types", 120_000, 960_000, name_types),
    Suite::random("large", 2_000, 20_000, large),
    Suite::random("extreme", 20_000, 200_000, extreme),
    Suite::random("huge", 400, 4_000, huge).fuel(4_000_000_000, 4_000_000_000),
  ];
  main_with(
    "C05",
    "A case is a random well-formed grammar, handed to the builder through every entry point (values, references, element lists, closures) and read back through every accessor, from the grammar and from a clone. Non-trivial: at least two productions.",
    &[],
    suites,
  )
}
