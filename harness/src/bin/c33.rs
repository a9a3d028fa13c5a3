//! C33: symbols, elements and keys are values.

use bongo::grammar::{Elem, NonTerminal, ProdElement, Terminal};
use bongo::start_grammar::{StartActionKey, StartNonTerminal, StreamTerminal};
use bongo::utils::{Name, TreeNode, TreeValue};
use checks::order::{ordered_as, total_order};
use checks::{whole, K, N, T};
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn hash(x: &impl Hash) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

/// Equal and ordered by identity; clones are the same; sets and maps agree.
fn values<X: Ord + Clone, I: Ord + Clone + Debug>(xs: &[(I, X)], what: &str) -> Res {
  let mut all: Vec<(I, X)> = xs.to_vec();
  all.extend(xs.iter().map(|(i, x)| (i.clone(), x.clone())));
  caught_panic("comparing", || total_order(&all, what))??;
  let set: BTreeSet<&X> = all.iter().map(|x| &x.1).collect();
  let ids: BTreeSet<&I> = all.iter().map(|x| &x.0).collect();
  ensure!(set.len() == ids.len(), "{} different {} make a set of {}", ids.len(), what, set.len());
  Ok(())
}

fn hashed<X: Hash + Eq, I: Ord + Debug>(xs: &[(I, X)], what: &str) -> Res {
  for (i, x) in xs {
    for (j, y) in xs {
      ensure!(i != j || hash(x) == hash(y), "{} {:?} have different hashes", what, i);
    }
  }
  let set: HashSet<&X> = xs.iter().map(|x| &x.1).collect();
  let ids: BTreeSet<&I> = xs.iter().map(|x| &x.0).collect();
  ensure!(set.len() == ids.len(), "{} different {} make a hash set of {}", ids.len(), what, set.len());
  Ok(())
}

fn text(src: &mut Src) -> String {
  if src.flag() {
    src.pick(&["a", "b", "ab", ""]).to_string()
  } else {
    src.pick(whole::TEXTS).to_string()
  }
}

/// bongo's symbols.
fn symbols(src: &mut Src, ctx: &mut Ctx) -> Res {
  let texts: Vec<String> = (0..src.urange(2, 7)).map(|_| text(src)).collect();
  let ts: Vec<(String, Terminal)> = texts.iter().map(|t| (t.clone(), Terminal::new(t))).collect();
  let ns: Vec<(String, NonTerminal)> = texts.iter().map(|t| (t.clone(), NonTerminal::new(t))).collect();
  values(&ts, "terminals")?;
  values(&ns, "nonterminals")?;
  ordered_as(&ts, "terminals")?;
  ordered_as(&ns, "nonterminals")?;
  hashed(&ts, "terminals")?;
  hashed(&ns, "nonterminals")?;
  ctx.show(|| format!("{:?}", texts));
  let distinct: BTreeSet<_> = texts.iter().collect();
  if distinct.len() > 1 && distinct.len() < texts.len() {
    ctx.nontrivial(&texts);
  }
  Ok(())
}

/// (terminal or not, which).
type E = (bool, u16);

fn elems<TT, NN>(
  ids: &[(Option<String>, E)],
  t: impl Fn(u16) -> TT,
  n: impl Fn(u16) -> NN,
) -> Res
where
  TT: Ord + Clone + Debug,
  NN: Ord + Clone + Debug,
{
  let make = |e: &E| if e.0 { Elem::Term(t(e.1)) } else { Elem::NonTerm(n(e.1)) };
  let es: Vec<(E, Elem<TT, NN>)> = ids.iter().map(|(_, e)| (*e, make(e))).collect();
  values(&es, "elements")?;
  let refs: Vec<(E, Elem<&TT, &NN>)> = es.iter().map(|(i, e)| (*i, e.as_ref())).collect();
  values(&refs, "references to elements")?;
  for (i, e) in &es {
    let want = if i.0 { (Some(t(i.1)), None) } else { (None, Some(n(i.1))) };
    ensure!(
      e.as_term() == want.0.as_ref() && e.as_nonterm() == want.1.as_ref(),
      "element {:?} is the terminal {:?} and the nonterminal {:?}",
      i,
      e.as_term(),
      e.as_nonterm()
    );
    let r = e.as_ref();
    ensure!(
      r.as_term() == e.as_term().as_ref() && r.as_nonterm() == e.as_nonterm().as_ref(),
      "the reference to element {:?} is {:?}",
      i,
      r
    );
  }
  let ps: Vec<((Option<String>, E), ProdElement<TT, NN>)> = ids
    .iter()
    .enumerate()
    .map(|(k, (name, e))| {
      let el = make(e);
      let p = match (name, k % 2) {
        (None, 0) => ProdElement::new_empty(el),
        (None, _) => el.into(),
        (Some(x), 0) => ProdElement::new_with_name(Name::new(x), el),
        (x, _) => ProdElement::new(x.as_ref().map(Name::new), el),
      };
      ((name.clone(), *e), p)
    })
    .collect();
  values(&ps, "named elements")?;
  for ((name, e), p) in &ps {
    ensure!(
      p.id().map(|x| x.str().to_string()) == *name && *p.elem() == make(e),
      "named element {:?} {:?} has the name {:?} and the element {:?}",
      name,
      e,
      p.id(),
      p.elem()
    );
  }
  Ok(())
}

fn elements(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(2, 8);
  let range = src.urange(1, 4) as u64;
  let ids: Vec<(Option<String>, E)> = (0..n)
    .map(|_| {
      let name = if src.flag() { Some(text(src)) } else { None };
      (name, (src.flag(), src.below(range) as u16))
    })
    .collect();
  ctx.show(|| format!("{:?}", ids));
  elems(&ids, T, N)?;
  elems(&ids, |i| Terminal::new(whole::TEXTS[i as usize]), |i| NonTerminal::new(whole::TEXTS[i as usize]))?;
  // The same type for both.
  elems(&ids, |i| i, |i| i)?;
  let distinct: BTreeSet<_> = ids.iter().collect();
  if distinct.len() > 1 && distinct.len() < ids.len() {
    ctx.nontrivial(&ids);
  }
  Ok(())
}

/// Symbols and keys of start-wrapped grammars.
fn start(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(2, 8);
  let range = src.urange(1, 4) as u64;
  let ids: Vec<Option<u16>> =
    (0..n).map(|_| if src.chance(1, 4) { None } else { Some(src.below(range) as u16) }).collect();
  ctx.show(|| format!("{:?}", ids));
  let ts: Vec<_> =
    ids.iter().map(|i| (*i, i.map_or(StreamTerminal::EndOfStream, |i| StreamTerminal::Term(T(i))))).collect();
  let ns: Vec<_> = ids.iter().map(|i| (*i, i.map_or(StartNonTerminal::Start, |i| StartNonTerminal::NTerm(N(i))))).collect();
  let ks: Vec<_> =
    ids.iter().map(|i| (*i, i.map_or(StartActionKey::Start, |i| StartActionKey::ActionKey(K(i))))).collect();
  values(&ts, "stream terminals")?;
  values(&ns, "start nonterminals")?;
  values(&ks, "start action keys")?;
  for (i, t) in &ts {
    ensure!(t.is_eos() == i.is_none(), "is_eos of {:?} is {}", i, t.is_eos());
    for k in 0..4 {
      ensure!(t.has_kind(&T(k)) == (*i == Some(k)), "{:?} has kind {}: {}", i, k, t.has_kind(&T(k)));
    }
  }
  for (i, k) in &ks {
    ensure!(k.as_base().map(|k| k.0) == *i, "the base of key {:?} is {:?}", i, k.as_base());
  }
  let distinct: BTreeSet<_> = ids.iter().collect();
  if distinct.len() > 1 && distinct.len() < ids.len() {
    ctx.nontrivial(&ids);
  }
  Ok(())
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Tree {
  Leaf(u16),
  Node(u16, BTreeMap<String, Tree>),
}

fn tree(src: &mut Src, depth: usize) -> Tree {
  let k = src.below(2) as u16;
  if depth == 0 || src.chance(1, 3) {
    return Tree::Leaf(k);
  }
  let n = src.idx(3);
  Tree::Node(k, (0..n).map(|_| (src.pick(&["a", "b", ""]).to_string(), tree(src, depth - 1))).collect())
}

fn tree_value(t: &Tree) -> TreeValue<K, u16> {
  match t {
    Tree::Leaf(v) => TreeValue::Leaf(*v),
    Tree::Node(..) => TreeValue::Node(Box::new(tree_node(t))),
  }
}

fn tree_node(t: &Tree) -> TreeNode<K, u16> {
  match t {
    Tree::Leaf(v) => TreeNode::from_action(K(*v)),
    Tree::Node(k, m) if m.is_empty() && *k == 1 => TreeNode::from_action(K(*k)),
    Tree::Node(k, m) => TreeNode::new(K(*k), m.iter().map(|(n, t)| (Name::new(n), tree_value(t))).collect()),
  }
}

fn trees(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(2, 6);
  let mut ids: Vec<Tree> = Vec::new();
  for i in 0..n {
    let t = if i > 0 && src.chance(1, 4) { ids[src.idx(i)].clone() } else { tree(src, 2) };
    ids.push(t);
  }
  ctx.show(|| format!("{:?}", ids));
  let vs: Vec<_> = ids.iter().map(|t| (t.clone(), tree_value(t))).collect();
  values(&vs, "tree values")?;
  let ns: Vec<_> = ids.iter().filter(|t| matches!(t, Tree::Node(..))).map(|t| (t.clone(), tree_node(t))).collect();
  values(&ns, "tree nodes")?;
  let distinct: BTreeSet<_> = ids.iter().collect();
  if distinct.len() > 1 && distinct.len() < ids.len() {
    ctx.nontrivial(&format!("{:?}", ids));
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("symbols", 320_000, 2_560_000, symbols),
    Suite::random("elements", 200_000, 1_600_000, elements),
    Suite::random("start symbols", 400_000, 3_200_000, start),
    Suite::random("trees", 320_000, 2_560_000, trees),
  ];
  main_with(
    "C33",
    "A case is a list of terminals and nonterminals, elements with and without names, symbols and keys of start-wrapped grammars, or action trees, many of them equal in content; all pairs (clones included) are compared, hashed and collected in sets, and every accessor is called. Non-trivial: two values are equal and two are not.",
    &["the order of values that are not texts is only required to be total and to agree with equality"],
    suites,
  )
}
