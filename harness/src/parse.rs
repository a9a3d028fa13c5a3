//! Parsing with bongo and reading forests back.

use crate::{K, SG, T, V};
use bongo::parsers::earley;
use bongo::parsers::tree::{Node, NodeContent, TreeHandle, TreeOwner};
use bongo::parsers::Token;
use model::forest::{ref_trees, Alt, Forest, RefForest, Shape};
use model::lang::Spans;
use model::Gram;
use std::collections::BTreeMap;

pub type Owner = TreeOwner<T, K, V>;
pub type Handle<'a> = TreeHandle<'a, T, K, V>;
pub type FNode<'a> = Node<'a, T, K, V>;

pub fn tokens(w: &[u16], value: impl Fn(usize) -> u32) -> Vec<Token<T, V>> {
  w.iter()
    .enumerate()
    .map(|(i, t)| Token::new(T(*t), V(value(i))))
    .collect()
}

pub fn parse<'a>(
  sg: &'a SG,
  handle: &Handle<'a>,
  w: &[u16],
  value: impl Fn(usize) -> u32,
) -> Result<Option<FNode<'a>>, String> {
  let toks = tokens(w, value);
  engine::caught_panic("parsing", || earley::parse(sg, handle, toks))
}

/// Reads everything reachable from a node through the public interface.
pub fn extract<'a>(root: &FNode<'a>) -> (Forest, Vec<FNode<'a>>) {
  extract_with(root, &mut |k: K| k.0)
}

/// The same for other action keys, which are numbered by `key`.
pub fn extract_with<'a, AK: Ord + Clone>(
  root: &Node<'a, T, AK, V>,
  key: &mut dyn FnMut(AK) -> u16,
) -> (Forest, Vec<Node<'a, T, AK, V>>) {
  let mut index: BTreeMap<Node<'a, T, AK, V>, usize> = BTreeMap::new();
  let mut order = vec![root.clone()];
  index.insert(root.clone(), 0);
  let mut nodes = Vec::new();
  let mut k = 0;
  while k < order.len() {
    let node = order[k].clone();
    k += 1;
    let mut alts = Vec::new();
    for a in node.alts() {
      alts.push(match a.content() {
        NodeContent::Leaf(l) => Alt::Leaf {
          kind: l.kind().0,
          value: l.value().0,
        },
        NodeContent::Branch(b) => Alt::Branch {
          key: key(b.action()),
          kids: b
            .nodes()
            .map(|c| {
              let next = order.len();
              let order = &mut order;
              *index.entry(c.clone()).or_insert_with(|| {
                order.push(c.clone());
                next
              })
            })
            .collect(),
        },
      });
    }
    nodes.push(alts);
  }
  (Forest { nodes }, order)
}

/// Reference forest of an accepted word; None when it has too many
/// alternatives to be worth it, Some(None) when the word is not derivable.
pub fn reference(g: &Gram, w: &[u16], cap: usize) -> Option<Option<RefForest>> {
  let spans = Spans::new(g, w);
  match RefForest::new(g, w, &spans, cap) {
    None => Some(None),
    Some(Ok(f)) => Some(Some(f)),
    Some(Err(())) => None,
  }
}

pub enum Complete {
  Yes,
  /// Counts agree but the simulation does not settle it.
  Unsettled,
}

/// Does the forest contain exactly the derivations, each once? (`f` may be
/// unsound; then the counts differ or a tree is not found.)
pub fn check_exact(
  g: &Gram,
  w: &[u16],
  r: &RefForest,
  f: &Forest,
) -> Result<Complete, String> {
  let rs: Shape = r.shape(g);
  let fs = f.shape();
  let rmin = rs.min_sizes()[0].expect("accepted words have a derivation");
  let fmin = match fs.min_sizes()[0] {
    Some(m) => m,
    None => return Err("no tree can be read out of the forest".to_string()),
  };
  if fmin > rmin {
    return Err(format!(
      "the smallest derivation ({} branches) is missing, the smallest tree has {}",
      rmin, fmin
    ));
  }
  let max = (rmin as usize + 8).min(40);
  let a = rs.sizes(max);
  let b = fs.sizes(max);
  for s in 0..=max {
    if a[s] != b[s] {
      return Err(format!(
        "{} trees with {} branches can be read out, but there are {} such derivations",
        b[s], s, a[s]
      ));
    }
  }
  match (rs.total(), fs.total()) {
    (None, None) => {}
    (Some(x), Some(y)) if x == y => {}
    (x, y) => {
      let s = |v: Option<u128>| match v {
        None => "infinitely many".to_string(),
        Some(v) => v.to_string(),
      };
      // A cycle through a node that no finite tree uses is C02's business.
      return Err(format!(
        "{} trees can be read out, but there are {} derivations",
        s(y),
        s(x)
      ));
    }
  }
  if f.nodes.len() <= 150 {
    if let Some(m) = f.read_twice() {
      return Err(m);
    }
  }
  if let Ok(y) = f.check_sound(g, w) {
    if f.simulates(g, r, &y) {
      return Ok(Complete::Yes);
    }
  }
  // Compare the smallest trees one by one.
  let mut budget = 2000usize;
  for s in 1..=max {
    if a[s] > budget as u128 {
      break;
    }
    let mut x = ref_trees(g, r, w, 0, s, 4000);
    let mut y = f.trees(0, s, 4000);
    x.sort();
    y.sort();
    if x.len() > 4000 || y.len() > 4000 {
      break;
    }
    if x != y {
      let missing = x.iter().find(|t| !y.contains(t));
      let extra = y.iter().find(|t| !x.contains(t));
      let twice = y.windows(2).find(|w| w[0] == w[1]).map(|w| &w[0]);
      return Err(format!(
        "the trees with {} branches differ: missing {:?}, extra {:?}, read twice {:?}",
        s, missing, extra, twice
      ));
    }
    budget -= x.len().min(budget);
  }
  Ok(Complete::Unsettled)
}
