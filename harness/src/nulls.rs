//! Empty derivations and null removal.

use crate::{G, K, N, T, A};
use bongo::grammar::transform::nonnull::NonNullGrammar;
use bongo::grammar::{Elem as BElem, ProdKey};
use bongo::utils::{Name, TreeNode, TreeValue, Void};
pub use model::analyse::vanishing;
use model::{Elem, Gram, Prod, Sym};
use std::collections::BTreeMap;

pub type Tree = TreeNode<ProdKey<N, K>, Void>;

/// The unique empty derivation of a nullable nonterminal.
pub fn empty_tree(g: &Gram, keys: &BTreeMap<(u16, u16), ProdKey<N, K>>, null: &[bool], n: u16) -> (Tree, usize) {
  let p = g.rules[n as usize]
    .iter()
    .find(|p| {
      p.syms().all(|s| match s {
        Sym::T(_) => false,
        Sym::N(m) => null[m as usize],
      })
    })
    .expect("nullable");
  let mut fields = BTreeMap::new();
  let mut depth = 0;
  for e in &p.elems {
    if let (Some(name), Sym::N(m)) = (&e.name, e.sym) {
      let (t, d) = empty_tree(g, keys, null, m);
      depth = depth.max(d + 1);
      fields.insert(Name::new(name), TreeValue::Node(Box::new(t)));
    }
  }
  let key = keys[&(n, p.key)].clone();
  (TreeNode::new(key, fields), depth)
}

pub fn keys(b: &G) -> BTreeMap<(u16, u16), ProdKey<N, K>> {
  b.prods()
    .map(|p| ((p.head().0, p.action_key().0), p.prod_key()))
    .collect()
}

pub type NN = NonNullGrammar<T, N, K, A>;

/// The transformed grammar as plain data with nonterminals `0..n`; the second
/// part says which of them have a rule.
pub fn read_nonnull(b: &NN, n: usize, terms: u16) -> Result<(Gram, Vec<bool>), String> {
  let mut rules = vec![Vec::new(); n];
  let mut kept = vec![false; n];
  for r in b.rules() {
    let h = r.head().0 as usize;
    if h >= n || kept[h] {
      return Err(format!("a rule for {:?} comes out of nowhere or twice", r.head()));
    }
    kept[h] = true;
    for (i, p) in r.prods().enumerate() {
      let mut elems = Vec::new();
      for e in p.prod_elements() {
        let sym = match e.elem() {
          BElem::Term(t) => Sym::T(t.0),
          BElem::NonTerm(m) if (m.0 as usize) < n => Sym::N(m.0),
          BElem::NonTerm(m) => return Err(format!("{:?} comes out of nowhere", m)),
        };
        elems.push(Elem {
          name: e.id().map(|s| s.to_string()),
          sym,
        });
      }
      rules[h].push(Prod {
        key: i as u16,
        val: 0,
        elems,
      });
    }
  }
  let g = Gram {
    start: b.start_nt().0,
    terms,
    rules,
    decl: (0..n as u16).collect(),
  };
  for (h, p) in g.prods() {
    for s in p.syms() {
      if let Sym::N(m) = s {
        if !kept[m as usize] {
          return Err(format!("<{}> uses <{}>, which has no rule", h, m));
        }
      }
    }
  }
  Ok((g, kept))
}
