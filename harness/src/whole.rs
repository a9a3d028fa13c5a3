//! Building a grammar of any symbol types through every builder entry point and
//! comparing it with the model through every accessor.

use bongo::grammar::{self, build, Elem, Grammar, Prod, ProdElement};
use bongo::utils::Name;
use engine::{caught_panic, ensure, ensure_eq, Res};
use model::{Gram, Sym};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

/// How the model's numbers become values of the grammar's types.
pub struct Types<T, NT, AK, AV> {
  pub t: Box<dyn Fn(u16) -> T>,
  pub nt: Box<dyn Fn(u16) -> NT>,
  pub ak: Box<dyn Fn(u16) -> AK>,
  pub av: Box<dyn Fn(u16) -> AV>,
  pub same_av: Box<dyn Fn(&AV, u16) -> bool>,
}

pub fn make<T, NT, AK, AV>(g: &Gram, ty: &Types<T, NT, AK, AV>, how: &[u8]) -> Result<Grammar<T, NT, AK, AV>, String>
where
  T: Clone,
  NT: Ord + Clone + Debug,
  AK: Ord + Clone,
  AV: Clone,
{
  // The builder functions take values or references; each way is used.
  let mut turn = 0;
  let mut next = || {
    turn += 1;
    how[turn % how.len()]
  };
  let start = (ty.nt)(g.start);
  let by_ref = next() % 2 == 0;
  let body = |gb: &mut grammar::GrammarBuilder<T, NT, AK, AV>| {
    for h in &g.decl {
      let head = (ty.nt)(*h);
      let how_rule = next();
      let body = |rb: &mut grammar::RuleBuilder<T, NT, AK, AV>| {
        for p in &g.rules[*h as usize] {
          let (k, v) = ((ty.ak)(p.key), (ty.av)(p.val));
          match next() % 4 {
            0 => {
              let mut elems = Vec::new();
              for e in &p.elems {
                let el = match e.sym {
                  Sym::T(t) => Elem::Term((ty.t)(t)),
                  Sym::N(n) => Elem::NonTerm((ty.nt)(n)),
                };
                elems.push(match (&e.name, next() % 2) {
                  (None, 0) => ProdElement::new_empty(el),
                  (None, _) => ProdElement::from(el),
                  (Some(n), 0) => ProdElement::new_with_name(Name::new(n), el),
                  (Some(n), _) => ProdElement::new(Some(Name::new(n)), el),
                });
              }
              rb.add_prod_with_elems(k, v, elems);
            }
            other => {
              let pbody = |pb: &mut grammar::ProductionBuilder<T, NT, AK, AV>| {
                for e in &p.elems {
                  match (&e.name, e.sym, next() % 2) {
                    (None, Sym::T(t), 0) => pb.add_term((ty.t)(t)),
                    (None, Sym::T(t), _) => pb.add_term(&(ty.t)(t)),
                    (None, Sym::N(n), 0) => pb.add_nonterm((ty.nt)(n)),
                    (None, Sym::N(n), _) => pb.add_nonterm(&(ty.nt)(n)),
                    (Some(s), Sym::T(t), 0) => pb.add_named_term(Name::new(s), (ty.t)(t)),
                    (Some(s), Sym::T(t), _) => pb.add_named_term(s.as_str(), &(ty.t)(t)),
                    (Some(s), Sym::N(n), 0) => pb.add_named_nonterm(&Name::new(s), (ty.nt)(n)),
                    (Some(s), Sym::N(n), _) => pb.add_named_nonterm(s.as_str(), &(ty.nt)(n)),
                  };
                }
              };
              if other == 1 {
                rb.add_prod(&k, &v, pbody);
              } else {
                rb.add_prod(k, v, pbody);
              }
            }
          }
        }
      };
      if how_rule % 2 == 0 {
        gb.add_rule(&head, body);
      } else {
        gb.add_rule(head, body);
      }
    }
  };
  let r = caught_panic("build", || {
    if by_ref {
      build(&start, body)
    } else {
      build(start, body)
    }
  })?;
  r.map_err(|e| format!("a well-formed grammar is rejected: {:?}", e))
}

fn same_prod<T, NT, AK, AV>(
  p: &Prod<T, NT, AK, AV>,
  h: u16,
  m: &model::Prod,
  ty: &Types<T, NT, AK, AV>,
) -> Res
where
  T: Clone + Eq + Debug,
  NT: Ord + Clone + Debug,
  AK: Ord + Clone + Debug,
{
  let what = || format!("production {} of <{}>", m.key, h);
  ensure_eq!(p.head(), &(ty.nt)(h), "{}: head", what());
  ensure_eq!(p.action_key(), &(ty.ak)(m.key), "{}: action key", what());
  ensure!((ty.same_av)(p.action_value(), m.val), "{}: another action value", what());
  let n = m.elems.len();
  ensure_eq!(p.num_elements(), n, "{}: num_elements", what());
  ensure_eq!(p.prod_elements().len(), n, "{}: number of elements", what());
  ensure_eq!(p.elements().count(), n, "{}: number of elements()", what());
  let elems: Vec<&Elem<T, NT>> = p.elements().collect();
  for (i, e) in m.elems.iter().enumerate() {
    let want: Elem<T, NT> = match e.sym {
      Sym::T(t) => Elem::Term((ty.t)(t)),
      Sym::N(x) => Elem::NonTerm((ty.nt)(x)),
    };
    let pe = &p.prod_elements()[i];
    ensure!(
      pe.elem() == &want && elems[i] == &want,
      "{}: element {} is {:?} / {:?} instead of {:?}",
      what(),
      i,
      pe.elem(),
      elems[i],
      want
    );
    match e.sym {
      Sym::T(t) => {
        ensure!(
          pe.elem().as_term() == Some(&(ty.t)(t)) && pe.elem().as_nonterm().is_none(),
          "{}: element {} is not the terminal",
          what(),
          i
        );
        ensure!(matches!(pe.elem().as_ref(), Elem::Term(x) if *x == (ty.t)(t)), "{}: as_ref of element {}", what(), i);
      }
      Sym::N(x) => {
        ensure!(
          pe.elem().as_nonterm() == Some(&(ty.nt)(x)) && pe.elem().as_term().is_none(),
          "{}: element {} is not the nonterminal",
          what(),
          i
        );
        ensure!(matches!(pe.elem().as_ref(), Elem::NonTerm(y) if *y == (ty.nt)(x)), "{}: as_ref of element {}", what(), i);
      }
    }
    ensure_eq!(
      pe.id().map(|n| n.str().to_string()),
      e.name.clone(),
      "{}: name of element {}",
      what(),
      i
    );
  }
  // Far outside, too.
  let beyond = [256, 1 << 16, 1 << 31, 1 << 32].into_iter().flat_map(|k| [k, k + n / 2, k + n]).filter(|k| *k >= n);
  for i in (0..n + 3).chain(beyond) {
    ensure!(
      p.element_at(i) == elems.get(i).copied(),
      "{}: element_at({}) is {:?}",
      what(),
      i,
      p.element_at(i)
    );
    ensure!(
      p.prod_element_at(i) == p.prod_elements().get(i),
      "{}: prod_element_at({}) is {:?}",
      what(),
      i,
      p.prod_element_at(i)
    );
  }
  ensure!(p.element_at(usize::MAX).is_none(), "{}: element_at(MAX)", what());
  ensure!(p.prod_element_at(usize::MAX).is_none(), "{}: prod_element_at(MAX)", what());
  ensure!(p.first_elem() == elems.first().copied(), "{}: first_elem", what());
  let key = p.prod_key();
  ensure_eq!(key.head(), &(ty.nt)(h), "{}: head of the key", what());
  ensure_eq!(key.action_key(), &(ty.ak)(m.key), "{}: action key of the key", what());
  Ok(())
}

pub fn same_grammar<T, NT, AK, AV>(g: &Gram, b: &Grammar<T, NT, AK, AV>, ty: &Types<T, NT, AK, AV>) -> Res
where
  T: Clone + Eq + Debug,
  NT: Ord + Clone + Debug,
  AK: Ord + Clone + Debug,
{
  ensure_eq!(b.start_nt(), &(ty.nt)(g.start), "start symbol");
  let index: BTreeMap<NT, u16> = (0..g.n() as u16).map(|i| ((ty.nt)(i), i)).collect();
  // Iteration.
  let rules: Vec<_> = b.rules().collect();
  ensure_eq!(rules.len(), g.n(), "number of rules");
  let mut at = BTreeMap::new();
  for (i, r) in rules.iter().enumerate() {
    let h = *index
      .get(r.head())
      .ok_or_else(|| format!("a rule for {:?}, which was not declared", r.head()))?;
    ensure!(at.insert(h, i).is_none(), "two rules for <{}>", h);
    let ps: Vec<_> = r.prods().collect();
    ensure_eq!(ps.len(), g.rules[h as usize].len(), "number of productions of <{}>", h);
    for (p, m) in ps.iter().zip(&g.rules[h as usize]) {
      same_prod(p, h, m, ty)?;
    }
  }
  // All productions.
  let mut per_head: BTreeMap<u16, usize> = BTreeMap::new();
  for p in b.prods() {
    let h = *index
      .get(p.head())
      .ok_or_else(|| format!("a production of {:?}, which was not declared", p.head()))?;
    let k = per_head.entry(h).or_insert(0);
    let m = g.rules[h as usize]
      .get(*k)
      .ok_or_else(|| format!("too many productions of <{}>", h))?;
    same_prod(&p, h, m, ty)?;
    *k += 1;
  }
  for h in 0..g.n() {
    ensure_eq!(
      per_head.get(&(h as u16)).copied().unwrap_or(0),
      g.rules[h].len(),
      "productions of <{}> in prods()",
      h
    );
  }
  // Lookup.
  let map = b.rule_set();
  ensure_eq!(map.len(), g.n(), "size of rule_set()");
  for h in 0..g.n() as u16 + 3 {
    let nt = (ty.nt)(h);
    let there = (h as usize) < g.n();
    let got = b.try_get_rule(&nt);
    ensure!(got.is_some() == there, "try_get_rule(<{}>) is {:?}", h, got.is_some());
    ensure!(map.contains_key(&nt) == there, "rule_set() contains <{}>: {}", h, !there);
    if there {
      for r in [got.unwrap(), caught_panic("get_rule", || b.get_rule(&nt))?, map[&nt]] {
        ensure_eq!(r.head(), &nt, "head of the rule looked up for <{}>", h);
        let ps: Vec<_> = r.prods().collect();
        ensure_eq!(ps.len(), g.rules[h as usize].len(), "productions of the rule looked up for <{}>", h);
        for (p, m) in ps.iter().zip(&g.rules[h as usize]) {
          same_prod(p, h, m, ty)?;
        }
        ensure!(
          at.get(&h).map_or(false, |i| rules[*i] == r),
          "the rule looked up for <{}> is none of those iterated over",
          h
        );
      }
    } else {
      ensure!(
        engine::catch_expected(|| b.get_rule(&nt).head().clone()).is_err(),
        "get_rule(<{}>) finds something that is not there",
        h
      );
    }
  }
  // Production keys.
  let keys: Vec<_> = b.prods().map(|p| (p.prod_key(), p.head().clone(), p.action_key().clone())).collect();
  let n = keys.len();
  let partners = |i: usize| -> Vec<usize> {
    if n <= 300 {
      (0..n).collect()
    } else {
      // Not all pairs of very many.
      (0..17).map(|k| (i + (1 << k) - 1) % n).collect()
    }
  };
  for (i, (a, ah, ak)) in keys.iter().enumerate() {
    for (b, bh, bk) in partners(i).into_iter().map(|j| &keys[j]) {
      let same = ah == bh && ak == bk;
      ensure!(
        (a == b) == same && (a.cmp(b) == std::cmp::Ordering::Equal) == same,
        "keys of ({:?}, {:?}) and ({:?}, {:?}): equal is {}",
        ah,
        ak,
        bh,
        bk,
        a == b
      );
    }
  }
  Ok(())
}

/// The harness's own symbol types.
pub fn own() -> Types<crate::T, crate::N, crate::K, crate::A> {
  use crate::{A, K, N, T};
  Types {
    t: Box::new(T),
    nt: Box::new(N),
    ak: Box::new(K),
    av: Box::new(A),
    same_av: Box::new(|a: &A, v| a.0 == v),
  }
}

/// bongo's own symbol types; terminals, nonterminals and keys share texts.
pub fn names(shift: usize) -> Types<grammar::Terminal, grammar::NonTerminal, Name, String> {
  let text = move |i: u16| {
    let k = i as usize + shift;
    let mut s = TEXTS[k % TEXTS.len()].to_string();
    for _ in 0..k / TEXTS.len() {
      s.push('+');
    }
    s
  };
  Types {
    t: Box::new(move |i| grammar::Terminal::new(&text(i))),
    nt: Box::new(move |i| grammar::NonTerminal::new(&text(i))),
    ak: Box::new(move |i| Name::new(&text(i))),
    av: Box::new(|i| format!("value {}", i)),
    same_av: Box::new(|a: &String, v| *a == format!("value {}", v)),
  }
}

pub const TEXTS: &[&str] = &[
  "", "a", "b", "A", "ab", "é", "e\u{301}", " ", "a\n", "<a>", "aa", "0", "|", "n1", "x y", "Z", "start", "<START>",
  "<EOS>",
];

/// Duplicate element names and odd ones.
pub fn rename(src: &mut engine::Src, g: &mut Gram) {
  if src.chance(1, 3) {
    for r in &mut g.rules {
      for p in r {
        for e in &mut p.elems {
          if src.chance(1, 4) {
            e.name = Some(src.pick(&["", "a", "value", "ε", "a:b", " ", "\n", "start"]).to_string());
          }
        }
      }
    }
  }
}
