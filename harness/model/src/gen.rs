//! Generators of well-formed grammars and of inputs for them.

use crate::analyse;
use crate::{Elem, Gram, Prod, Sym};
use engine::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Names {
  None,
  /// Some elements named, all names within a production distinct.
  Distinct,
}

#[derive(Clone, Debug)]
pub struct Cfg {
  pub max_nts: usize,
  pub max_terms: usize,
  pub max_prods: usize,
  pub max_len: usize,
  /// Chance (of 100) that an element is a nonterminal.
  pub p_nt: u64,
  /// Chance (of 100) that a production is empty.
  pub p_empty: u64,
  /// Chance (of 100) that a nonterminal gets a production of terminals only.
  pub p_base: u64,
  /// Chance (of 100) that a production is a copy of another one of its rule.
  pub p_dup: u64,
  pub names: Names,
}

pub fn flavour(src: &mut Src, names: Names) -> (Cfg, &'static str) {
  let s = |src: &Src, lo: usize, hi: usize| src.scaled(lo as u64, hi as u64) as usize;
  let generic = Cfg {
    max_nts: s(src, 1, 5),
    max_terms: 3,
    max_prods: 3,
    max_len: 3,
    p_nt: 45,
    p_empty: 15,
    p_base: 70,
    p_dup: 3,
    names,
  };
  match src.weighted(&[10, 10, 6, 8, 6, 4, 4, 1, 1]) {
    0 => (generic, "flavour: generic"),
    1 => (
      Cfg {
        max_terms: 2,
        p_nt: 75,
        p_empty: 40,
        p_base: 30,
        ..generic
      },
      "flavour: nullable",
    ),
    2 => (
      Cfg {
        max_terms: 2,
        max_len: 1,
        max_prods: 3,
        p_nt: 75,
        p_empty: 15,
        ..generic
      },
      "flavour: unit",
    ),
    3 => (
      Cfg {
        max_nts: 2,
        max_terms: 1,
        max_prods: 4,
        max_len: 3,
        p_nt: 65,
        p_empty: 20,
        p_base: 90,
        p_dup: 10,
        ..generic
      },
      "flavour: ambiguous",
    ),
    4 => (
      Cfg {
        max_len: 2,
        max_terms: 2,
        p_nt: 55,
        p_empty: 10,
        p_base: 80,
        ..generic
      },
      "flavour: binary",
    ),
    5 => (
      Cfg {
        max_len: s(src, 3, 7),
        max_nts: s(src, 1, 3),
        max_terms: 2,
        p_nt: 30,
        ..generic
      },
      "flavour: long",
    ),
    7 => (
      Cfg {
        max_nts: s(src, 2, 40),
        max_terms: 20,
        max_prods: 3,
        max_len: 4,
        p_nt: 50,
        p_empty: 8,
        ..generic
      },
      "flavour: large",
    ),
    8 => (
      Cfg {
        max_nts: s(src, 1, 4),
        max_terms: s(src, 1, 20),
        max_prods: s(src, 3, 16),
        max_len: s(src, 3, 14),
        p_nt: 20,
        p_empty: 8,
        ..generic
      },
      "flavour: wide",
    ),
    _ => (
      Cfg {
        max_nts: s(src, 2, 12),
        max_len: 2,
        max_prods: 2,
        p_nt: 65,
        p_base: 40,
        ..generic
      },
      "flavour: many nonterminals",
    ),
  }
}

/// A well-formed grammar of a random flavour (or a classic one).
pub fn grammar(src: &mut Src, names: Names) -> (Gram, &'static str) {
  if src.chance(1, 8) {
    let g = classic(src);
    let g = finish(src, g, names);
    return (g, "flavour: classic");
  }
  let (cfg, label) = flavour(src, names);
  (with_cfg(src, &cfg), label)
}

pub fn with_cfg(src: &mut Src, cfg: &Cfg) -> Gram {
  let n = src.urange(1, cfg.max_nts.max(1));
  let terms = src.urange(1, cfg.max_terms.max(1));
  let mut rules = Vec::new();
  for _ in 0..n {
    let k = src.urange(1, cfg.max_prods.max(1));
    let mut prods: Vec<Prod> = Vec::new();
    for i in 0..k {
      let elems = if i > 0 && src.chance(cfg.p_dup, 100) {
        prods[src.idx(i)].elems.clone()
      } else if src.chance(cfg.p_empty, 100) {
        vec![]
      } else {
        let len = src.urange(1, cfg.max_len.max(1));
        let base = i == 0 && src.chance(cfg.p_base, 100);
        (0..len)
          .map(|_| {
            let sym = if !base && src.chance(cfg.p_nt, 100) {
              Sym::N(src.below(n as u64) as u16)
            } else {
              Sym::T(src.below(terms as u64) as u16)
            };
            Elem { name: None, sym }
          })
          .collect()
      };
      prods.push(Prod { key: i as u16, val: i as u16, elems });
    }
    rules.push(prods);
  }
  let g = Gram {
    start: src.below(n as u64) as u16,
    terms: terms as u16,
    rules,
    decl: vec![],
  };
  finish(src, g, cfg.names)
}

/// Makes every nonterminal reachable, and chooses keys, values, names and
/// declaration order.
pub fn finish(src: &mut Src, mut g: Gram, names: Names) -> Gram {
  let drop = src.chance(1, 2);
  if drop {
    g = drop_unreachable(&g);
  } else {
    loop {
      let r = analyse::reachable(&g);
      let u = match r.iter().position(|x| !*x) {
        None => break,
        Some(u) => u,
      };
      // Mention it somewhere reachable.
      let spots: Vec<(usize, usize)> = (0..g.n())
        .filter(|i| r[*i])
        .flat_map(|i| (0..g.rules[i].len()).map(move |p| (i, p)))
        .collect();
      let (i, p) = *src.pick(&spots);
      if src.chance(1, 3) {
        let pos = src.idx(g.rules[i][p].elems.len() + 1);
        g.rules[i][p].elems.insert(
          pos,
          Elem {
            name: None,
            sym: Sym::N(u as u16),
          },
        );
      } else {
        g.rules[i].push(Prod {
          key: 0,
          val: 0,
          elems: vec![Elem {
            name: None,
            sym: Sym::N(u as u16),
          }],
        });
      }
    }
  }
  decorate(src, g, names)
}

pub fn drop_unreachable(g: &Gram) -> Gram {
  let r = analyse::reachable(g);
  let mut map = vec![0u16; g.n()];
  let mut next = 0;
  for i in 0..g.n() {
    if r[i] {
      map[i] = next;
      next += 1;
    }
  }
  Gram {
    start: map[g.start as usize],
    terms: g.terms,
    rules: (0..g.n())
      .filter(|i| r[*i])
      .map(|i| {
        g.rules[i]
          .iter()
          .map(|p| Prod {
            key: p.key,
            val: p.val,
            elems: p
              .elems
              .iter()
              .map(|e| Elem {
                name: e.name.clone(),
                sym: match e.sym {
                  Sym::N(n) => Sym::N(map[n as usize]),
                  t => t,
                },
              })
              .collect(),
          })
          .collect()
      })
      .collect(),
    decl: vec![],
  }
}

const NAMES: &[&str] = &[
  "value", "left", "right", "a", "b", "contents", "x", "y", "start", "é",
];

/// Keys (unique within a rule, possibly shared between rules), values, names,
/// declaration order.
pub fn decorate(src: &mut Src, mut g: Gram, names: Names) -> Gram {
  let key_mode = src.weighted(&[2, 1, 2]);
  let mut serial = 0u16;
  for r in &mut g.rules {
    let k = r.len();
    let perm = if key_mode == 2 { src.permutation(k) } else { (0..k).collect() };
    for (i, p) in r.iter_mut().enumerate() {
      p.key = match key_mode {
        // shared between heads
        0 => i as u16,
        // globally unique
        1 => 100 + serial,
        // shared, not in order
        _ => (2 * perm[i]) as u16 + 1,
      };
      p.val = if src.chance(1, 4) { 7 } else { 1000 + serial };
      serial += 1;
    }
  }
  if names == Names::Distinct {
    let density = *src.pick(&[0u64, 50, 100]);
    for r in &mut g.rules {
      for p in r.iter_mut() {
        let mut used: Vec<String> = Vec::new();
        for e in &mut p.elems {
          if density > 0 && src.chance(density, 100) {
            let mut name = NAMES[src.idx(NAMES.len())].to_string();
            if src.chance(1, 10) {
              name = (0..src.idx(5)).map(|_| *src.pick(&['a', '_', 'A', '0', 'é', '-', ' ', ':', '<', '%', '\u{301}'])).collect();
            }
            if used.len() > 400 {
              // Unlike all others.
              name = format!("{}#{}", name, used.len());
            }
            while used.len() <= 400 && used.contains(&name) {
              name.push('\'');
            }
            used.push(name.clone());
            e.name = Some(name);
          }
        }
      }
    }
  }
  let perm = src.permutation(g.n());
  g.decl = perm.into_iter().map(|i| i as u16).collect();
  g
}

/// Textbook shapes, mutated a little now and then.
pub fn classic(src: &mut Src) -> Gram {
  const LIST: &[(&str, &[&str])] = &[
    ("A", &["AbA|AcA|dAe|a"]),
    ("A", &["AcB|B", "BdC|C", "eAf|a"]),
    ("A", &["aAb|"]),
    ("A", &["aAa|bAb|"]),
    ("A", &["aAa|bAb|a|b"]),
    ("A", &["AA|a|"]),
    ("A", &["AAA|AA|a"]),
    ("A", &["Aa|a"]),
    ("A", &["aA|a"]),
    ("A", &["Aa|"]),
    ("A", &["aA|"]),
    ("A", &["BAa|a", "|b"]),
    ("A", &["BA|a", ""]),
    ("A", &["B|a", "C|b", "A|c"]),
    ("A", &["B|a", "A|"]),
    ("A", &["bcAdA|bcA|a"]),
    ("A", &["BCD", "b|", "c|", "d|"]),
    ("A", &["BBB", "b|"]),
    ("A", &["BCa", "Bb|", "Cc|"]),
    ("A", &["Ba|Cb", "c", "c"]),
    ("A", &["aBc|aCd", "Bb|b", "bC|b"]),
    ("A", &["BaB", "CC", "A|"]),
    ("A", &["aA|Ab|"]),
    ("A", &["AB|a", "bB|"]),
    ("A", &["aBb", "BB|CC|", "AC|c"]),
    ("A", &["BaCb", "", "BC|c"]),
    ("A", &["B|Bc", "bB|b|"]),
    ("A", &["CB|a", "AB|", "BC|c"]),
    ("A", &["aBA|", "BB|b"]),
    ("A", &["BC", "Ba|", "aC|"]),
  ];
  let (s, rules) = *src.pick(LIST);
  let mut g = Gram::parse(s.chars().next().unwrap(), rules);
  if src.chance(1, 2) {
    for _ in 0..src.urange(1, 2) {
      let r = src.idx(g.n());
      let p = src.idx(g.rules[r].len());
      let n = g.n() as u64;
      let t = g.terms.max(1) as u64;
      let sym = |src: &mut Src| {
        if src.flag() {
          Sym::N(src.below(n) as u16)
        } else {
          Sym::T(src.below(t) as u16)
        }
      };
      match src.below(4) {
        0 => {
          let at = src.idx(g.rules[r][p].elems.len() + 1);
          let s = sym(src);
          g.rules[r][p].elems.insert(at, Elem { name: None, sym: s });
        }
        1 => {
          let l = g.rules[r][p].elems.len();
          if l > 0 {
            let at = src.idx(l);
            g.rules[r][p].elems.remove(at);
          }
        }
        2 => {
          let s = sym(src);
          g.rules[r].push(Prod {
            key: 0,
            val: 0,
            elems: vec![Elem { name: None, sym: s }],
          });
        }
        _ => g.rules[r].push(Prod {
          key: 0,
          val: 0,
          elems: vec![],
        }),
      }
    }
  }
  if g.n() > 1 && src.chance(1, 4) {
    g.start = src.below(g.n() as u64) as u16;
  }
  g.terms = g.terms.max(1);
  g
}

/// Grammars in which no nonterminal has more than one derivation of the empty
/// sequence: by construction, each nonterminal chosen to be nullable has one
/// empty-derivable production, made of nullable nonterminals of lower rank.
pub fn null_unambiguous(src: &mut Src, names: Names) -> Gram {
  let max_n = src.scaled(1, 7) as usize;
  let n = src.urange(1, max_n.max(1));
  let terms = src.urange(1, 3);
  let nullable: Vec<bool> = (0..n).map(|_| src.chance(3, 5)).collect();
  let rank = src.permutation(n);
  // vanishing nonterminals have no other production
  let max_len = if src.chance(1, 6) { 6 } else { 3 };
  let mut rules: Vec<Vec<Prod>> = Vec::new();
  for h in 0..n {
    let mut prods = Vec::new();
    if nullable[h] {
      let lower: Vec<usize> =
        (0..n).filter(|m| nullable[*m] && rank[*m] < rank[h]).collect();
      let len = if lower.is_empty() { 0 } else { src.urange(0, max_len) };
      prods.push(Prod {
        key: 0,
        val: 0,
        elems: (0..len)
          .map(|_| Elem {
            name: None,
            sym: Sym::N(*src.pick(&lower) as u16),
          })
          .collect(),
      });
    }
    let vanish = nullable[h] && src.chance(1, 4);
    let others = if vanish {
      0
    } else {
      src.urange(if nullable[h] { 0 } else { 1 }, 3)
    };
    for _ in 0..others {
      let len = src.urange(1, max_len);
      let mut elems: Vec<Elem> = (0..len)
        .map(|_| Elem {
          name: None,
          sym: if src.chance(3, 5) {
            Sym::N(src.below(n as u64) as u16)
          } else {
            Sym::T(src.below(terms as u64) as u16)
          },
        })
        .collect();
      let anchored = elems.iter().any(|e| match e.sym {
        Sym::T(_) => true,
        Sym::N(m) => !nullable[m as usize],
      });
      if !anchored {
        let at = src.idx(elems.len() + 1);
        elems.insert(
          at,
          Elem {
            name: None,
            sym: Sym::T(src.below(terms as u64) as u16),
          },
        );
      }
      prods.push(Prod { key: 0, val: 0, elems });
    }
    // The empty-derivable production is not always first.
    if prods.len() > 1 && src.flag() {
      let k = src.idx(prods.len());
      prods.swap(0, k);
    }
    rules.push(prods);
  }
  let mut g = Gram {
    start: src.below(n as u64) as u16,
    terms: terms as u16,
    rules,
    decl: vec![],
  };
  if src.chance(1, 2) {
    g = drop_unreachable(&g);
  } else {
    loop {
      let r = analyse::reachable(&g);
      let u = match r.iter().position(|x| !*x) {
        None => break,
        Some(u) => u,
      };
      // A new production of a reachable nonterminal, anchored by a terminal.
      let spots: Vec<usize> = (0..g.n()).filter(|i| r[*i]).collect();
      let i = *src.pick(&spots);
      let mut elems = vec![Elem {
        name: None,
        sym: Sym::N(u as u16),
      }];
      let at = src.idx(2);
      elems.insert(
        at,
        Elem {
          name: None,
          sym: Sym::T(src.below(terms as u64) as u16),
        },
      );
      g.rules[i].push(Prod { key: 0, val: 0, elems });
    }
  }
  decorate(src, g, names)
}

/// Now and then, gives productions of one rule the same action key: nothing
/// forbids it, and what the grammar derives does not depend on it.
pub fn share_keys(src: &mut Src, g: &mut Gram) -> bool {
  let mut shared = false;
  if src.chance(1, 5) {
    for r in &mut g.rules {
      for i in 1..r.len() {
        if src.flag() {
          r[i].key = r[src.idx(i)].key;
          shared = true;
        }
      }
    }
  }
  shared
}

/// A number up to `max`, small ones and large ones about equally often.
pub fn sized(src: &mut Src, max: usize) -> usize {
  let bits = usize::BITS - max.leading_zeros();
  let top = (1usize << src.below(bits as u64 + 1)).min(max);
  let n = src.urange((top / 2).max(1), top.max(1));
  // Sometimes a power of two, or next to it.
  match src.below(12) {
    11 => top.max(1),
    10 => (top + 1).min(max).max(1),
    9 => top.saturating_sub(1).max(1),
    _ => n,
  }
}

/// Grammars with one large dimension: a long production, many productions of
/// one rule, many rules, or a deep chain of rules. No nonterminal has more
/// than one empty derivation, but for a few of these grammars.
pub fn extreme(src: &mut Src, names: Names, max: usize) -> (Gram, &'static str) {
  let size = sized(src, max);
  extreme_of(src, names, size)
}

/// The same in sizes well beyond that, where counters of eight or sixteen bits
/// and fixed limits end.
pub fn huge(src: &mut Src, names: Names, max: usize) -> (Gram, &'static str) {
  let size = if src.chance(1, 6) { edgy(src, 200, max) } else { edgy(src, 200, max.min(5000)) };
  extreme_of(src, names, size)
}

fn extreme_of(src: &mut Src, names: Names, size: usize) -> (Gram, &'static str) {
  let elem = |sym| Elem { name: None, sym };
  let prod = |syms: Vec<Sym>| Prod { key: 0, val: 0, elems: syms.into_iter().map(elem).collect() };
  // A few nonterminals to refer to: one that vanishes, an optional one, a
  // plain one, a recursive one, a second optional one.
  let mut rules: Vec<Vec<Prod>> = vec![
    vec![prod(vec![])],
    vec![prod(vec![Sym::T(0)]), prod(vec![])],
    vec![prod(vec![Sym::T(1)])],
    vec![prod(vec![Sym::T(2)]), prod(vec![Sym::T(1), Sym::N(3)])],
    vec![prod(vec![]), prod(vec![Sym::T(3)])],
  ];
  const SMALL: u64 = 5;
  const TERMS: u64 = 5;
  fn filler(src: &mut Src, p_nt: u64) -> Sym {
    if src.chance(p_nt, 100) {
      Sym::N(src.below(SMALL) as u16)
    } else {
      Sym::T(src.below(TERMS) as u16)
    }
  }
  let label;
  let start;
  let rule_count = size.min(20_000);
  match src.below(4) {
    0 => {
      label = "extreme: a long production";
      start = rules.len() as u16;
      let p_nt = *src.pick(&[5u64, 50, 95, 100]);
      let nullable_only = src.chance(1, 4);
      let mut syms: Vec<Sym> = (0..size)
        .map(|_| {
          if nullable_only {
            Sym::N(*src.pick(&[0u16, 1, 4]))
          } else {
            filler(src, p_nt)
          }
        })
        .collect();
      if src.chance(1, 4) {
        // Only the last matters.
        let last = filler(src, 50);
        syms.push(last);
      }
      rules.push(vec![prod(syms)]);
      if src.flag() {
        rules[start as usize].push(prod(vec![Sym::T(4)]));
      }
    }
    1 => {
      label = "extreme: many productions";
      start = rules.len() as u16;
      let mut own = Vec::new();
      for _ in 0..rule_count {
        let len = src.urange(0, 2);
        let mut syms: Vec<Sym> = (0..len).map(|_| filler(src, 30)).collect();
        // Empty ones would be many.
        let at = src.idx(syms.len() + 1);
        syms.insert(at, Sym::T(src.below(TERMS) as u16));
        own.push(prod(syms));
      }
      if src.flag() {
        let at = src.idx(own.len() + 1);
        let syms = if src.flag() { vec![] } else { vec![Sym::N(1), Sym::N(0)] };
        own.insert(at, prod(syms));
      }
      rules.push(own);
    }
    2 => {
      label = "extreme: many rules";
      start = rules.len() as u16;
      let first = start + 1;
      let mut top = Vec::new();
      let mut rest = Vec::new();
      for i in 0..rule_count as u16 {
        let to = Sym::N(first + i);
        if top.is_empty() || src.chance(1, 4) {
          top.push(vec![to]);
        } else {
          top.last_mut().unwrap().push(to);
        }
        let mut own = vec![prod(vec![Sym::T(src.below(TERMS) as u16)])];
        match src.below(5) {
          0 => own.push(prod(vec![])),
          1 => {
            let other = Sym::N(first + src.below(rule_count as u64) as u16);
            let f = filler(src, 50);
            own.push(prod(vec![Sym::T(0), other, f]));
          }
          2 => own = vec![prod(vec![])],
          _ => {}
        }
        rest.push(own);
      }
      // So that the start symbol has one empty derivation at most.
      for t in top.iter_mut().skip(1) {
        t.push(Sym::T(4));
      }
      rules.push(top.into_iter().map(|t| prod(t)).collect());
      rules.extend(rest);
    }
    _ => {
      label = "extreme: a deep chain";
      start = rules.len() as u16;
      let noise = *src.pick(&[20u64, 20, 1, 0]);
      // What is at the end is nowhere else, and may be all there is.
      let sides = *src.pick(&[0u64, 1, 17, 17]);
      for i in 0..rule_count as u16 {
        let mut syms = vec![Sym::N(start + i + 1)];
        if src.chance(noise, 20) {
          if src.chance(1, 3) {
            syms.push(filler(src, 70));
          }
          if src.chance(1, 3) {
            let f = filler(src, 70);
            syms.insert(0, f);
          }
        }
        let mut own = vec![prod(syms)];
        if src.chance(sides, 100) {
          own.push(prod(vec![Sym::T(src.below(TERMS - 1) as u16)]));
        }
        rules.push(own);
      }
      let end = match src.below(4) {
        0 => vec![prod(vec![])],
        1 => vec![prod(vec![Sym::T(4)])],
        2 => vec![prod(vec![]), prod(vec![Sym::T(4)])],
        // Back to somewhere.
        _ => vec![prod(vec![Sym::T(4), Sym::N(start + src.below(rule_count as u64) as u16)]), prod(vec![])],
      };
      rules.push(end);
    }
  }
  if src.chance(1, 16) {
    let h = src.idx(rules.len());
    rules[h].push(prod(vec![]));
  }
  let g = drop_unreachable(&Gram { start, terms: TERMS as u16, rules, decl: vec![] });
  // The order of the nonterminals decides how many rounds an analysis takes.
  let g = match src.below(3) {
    0 => g,
    1 => {
      let n = g.n() as u16;
      renumber(&g, &(0..n).rev().collect::<Vec<_>>())
    }
    _ => {
      let perm: Vec<u16> = src.permutation(g.n()).into_iter().map(|x| x as u16).collect();
      renumber(&g, &perm)
    }
  };
  (decorate(src, g, names), label)
}

/// A grammar of the `extreme` kind on which parsing stays cheap, with a word it
/// derives.
pub fn extreme_with_word(src: &mut Src, max: usize) -> (Gram, &'static str, Vec<u16>) {
  let (g, label) = extreme(src, Names::None, max);
  let g = limit_nullable(src, &g, 5, 8);
  let target = src.urange(0, max);
  let w = derived_word(src, &g, target).filter(|w| w.len() <= 2 * max).unwrap_or_default();
  (g, label, w)
}

/// Sizes at which fixed-size buffers, small counters and bit sets end, and
/// sizes in between.
pub fn edgy(src: &mut Src, min: usize, max: usize) -> usize {
  let powers: Vec<usize> = (0..20).map(|k| 1usize << k).filter(|p| *p > min && *p < max).collect();
  if !powers.is_empty() && src.chance(2, 3) {
    let p = *src.pick(&powers);
    (p - 1 + src.idx(3)).max(min).min(max)
  } else {
    src.urange(min, max)
  }
}

/// Larger still than `extreme_with_word`: productions of hundreds of elements
/// that all have children of their own, thousands of productions that are all
/// open at the same position, hundreds of rules, chains of a hundred rules.
/// With it goes a word that the grammar derives.
pub fn large_with_word(src: &mut Src, long: usize) -> (Gram, &'static str, Vec<u16>) {
  let prod = |syms: Vec<Sym>| Prod {
    key: 0,
    val: 0,
    elems: syms.into_iter().map(|sym| Elem { name: None, sym }).collect(),
  };
  let label;
  let mut rules: Vec<Vec<Prod>> = Vec::new();
  let terms: u16;
  match src.below(4) {
    0 => {
      label = "large: a production of many elements";
      terms = 5;
      // <1> is one token, <2> some tokens, <3> is optional, <4> is empty
      rules.push(vec![]);
      rules.push(vec![prod(vec![Sym::T(1)]), prod(vec![Sym::T(2)])]);
      rules.push(vec![prod(vec![Sym::T(2)]), prod(vec![Sym::T(1), Sym::N(2)])]);
      rules.push(vec![prod(vec![]), prod(vec![Sym::T(3)])]);
      rules.push(vec![prod(vec![])]);
      let size = edgy(src, 41, long);
      let p_nt = *src.pick(&[0u64, 10, 60]);
      let mut syms: Vec<Sym> = (0..size)
        .map(|_| {
          if src.chance(p_nt, 100) {
            Sym::N(1 + src.chance(1, 4) as u16)
          } else {
            Sym::T(src.below(5) as u16)
          }
        })
        .collect();
      for _ in 0..src.idx(4) {
        let at = src.idx(size);
        syms[at] = Sym::N(3 + src.below(2) as u16);
      }
      let long = syms.clone();
      rules[0].push(prod(syms));
      match src.below(4) {
        0 => rules[0].push(prod(vec![Sym::T(4)])),
        1 => {
          // A second one that differs in the last element only.
          let mut other = long;
          other.pop();
          other.push(Sym::N(1));
          rules[0].insert(src.idx(2), prod(other));
        }
        2 => {
          // Not at the top.
          rules.push(vec![prod(vec![Sym::N(0)]), prod(vec![Sym::T(0), Sym::N(0), Sym::N(3)])]);
          let top = rules.len() - 1;
          rules.swap(0, top);
          for p in rules.iter_mut().flatten() {
            for e in p.elems.iter_mut() {
              if e.sym == Sym::N(0) {
                e.sym = Sym::N(top as u16);
              }
            }
          }
        }
        _ => {}
      }
    }
    1 => {
      label = "large: up to 6000 productions open at once";
      terms = *src.pick(&[5u16, 40, 300]);
      let size = if src.flag() { edgy(src, 200, 6000) } else { src.urange(3000, 6000) };
      rules.push(vec![]);
      let heads = if src.flag() { 1 } else { 3 };
      // All go on after the same token.
      let alike = src.chance(1, 3);
      if heads > 1 {
        rules[0] = (1..=heads).map(|h| prod(vec![Sym::N(h as u16)])).collect();
        for _ in 0..heads {
          rules.push(vec![]);
        }
      }
      let small = rules.len() as u16;
      for k in 0..size {
        let len = src.urange(1, 3);
        let mut syms: Vec<Sym> = (0..len).map(|_| Sym::T(src.below(terms as u64) as u16)).collect();
        if src.chance(1, 20) {
          let at = src.idx(len);
          syms[at] = Sym::N(small);
        }
        if alike {
          syms.insert(0, Sym::T(0));
        }
        let h = if heads == 1 { 0 } else { 1 + k % heads };
        rules[h].push(prod(syms));
      }
      rules.push(vec![prod(vec![Sym::T(0)]), prod(vec![Sym::T(1), Sym::T(1)])]);
    }
    2 => {
      label = "large: up to 1000 rules";
      let size = edgy(src, 100, 1000);
      terms = 7;
      // The start symbol reaches all of them, most at the same position.
      rules.push((0..size).map(|i| prod(vec![Sym::N(i as u16 + 1)])).collect());
      for i in 0..size {
        let mut own = vec![prod(vec![Sym::T((i % 7) as u16), Sym::T(src.below(7) as u16)])];
        if src.chance(1, 10) {
          let to = Sym::N(1 + src.below(size as u64) as u16);
          own.push(prod(if src.flag() { vec![to, Sym::T(3)] } else { vec![Sym::T(3), to] }));
        }
        rules.push(own);
      }
    }
    _ => {
      label = "large: a chain of up to 140 rules";
      let size = edgy(src, 60, 140);
      terms = 4;
      let p_more = *src.pick(&[0u64, 10, 60]);
      for i in 0..size {
        let mut syms = vec![Sym::N(i as u16 + 1)];
        if src.chance(p_more, 100) {
          let at = src.idx(2);
          syms.insert(at, Sym::T(src.below(4) as u16));
        }
        let mut own = vec![prod(syms)];
        if src.chance(1, 30) {
          own.push(prod(vec![Sym::T(src.below(4) as u16)]));
        }
        rules.push(own);
      }
      rules.push(vec![prod(vec![Sym::T(3)]), prod(vec![])]);
    }
  }
  let g = drop_unreachable(&Gram { start: 0, terms, rules, decl: vec![] });
  let g = if src.flag() {
    let n = g.n() as u16;
    renumber(&g, &(0..n).rev().collect::<Vec<_>>())
  } else {
    g
  };
  let g = decorate(src, g, Names::None);
  let max = if label.ends_with("elements") { 2 * long } else { 40 };
  let target = src.urange(0, max);
  let w = derived_word(src, &g, target).filter(|w| w.len() <= max * 3 / 2).unwrap_or_default();
  (g, label, w)
}

/// Chains of vanishing nonterminals and of nonterminals that vanish but for
/// the end of the chain.
pub fn vanishing_chain(src: &mut Src, max: usize) -> Gram {
  let n = src.urange(2, max);
  let perm = src.permutation(n);
  let mut rules = vec![Vec::new(); n];
  let prod = |syms: Vec<Sym>| Prod {
    key: 0,
    val: 0,
    elems: syms.into_iter().map(|sym| Elem { name: None, sym }).collect(),
  };
  for i in 0..n {
    let mut syms = Vec::new();
    if i + 1 < n {
      syms.push(Sym::N(perm[i + 1] as u16));
      if src.chance(1, 4) {
        syms.push(Sym::N(perm[src.urange(i + 1, n - 1)] as u16));
      }
    }
    rules[perm[i]].push(prod(syms));
  }
  for _ in 0..src.idx(3) {
    let at = src.idx(n);
    let to = src.idx(n) as u16;
    let syms = match src.below(4) {
      0 => vec![Sym::T(0)],
      1 => vec![Sym::N(to), Sym::T(0)],
      2 => vec![Sym::T(1), Sym::N(to)],
      _ => vec![Sym::N(to), Sym::T(1), Sym::N(to)],
    };
    let pos = src.idx(rules[at].len() + 1);
    rules[at].insert(pos, prod(syms));
  }
  let g = Gram { start: perm[0] as u16, terms: 2, rules, decl: vec![] };
  decorate(src, g, Names::Distinct)
}

/// A production with `min` to `max` occurrences of nonterminals that may be
/// empty, a few others between them.
pub fn many_nullable(src: &mut Src, names: Names, min: usize, max: usize) -> Gram {
  let occurrences = src.urange(min, max);
  let others = src.urange(1, 6) as u8;
  let gap = *src.pick(&[0u64, 1, 3]);
  let mut text = String::new();
  let mut seen = std::collections::BTreeSet::new();
  for _ in 0..occurrences {
    if src.below(10) < gap {
      text.push(*src.pick(&['a', 'b']));
    }
    let o = b'B' + src.idx(others as usize) as u8;
    seen.insert(o);
    text.push(o as char);
  }
  if src.flag() {
    text.push('a');
  }
  let mut rest: Vec<String> = (0..others)
    .map(|i| match src.below(4) {
      // Nonterminals refer to later ones.
      0 if i + 1 < others => format!("c{}|", (b'C' + i) as char),
      1 if i + 1 < others => format!("d|{}", (b'C' + i) as char),
      2 => "|ab".to_string(),
      _ => "c|".to_string(),
    })
    .collect();
  // Those that do not occur yet do so in an alternative of their own.
  let unseen: String = (0..others).map(|i| b'B' + i).filter(|o| !seen.contains(o)).map(|o| o as char).collect();
  let mut all = vec![if unseen.is_empty() { text } else { format!("{}|e{}", text, unseen) }];
  all.append(&mut rest);
  let all: Vec<&str> = all.iter().map(|x| x.as_str()).collect();
  decorate(src, Gram::parse('A', &all), names)
}

/// Leaves at most `branching` occurrences of nonterminals that may or may not
/// be empty, and at most `vanishing` of those that can only be empty, in each
/// production; terminals take the place of others.
pub fn limit_nullable(src: &mut Src, g: &Gram, branching: usize, vanishing: usize) -> Gram {
  let null = analyse::nullable(g);
  let gone = analyse::vanishing(g);
  let mut g = g.clone();
  for r in &mut g.rules {
    for p in r {
      for (kind, max) in [(false, branching), (true, vanishing)] {
        let mut at: Vec<usize> = (0..p.elems.len())
          .filter(|i| match p.elems[*i].sym {
            Sym::N(m) => null[m as usize] && gone[m as usize] == kind,
            Sym::T(_) => false,
          })
          .collect();
        while at.len() > max {
          let k = src.idx(at.len());
          p.elems[at.swap_remove(k)].sym = Sym::T(0);
        }
      }
    }
  }
  let mut g = drop_unreachable(&g);
  g.decl = (0..g.n() as u16).rev().collect();
  g
}

/// Nonterminal `i` becomes `perm[i]`.
pub fn renumber(g: &Gram, perm: &[u16]) -> Gram {
  let mut out = g.clone();
  for (i, r) in g.rules.iter().enumerate() {
    let mut r = r.clone();
    for p in &mut r {
      for e in &mut p.elems {
        if let Sym::N(n) = e.sym {
          e.sym = Sym::N(perm[n as usize]);
        }
      }
    }
    out.rules[perm[i] as usize] = r;
  }
  out.start = perm[g.start as usize];
  out.decl = g.decl.iter().map(|d| perm[*d as usize]).collect();
  out
}

/// All words over `0..k` of length <= `max_len`, shortest first, at most `cap`.
pub fn all_words(k: u16, max_len: usize, cap: usize) -> Vec<Vec<u16>> {
  let mut out = vec![vec![]];
  let mut from = 0;
  for _ in 0..max_len {
    let to = out.len();
    for i in from..to {
      for t in 0..k {
        if out.len() >= cap {
          return out;
        }
        let mut w: Vec<u16> = out[i].clone();
        w.push(t);
        out.push(w);
      }
    }
    from = to;
  }
  out
}

/// A word derived from the start symbol (None when it derives nothing).
pub fn derived_word(
  src: &mut Src,
  g: &Gram,
  target: usize,
) -> Option<Vec<u16>> {
  // Least derivation height per nonterminal.
  let mut height: Vec<Option<u32>> = vec![None; g.n()];
  loop {
    let mut changed = false;
    for (h, p) in g.prods() {
      let mut m = 0;
      let ok = p.syms().all(|s| match s {
        Sym::T(_) => true,
        Sym::N(x) => match height[x as usize] {
          Some(k) => {
            m = m.max(k);
            true
          }
          None => false,
        },
      });
      if ok && height[h as usize].map_or(true, |k| m + 1 < k) {
        height[h as usize] = Some(m + 1);
        changed = true;
      }
    }
    if !changed {
      break;
    }
  }
  height[g.start as usize]?;
  let mut out = Vec::new();
  let mut stack = vec![Sym::N(g.start)];
  let mut budget = 20 + 6 * target;
  while let Some(s) = stack.pop() {
    match s {
      Sym::T(t) => out.push(t),
      Sym::N(x) => {
        let viable: Vec<&Prod> = g.rules[x as usize]
          .iter()
          .filter(|p| {
            p.syms().all(|s| match s {
              Sym::T(_) => true,
              Sym::N(y) => height[y as usize].is_some(),
            })
          })
          .collect();
        let p = if budget > 0 && out.len() + stack.len() < target {
          budget -= 1;
          // Mostly keep growing while the word is short.
          let growing: Vec<&Prod> = viable
            .iter()
            .copied()
            .filter(|p| p.syms().any(|s| matches!(s, Sym::N(_))))
            .collect();
          if !growing.is_empty() && src.chance(3, 4) {
            growing[src.idx(growing.len())]
          } else {
            viable[src.idx(viable.len())]
          }
        } else {
          viable
            .iter()
            .min_by_key(|p| {
              p.syms()
                .map(|s| match s {
                  Sym::T(_) => 0,
                  Sym::N(y) => height[y as usize].unwrap(),
                })
                .max()
                .unwrap_or(0)
            })
            .unwrap()
        };
        stack.extend(p.syms().rev());
      }
    }
    if out.len() > 4 * target + 64 {
      return None;
    }
  }
  Some(out)
}

/// Changes a word a little.
pub fn mutate(src: &mut Src, w: &[u16], k: u16) -> Vec<u16> {
  let mut w = w.to_vec();
  let edits = src.urange(1, 2);
  for _ in 0..edits {
    match src.below(5) {
      0 => {
        let at = src.idx(w.len() + 1);
        w.insert(at, src.below(k as u64) as u16);
      }
      1 if !w.is_empty() => {
        let at = src.idx(w.len());
        w.remove(at);
      }
      2 if !w.is_empty() => {
        let at = src.idx(w.len());
        w[at] = src.below(k as u64) as u16;
      }
      3 if w.len() > 1 => {
        let at = src.idx(w.len() - 1);
        w.swap(at, at + 1);
      }
      _ => {
        if w.len() > 1 && src.flag() {
          w.truncate(w.len() - 1);
        } else {
          w.push(src.below(k as u64) as u16);
        }
      }
    }
  }
  w
}

/// Small-scope enumeration: every grammar with up to `n` nonterminals, exactly
/// one terminal kind set `terms`, up to `prods` productions per rule of length
/// up to `len` over all symbols; each multiset of productions in one order.
/// Grammars with unreachable nonterminals are reported as None.
pub fn enumerate_small(
  src: &mut Src,
  n: usize,
  terms: u16,
  prods: usize,
  len: usize,
) -> Option<Gram> {
  let k = n as u64 + terms as u64;
  // number of right-hand sides
  let mut total = 0u64;
  let mut p = 1;
  for _ in 0..=len {
    total += p;
    p *= k;
  }
  let decode = |mut c: u64| {
    let mut l = 0;
    let mut block = 1;
    while c >= block {
      c -= block;
      block *= k;
      l += 1;
    }
    let mut elems = Vec::new();
    for _ in 0..l {
      let s = c % k;
      c /= k;
      elems.push(Elem {
        name: None,
        sym: if s < n as u64 {
          Sym::N(s as u16)
        } else {
          Sym::T((s - n as u64) as u16)
        },
      });
    }
    elems
  };
  let mut rules = Vec::new();
  for _ in 0..n {
    let m = src.urange(1, prods);
    let mut codes: Vec<u64> = Vec::new();
    let mut lo = 0;
    for _ in 0..m {
      // non-decreasing codes: every multiset once
      let c = lo + src.below(total - lo);
      lo = c;
      codes.push(c);
    }
    rules.push(
      codes
        .into_iter()
        .enumerate()
        .map(|(i, c)| Prod {
          key: i as u16,
          val: i as u16,
          elems: decode(c),
        })
        .collect::<Vec<_>>(),
    );
  }
  let g = Gram {
    start: 0,
    terms,
    rules,
    decl: (0..n as u16).collect(),
  };
  if analyse::reachable(&g).iter().all(|x| *x) {
    Some(g)
  } else {
    None
  }
}
