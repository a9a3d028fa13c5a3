//! Grammars on which the parser stays polynomial of low order, with long
//! sentences.

use engine::{ensure, Res, Src};
use model::forest::{Alt, Forest};
use model::{word_str, Gram, Sym};

pub const LEFT: &[&[&str]] = &[
  &["Aa|"],
  &["Aab|c"],
  &["AB|B", "b|c"],
  &["AB|", "aCb|c", "Cc|"],
  &["AaB|B", "BbC|C", "cAd|c"],
  &["AB|a", "bC|c", "Ca|b"],
  &["Ba|", "Ab|b"],
  &["BCa", "Bb|", "Cc|"],
];
pub const RIGHT: &[&[&str]] = &[&["aA|"], &["aAb|"], &["aA|b"], &["aAa|bAb|c"]];

/// The only ambiguous one of LEFT.
const AMBIGUOUS: usize = 6;

/// One of the grammars with a sentence of roughly one of the given lengths (a
/// shorter one for right recursion).
pub fn grammar_and_word(src: &mut Src, unambiguous: bool, lengths: &[usize]) -> (Gram, Vec<u16>) {
  let right = src.chance(1, 4);
  let mut which = src.idx(if right { RIGHT.len() } else { LEFT.len() });
  if unambiguous && !right && which == AMBIGUOUS {
    which = 0;
  }
  let g = Gram::parse('A', if right { RIGHT[which] } else { LEFT[which] });
  let n = if right { src.urange(10, 60) } else { *src.pick(lengths) };
  let w = long_word(src, right, which, n);
  (g, w)
}

/// A sentence of roughly `n` tokens of one of the grammars above.
fn long_word(src: &mut Src, right: bool, which: usize, n: usize) -> Vec<u16> {
  let (a, b, c, d) = (0u16, 1, 2, 3);
  let mut w = Vec::new();
  if right {
    match which {
      0 => w.resize(n, a),
      1 => {
        w.resize(n / 2, a);
        w.resize(n / 2 * 2, b);
      }
      2 => {
        w.resize(n, a);
        w.push(b);
      }
      _ => {
        let half: Vec<u16> = (0..n / 2).map(|_| src.below(2) as u16).collect();
        w = half.clone();
        w.push(c);
        w.extend(half.iter().rev());
      }
    }
    return w;
  }
  if matches!(which, 1 | 4 | 5) {
    w.push(if which == 5 { a } else { c });
  }
  let split = src.urange(0, n);
  while w.len() < n {
    match which {
      0 => w.push(a),
      1 => w.extend([a, b]),
      2 => w.push(1 + src.below(2) as u16),
      3 => {
        if src.flag() {
          w.push(c)
        } else {
          w.push(a);
          w.resize(w.len() + src.idx(4), c);
          w.push(b);
        }
      }
      4 => {
        w.push(src.below(2) as u16);
        if src.chance(1, 6) {
          w.extend([c, c, src.below(2) as u16, c, d]);
        } else {
          w.push(c);
        }
      }
      5 => {
        if src.flag() {
          w.push(c)
        } else {
          w.extend([b, b]);
          w.resize(w.len() + src.idx(4), a);
        }
      }
      6 => w.extend([b, a]),
      _ => w.push(if w.len() < split { b } else { c }),
    }
  }
  if which == 7 {
    w.push(a);
  }
  w
}

/// Nonterminals that end together and begin the given distances apart, in
/// grammars for which every state set is small.
pub fn far(which: usize, distances: &[usize]) -> (Gram, Vec<u16>) {
  const G: &[&[&str]] = &[
    // a..ac a..ac .. b
    &["BcA|b", "Ba|a"],
    &["BcC|b", "Ba|a", "BcA|b"],
    &["BcAC|b", "Ba|a", "|d"],
    &["BCA|b", "Ba|a", "D", "c"],
  ];
  let g = Gram::parse('A', G[which % G.len()]);
  let mut w = Vec::new();
  for d in distances {
    w.resize(w.len() + d.max(&2) - 1, 0);
    w.push(2);
  }
  w.push(1);
  (g, w)
}

/// Distances around powers of two.
pub fn far_distances(src: &mut Src) -> Vec<usize> {
  let n = src.urange(1, 4);
  (0..n)
    .map(|_| {
      let base = *src.pick(&[4usize, 8, 16, 32, 64, 127, 128, 255, 256, 256, 256, 512]);
      base - 1 + src.idx(3)
    })
    .collect()
}

/// The forest of an unambiguous grammar: the one tree there is, read without
/// recursion.
pub fn only_tree(g: &Gram, w: &[u16], f: &Forest, value: impl Fn(usize) -> u32) -> Res {
  let fail = |m: String| {
    let text = if w.len() > 700 { "(not shown)".to_string() } else { word_str(w) };
    format!("{:?}\ninput of {} tokens {}: {}", g, w.len(), text, m)
  };
  let mut stack = vec![(0usize, Sym::N(g.start))];
  let mut at = 0;
  let mut steps = 0;
  while let Some((node, s)) = stack.pop() {
    steps += 1;
    ensure!(steps < 100_000 + 10 * w.len(), "{}", fail("the tree does not end".to_string()));
    // The grammar is unambiguous.
    let alt = match &f.nodes[node][..] {
      [a] => a,
      a => return Err(fail(format!("a node of the only tree has {} alternatives", a.len()))),
    };
    match (alt, s) {
      (Alt::Leaf { kind, value: v }, Sym::T(t)) => {
        ensure!(
          *kind == t && at < w.len() && w[at] == t && *v == value(at),
          "{}",
          fail(format!("leaf {} is kind {} value {}", at, kind, v))
        );
        at += 1;
      }
      (Alt::Branch { key, kids }, Sym::N(n)) => {
        let p = g.rules[n as usize].iter().find(|p| p.key == *key);
        let p = p.ok_or_else(|| fail(format!("<{}> has no production with action {}", n, key)))?;
        ensure!(p.elems.len() == kids.len(), "{}", fail(format!("{} children for {:?}", kids.len(), p)));
        stack.extend(kids.iter().copied().zip(p.syms()).rev());
      }
      _ => return Err(fail(format!("{:?} stands for {:?}", alt, s))),
    }
  }
  ensure!(at == w.len(), "{}", fail(format!("the tree has {} leaves", at)));
  Ok(())
}
