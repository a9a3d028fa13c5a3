//! Grammars as plain data, generators for them, and reference algorithms.
//! Nothing here depends on (or imitates the structure of) the code under test.

pub mod analyse;
pub mod forest;
pub mod gen;
pub mod lang;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Sym {
  T(u16),
  N(u16),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Elem {
  pub name: Option<String>,
  pub sym: Sym,
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Prod {
  pub key: u16,
  pub val: u16,
  pub elems: Vec<Elem>,
}

impl Prod {
  pub fn syms(&self) -> impl DoubleEndedIterator<Item = Sym> + ExactSizeIterator + '_ {
    self.elems.iter().map(|e| e.sym)
  }
}

/// Rules of the nonterminals `0..rules.len()`.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Gram {
  pub start: u16,
  /// Terminals are `0..terms`.
  pub terms: u16,
  pub rules: Vec<Vec<Prod>>,
  /// Order in which rules are declared to the builder.
  pub decl: Vec<u16>,
}

impl Gram {
  pub fn prods(&self) -> impl Iterator<Item = (u16, &Prod)> {
    self
      .rules
      .iter()
      .enumerate()
      .flat_map(|(h, r)| r.iter().map(move |p| (h as u16, p)))
  }

  pub fn n(&self) -> usize {
    self.rules.len()
  }

  /// Handy for writing fixed grammars: nonterminals are upper-case letters
  /// (A = 0), terminals lower-case; one string per rule, alternatives
  /// separated by `|`. The first rule is A.
  pub fn parse(start: char, rules: &[&str]) -> Gram {
    let mut terms = 0;
    let rules: Vec<Vec<Prod>> = rules
      .iter()
      .map(|r| {
        r.split('|')
          .enumerate()
          .map(|(k, p)| Prod {
            key: k as u16,
            val: k as u16,
            elems: p
              .trim()
              .chars()
              .filter(|c| c.is_ascii_alphabetic())
              .map(|c| Elem {
                name: None,
                sym: if c.is_ascii_uppercase() {
                  Sym::N(c as u16 - 'A' as u16)
                } else {
                  let t = c as u16 - 'a' as u16;
                  terms = terms.max(t + 1);
                  Sym::T(t)
                },
              })
              .collect(),
          })
          .collect()
      })
      .collect();
    let n = rules.len() as u16;
    Gram {
      start: start as u16 - 'A' as u16,
      terms,
      rules,
      decl: (0..n).collect(),
    }
  }

  /// Gives every nonterminal element (or every element) a name.
  pub fn named(mut self) -> Gram {
    for r in &mut self.rules {
      for p in r {
        for (i, e) in p.elems.iter_mut().enumerate() {
          e.name = Some(format!("n{}", i));
        }
      }
    }
    self
  }
}

pub fn sym_str(s: Sym) -> String {
  match s {
    Sym::T(t) if t < 26 => ((b'a' + t as u8) as char).to_string(),
    Sym::T(t) => format!("t{}", t),
    Sym::N(n) => format!("<{}>", n),
  }
}

pub fn word_str(w: &[u16]) -> String {
  if w.is_empty() {
    return "(empty)".to_string();
  }
  w.iter()
    .map(|t| sym_str(Sym::T(*t)))
    .collect::<Vec<_>>()
    .join(" ")
}

impl std::fmt::Debug for Gram {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "grammar(start <{}>", self.start)?;
    for (h, r) in self.rules.iter().enumerate() {
      write!(f, "; <{}> =>", h)?;
      for (i, p) in r.iter().enumerate() {
        if i > 0 {
          write!(f, " |")?;
        }
        write!(f, " [k{}", p.key)?;
        if p.val != p.key {
          write!(f, " v{}", p.val)?;
        }
        write!(f, "]")?;
        if p.elems.is_empty() {
          write!(f, " ()")?;
        }
        for e in &p.elems {
          match &e.name {
            Some(n) => write!(f, " {:?}:{}", n, sym_str(e.sym))?,
            None => write!(f, " {}", sym_str(e.sym))?,
          }
        }
      }
    }
    if !self.decl.iter().enumerate().all(|(i, d)| i == *d as usize) {
      write!(f, "; declared {:?}", self.decl)?;
    }
    write!(f, ")")
  }
}
