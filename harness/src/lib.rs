//! Adapters between the plain-data models and the code under test.

pub mod dot;
pub mod nulls;
pub mod long;
pub mod order;
pub mod parse;
pub mod shy;
#[cfg(any(bongo_verif, bongo_verif_sync))]
pub mod sched;
pub mod sym;
pub mod text;
pub mod whole;

use bongo::grammar::{self, build, Grammar, GrammarErrors, ProdElement};
use bongo::start_grammar::{wrap_grammar_with_start, StartGrammar};
use bongo::utils::Name;
use model::{Gram, Sym};
pub use sym::{A, K, N, T, V};

pub type G = Grammar<T, N, K, A>;
pub type SG = StartGrammar<T, N, K, A>;

pub fn elem_of(s: Sym) -> grammar::Elem<T, N> {
  match s {
    Sym::T(t) => grammar::Elem::Term(T(t)),
    Sym::N(n) => grammar::Elem::NonTerm(N(n)),
  }
}

pub fn prod_elem_of(e: &model::Elem) -> ProdElement<T, N> {
  ProdElement::new(e.name.as_ref().map(Name::new), elem_of(e.sym))
}

/// Hands a grammar to the builder.
pub fn try_build(g: &Gram) -> Result<G, GrammarErrors<N>> {
  build(N(g.start), |gb| {
    for h in &g.decl {
      gb.add_rule(N(*h), |rb| {
        for (i, p) in g.rules[*h as usize].iter().enumerate() {
          if (i + *h as usize) % 3 == 2 {
            rb.add_prod_with_elems(
              K(p.key),
              A(p.val),
              p.elems.iter().map(prod_elem_of).collect::<Vec<_>>(),
            );
          } else {
            rb.add_prod(K(p.key), A(p.val), |pb| {
              for e in &p.elems {
                match (&e.name, e.sym) {
                  (None, Sym::T(t)) => pb.add_term(T(t)),
                  (None, Sym::N(n)) => pb.add_nonterm(N(n)),
                  (Some(s), Sym::T(t)) => {
                    pb.add_named_term(Name::new(s), T(t))
                  }
                  (Some(s), Sym::N(n)) => {
                    pb.add_named_nonterm(Name::new(s), N(n))
                  }
                };
              }
            });
          }
        }
      });
    }
  })
}

pub fn built(g: &Gram) -> Result<G, String> {
  match engine::caught_panic("build", || try_build(g))? {
    Ok(b) => Ok(b),
    Err(e) => Err(format!("a well-formed grammar is rejected: {:?}", e)),
  }
}

pub fn wrapped(g: &Gram) -> Result<SG, String> {
  let b = built(g)?;
  match engine::caught_panic("wrapping", || wrap_grammar_with_start(b))? {
    Ok(b) => Ok(b),
    Err(e) => Err(format!("wrapping a well-formed grammar fails: {:?}", e)),
  }
}

/// The beginning of a very long message.
pub fn short(message: String) -> String {
  message.chars().take(20_000).collect()
}
