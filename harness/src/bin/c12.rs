//! C12: null removal keeps every production traceable to its origin. The
//! assumed-empty occurrences and empty derivations are read through the hooks.

#[cfg(any(bongo_verif, bongo_verif_nonnull))]
mod hooked {
  use bongo::grammar::transform::nonnull::transform_to_nonnull;
  use bongo::utils::{Name, TreeNode, Void};
  use bongo::grammar::ProdKey;
  use checks::order::total_order;
  use checks::nulls::{empty_tree, keys, vanishing};
  use checks::{built, elem_of, K, N};
  use engine::{caught_panic, ensure, Ctx, Res, Src, Suite};
  use model::gen::{self, Names};
  use model::{analyse, Gram, Sym};
  use std::collections::{BTreeMap, BTreeSet};

  fn check(g: &Gram, ctx: &mut Ctx) -> Res {
    let null = analyse::nullable(g);
    let gone = vanishing(g);
    if analyse::empty_derivations(g).iter().any(|c| *c > 1) || gone[g.start as usize] {
      ctx.label("null removal does not apply");
      return Ok(());
    }
    // 2^occurrences productions
    let several = |s: &Sym| matches!(s, Sym::N(m) if null[*m as usize] && !gone[*m as usize]);
    if g.prods().any(|(_, p)| p.syms().filter(several).count() > 14) {
      ctx.label("skipped: too many versions");
      return Ok(());
    }
    let b = built(g)?;
    let keys = keys(&b);
    let t = caught_panic("null removal", || transform_to_nonnull(&b)).map_err(|m| format!("{:?}: {}", g, m))?;
    // Whether it may fail is C11's business.
    let t = match t {
      Ok(t) => t,
      Err(_) => {
        ctx.label("null removal fails");
        return Ok(());
      }
    };
    let mut seen: BTreeSet<(u16, u16, Vec<bool>)> = BTreeSet::new();
    let mut dropped_named = 0;
    for r in t.rules() {
      for p in r.prods() {
        let head = r.head().0;
        ensure!(p.head() == r.head(), "{:?}: a production of {:?} in the rule of {:?}", g, p.head(), r.head());
        let key = p.action_key().verif_action().0;
        let states = p.action_key().verif_null_states().to_vec();
        let here = || format!("{:?}: production [{} {:?}] of <{}>: {:?}", g, key, states, head, p.prod_elements());
        let origin = match g.rules.get(head as usize).and_then(|r| r.iter().find(|q| q.key == key)) {
          Some(q) => q,
          None => return Err(format!("{}: there is no such original production", here())),
        };
        let nts = origin.syms().filter(|s| matches!(s, Sym::N(_))).count();
        ensure!(
          states.len() == nts,
          "{}: {} states for {} nonterminal occurrences",
          here(),
          states.len(),
          nts
        );
        let mut k = 0;
        let mut elems = Vec::new();
        let mut empties: BTreeMap<Name, TreeNode<ProdKey<N, K>, Void>> = BTreeMap::new();
        for e in &origin.elems {
          if let Sym::N(m) = e.sym {
            k += 1;
            if states[k - 1] {
              ensure!(null[m as usize], "{}: <{}> cannot be empty", here(), m);
              if let Some(name) = &e.name {
                empties.insert(Name::new(name), empty_tree(g, &keys, &null, m).0);
                dropped_named += 1;
              }
              continue;
            }
            ensure!(!gone[m as usize], "{}: <{}> can only vanish but is kept", here(), m);
          }
          elems.push(e);
        }
        ensure!(!elems.is_empty(), "{}: nothing is left", here());
        ensure!(
          p.prod_elements().len() == elems.len()
            && p.prod_elements().iter().zip(&elems).all(|(x, y)| {
              *x.elem() == elem_of(y.sym) && x.id().map(|s| s.to_string()) == y.name
            }),
          "{}: expected elements {:?}",
          here(),
          elems
        );
        let v = p.action_value();
        ensure!(
          v.verif_parent_value().0 == origin.val,
          "{}: action value {:?} instead of {}",
          here(),
          v.verif_parent_value(),
          origin.val
        );
        ensure!(
          *v.verif_null_arguments() == empties,
          "{}: empty derivations\n  got:      {:?}\n  expected: {:?}",
          here(),
          v.verif_null_arguments(),
          empties
        );
        ensure!(seen.insert((head, key, states.clone())), "{}: occurs twice", here());
      }
    }
    // Every assignment there should be.
    let mut want = 0;
    for (h, p) in g.prods() {
      let nts: Vec<u16> = p
        .syms()
        .filter_map(|s| match s {
          Sym::N(m) => Some(m),
          _ => None,
        })
        .collect();
      let terms = p.elems.len() - nts.len();
      let mut all: Vec<Vec<bool>> = vec![vec![]];
      for m in &nts {
        let mut next = Vec::new();
        for v in all {
          for empty in [false, true] {
            if if empty { null[*m as usize] } else { !gone[*m as usize] } {
              let mut v = v.clone();
              v.push(empty);
              next.push(v);
            }
          }
        }
        all = next;
      }
      for states in all {
        if terms == 0 && states.iter().all(|x| *x) {
          continue;
        }
        want += 1;
        ensure!(
          seen.contains(&(h, p.key, states.clone())),
          "{:?}: production k{} of <{}> with {:?} is missing",
          g,
          p.key,
          h,
          states
        );
      }
    }
    // The action keys are told apart by just that.
    let all: Vec<_> = t.prods().collect();
    let step = all.len() / 24 + 1;
    let some: Vec<_> = all
      .iter()
      .step_by(step)
      .map(|p| {
        let k = p.action_key();
        ((k.verif_action().0, k.verif_null_states().to_vec()), k.clone())
      })
      .collect();
    total_order(&some, "action keys").map_err(|m| format!("{:?}: {}", g, m))?;
    for (p, (id, k)) in all.iter().step_by(step).zip(&some) {
      ensure!(p.action_key() == k, "{:?}: action key {:?} is not equal to its clone", g, id);
    }
    ensure!(seen.len() == want, "{:?}: {} productions instead of {}", g, seen.len(), want);
    ctx.show(|| format!("{:?}: {} productions become {}", g, g.prods().count(), want));
    ctx.label(match dropped_named {
      0 => "no named occurrence dropped",
      1..=3 => "1-3 named occurrences dropped",
      _ => "4 or more named occurrences dropped",
    });
    ctx.label_if(gone.iter().any(|x| *x), "some nonterminal vanishes");
    if dropped_named > 0 {
      ctx.nontrivial(g);
    }
    Ok(())
  }

  pub fn suites() -> Vec<Suite> {
    let named = |g: Gram| g.named();
    vec![
      Suite::enumerated("small-2nt", 1, 1, move |src: &mut Src, ctx: &mut Ctx| {
        let g = gen::enumerate_small(src, 2, 1, 2, 3);
        match g {
          Some(g) if !src.dry() => check(&named(g), ctx),
          _ => Ok(()),
        }
      }),
      Suite::enumerated("small-3nt", 5, 1, move |src: &mut Src, ctx: &mut Ctx| {
        let g = gen::enumerate_small(src, 3, 1, 1, 3);
        match g {
          Some(g) if !src.dry() => check(&named(g), ctx),
          _ => Ok(()),
        }
      }),
      Suite::random("null-unambiguous", 450_000, 4_000_000, |src: &mut Src, ctx: &mut Ctx| {
        let g = gen::null_unambiguous(src, Names::Distinct);
        check(&g, ctx)
      }),
      Suite::random("extreme", 40_000, 400_000, |src: &mut Src, ctx: &mut Ctx| {
        let (g, label) = gen::extreme(src, Names::Distinct, 100);
        ctx.label(label);
        let g = gen::limit_nullable(src, &g, 6, 16);
        check(&g, ctx)
      }),
      Suite::random("many", 600, 6_000, |src: &mut Src, ctx: &mut Ctx| {
        let g = gen::many_nullable(src, Names::Distinct, 7, 13);
        check(&g, ctx).map_err(checks::short)
      }),
      Suite::random("random", 500_000, 4_000_000, |src: &mut Src, ctx: &mut Ctx| {
        let (g, label) = gen::grammar(src, Names::Distinct);
        ctx.label(label);
        check(&g, ctx)
      }),
    ]
  }
}

#[cfg(not(any(bongo_verif, bongo_verif_nonnull)))]
mod hooked {
  pub fn suites() -> Vec<engine::Suite> {
    Vec::new()
  }
}

/// What can be seen without hooks: the element lists of each head.
mod visible {
  use bongo::grammar::transform::nonnull::transform_to_nonnull;
  use checks::built;
  use checks::nulls::{read_nonnull, vanishing};
  use engine::{caught_panic, ensure_eq, Ctx, Res, Src, Suite};
  use model::gen::{self, Names};
  use model::{analyse, Elem, Gram, Sym};

  fn check(g: &Gram, ctx: &mut Ctx) -> Res {
    let null = analyse::nullable(g);
    let gone = vanishing(g);
    if analyse::empty_derivations(g).iter().any(|c| *c > 1) || gone[g.start as usize] {
      ctx.label("null removal does not apply");
      return Ok(());
    }
    let several = |s: &Sym| matches!(s, Sym::N(m) if null[*m as usize] && !gone[*m as usize]);
    if g.prods().any(|(_, p)| p.syms().filter(several).count() > 14) {
      ctx.label("skipped: too many versions");
      return Ok(());
    }
    let b = built(g)?;
    let t = match caught_panic("null removal", || transform_to_nonnull(&b)).map_err(|m| format!("{:?}: {}", g, m))? {
      Ok(t) => t,
      Err(_) => return Ok(()),
    };
    let (h, _) = read_nonnull(&t, g.n(), g.terms).map_err(|m| format!("{:?}: {}", g, m))?;
    for n in 0..g.n() {
      let mut want: Vec<Vec<Elem>> = Vec::new();
      for p in &g.rules[n] {
        let mut versions: Vec<Vec<Elem>> = vec![vec![]];
        for e in &p.elems {
          let (may_drop, may_keep) = match e.sym {
            Sym::T(_) => (false, true),
            Sym::N(m) => (null[m as usize], !gone[m as usize]),
          };
          let mut next = Vec::new();
          for v in versions {
            if may_drop {
              next.push(v.clone());
            }
            if may_keep {
              let mut v = v;
              v.push(e.clone());
              next.push(v);
            }
          }
          versions = next;
        }
        want.extend(versions.into_iter().filter(|v| !v.is_empty()));
      }
      let mut got: Vec<Vec<Elem>> = h.rules[n].iter().map(|p| p.elems.clone()).collect();
      want.sort();
      got.sort();
      ensure_eq!(got, want, "{:?}: productions of <{}> after null removal", g, n);
    }
    if null.iter().any(|x| *x) {
      ctx.nontrivial(g);
    }
    Ok(())
  }

  pub fn suite() -> Suite {
    Suite::random("elements", 320_000, 2_560_000, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::null_unambiguous(src, Names::Distinct);
      check(&g, ctx)
    })
  }

  pub fn many() -> Suite {
    Suite::random("many elements", 600, 6_000, |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::many_nullable(src, Names::Distinct, 7, 13);
      check(&g, ctx).map_err(checks::short)
    })
  }
}

fn main() {
  engine::main_with(
    "C12",
    "A case is a well-formed grammar to which null removal applies; every resulting production is recomputed from the original production and the set of occurrences assumed empty that it reports, and the set of all such pairs is compared with the definition. Non-trivial: a named occurrence is dropped.",
    &["names are distinct within a production", "action keys and values of the result are read through the hooks"],
    {
      let mut s = hooked::suites();
      s.push(visible::suite());
      s.push(visible::many());
      s
    },
  )
}
