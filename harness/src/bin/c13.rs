//! C13: start-wrapping adds exactly one start rule and changes nothing else.

use bongo::grammar::{Elem, Grammar};
use bongo::start_grammar::{
  wrap_grammar_with_start, StartActionKey, StartActionValue, StartNonTerminal, StreamTerminal,
};
use checks::whole::{make, names, own, rename, same_grammar, Types, TEXTS};
use checks::short;
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{Gram, Prod, Sym};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

type Wrapped<T, NT, AK, AV> =
  Types<StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>;

/// The model of the wrapped grammar: one more nonterminal, terminal and key
/// (numbered after the others, shifting the absent ones up by one).
fn wrap_model(g: &Gram) -> (Gram, u16, u16) {
  let mut w = g.clone();
  let fresh = g.n() as u16;
  let key = g.prods().map(|(_, p)| p.key + 1).max().unwrap_or(0);
  let val = g.prods().map(|(_, p)| p.val + 1).max().unwrap_or(0);
  w.rules.push(vec![Prod {
    key,
    val,
    elems: vec![
      model::Elem {
        name: None,
        sym: Sym::N(g.start),
      },
      model::Elem {
        name: None,
        sym: Sym::T(g.terms),
      },
    ],
  }]);
  w.decl.push(fresh);
  w.start = fresh;
  w.terms += 1;
  (w, key, val)
}

fn wrap_types<T: 'static, NT: 'static, AK: 'static, AV: 'static>(
  g: &Gram,
  key: u16,
  val: u16,
  ty: Rc<Types<T, NT, AK, AV>>,
) -> Wrapped<T, NT, AK, AV> {
  let fresh = g.n() as u16;
  let eos = g.terms;
  let (a, b, c, d, e) = (ty.clone(), ty.clone(), ty.clone(), ty.clone(), ty);
  Types {
    t: Box::new(move |i| {
      if i == eos {
        StreamTerminal::EndOfStream
      } else {
        StreamTerminal::Term((a.t)(if i > eos { i - 1 } else { i }))
      }
    }),
    nt: Box::new(move |i| {
      if i == fresh {
        StartNonTerminal::Start
      } else {
        StartNonTerminal::NTerm((b.nt)(if i > fresh { i - 1 } else { i }))
      }
    }),
    ak: Box::new(move |i| {
      if i == key {
        StartActionKey::Start
      } else {
        StartActionKey::ActionKey((c.ak)(i))
      }
    }),
    av: Box::new(move |i| {
      if i == val {
        StartActionValue::Start
      } else {
        StartActionValue::ActionValue((d.av)(i))
      }
    }),
    same_av: Box::new(move |v, i| match v {
      StartActionValue::Start => i == val,
      StartActionValue::ActionValue(v) => i != val && (e.same_av)(v, i),
    }),
  }
}

/// Wraps `b` (which `g` describes) and compares.
#[allow(clippy::type_complexity)]
fn wrap<T, NT, AK, AV>(
  g: &Gram,
  b: Grammar<T, NT, AK, AV>,
  ty: Rc<Types<T, NT, AK, AV>>,
) -> Result<
  (
    Gram,
    Grammar<StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>,
    Wrapped<T, NT, AK, AV>,
  ),
  String,
>
where
  T: Clone + Eq + Debug + 'static,
  NT: Ord + Clone + Debug + 'static,
  AK: Ord + Clone + Debug + 'static,
  AV: Clone + 'static,
{
  let (mut w, key, val) = wrap_model(g);
  let kinds: Vec<T> = (0..g.terms + 2).map(|i| (ty.t)(i)).collect();
  let wt = wrap_types(g, key, val, ty);
  let r = caught_panic("wrapping", || wrap_grammar_with_start(b))?;
  let sg = r.map_err(|e| format!("wrapping fails: {:?}", e))?;

  // The start rule through its own accessors.
  let rule = caught_panic("start_rule", || sg.start_rule())?;
  ensure!(*rule.head() == StartNonTerminal::Start, "the start rule is that of {:?}", rule.head());
  let prod = caught_panic("start_prod", || sg.start_prod())?;
  let prods: Vec<_> = rule.prods().collect();
  ensure!(prods.len() == 1, "{} start productions", prods.len());
  ensure!(prods[0] == prod, "start_prod() is not the production of the start rule");
  ensure!(prod.action_key().as_base().is_none(), "the start production has an original action key");
  ensure!(
    prod.num_elements() == 2
      && matches!(prod.element_at(0), Some(Elem::NonTerm(StartNonTerminal::NTerm(_))))
      && matches!(prod.element_at(1), Some(Elem::Term(StreamTerminal::EndOfStream))),
    "start production {:?}",
    prod.prod_elements()
  );
  // How its elements are called is nobody's business.
  let start_names: Vec<Option<String>> =
    prod.prod_elements().iter().map(|e| e.id().map(|n| n.str().to_string())).collect();
  let last = w.rules.len() - 1;
  for (e, n) in w.rules[last][0].elems.iter_mut().zip(start_names) {
    e.name = n;
  }

  same_grammar(&w, &sg, &wt)?;

  // Fresh symbols occur nowhere else.
  let (mut eos, mut start) = (0, 0);
  let mut by_kind: BTreeMap<usize, usize> = BTreeMap::new();
  for p in sg.prods() {
    for e in p.elements() {
      match e {
        Elem::Term(t) => {
          let is_eos = *t == StreamTerminal::EndOfStream;
          ensure!(t.is_eos() == is_eos, "is_eos of {:?}", t);
          if is_eos {
            eos += 1;
          }
          for (i, k) in kinds.iter().enumerate() {
            let same = matches!(t, StreamTerminal::Term(x) if x == k);
            ensure!(t.has_kind(k) == same, "{:?}.has_kind({:?}) is {}", t, k, !same);
            if same {
              *by_kind.entry(i).or_insert(0) += 1;
            }
          }
        }
        Elem::NonTerm(n) => {
          if *n == StartNonTerminal::Start {
            start += 1;
          }
        }
      }
    }
    match p.action_key() {
      StartActionKey::Start => ensure!(*p.head() == StartNonTerminal::Start, "start action at {:?}", p.head()),
      StartActionKey::ActionKey(k) => {
        ensure!(p.action_key().as_base() == Some(k), "as_base of {:?}", k)
      }
    }
  }
  ensure!(eos == 1, "end-of-stream occurs {} times", eos);
  ensure!(start == 0, "the start nonterminal occurs {} times", start);
  let mut want: BTreeMap<usize, usize> = BTreeMap::new();
  for (_, p) in g.prods() {
    for s in p.syms() {
      if let Sym::T(t) = s {
        for (i, k) in kinds.iter().enumerate() {
          if *k == kinds[t as usize] {
            *want.entry(i).or_insert(0) += 1;
          }
        }
      }
    }
  }
  ensure!(by_kind == want, "occurrences of terminals {:?} instead of {:?}", by_kind, want);
  for k in &kinds {
    ensure!(
      !StreamTerminal::EndOfStream.has_kind(k),
      "end-of-stream matches {:?}",
      k
    );
    ensure!(StreamTerminal::Term(k.clone()) != StreamTerminal::EndOfStream, "end-of-stream equals {:?}", k);
  }
  Ok((w, sg, wt))
}

fn run<T, NT, AK, AV>(g: &Gram, ty: Types<T, NT, AK, AV>, how: &[u8], twice: bool) -> Res
where
  T: Clone + Eq + Debug + 'static,
  NT: Ord + Clone + Debug + 'static,
  AK: Ord + Clone + Debug + 'static,
  AV: Clone + 'static,
{
  let ty = Rc::new(ty);
  let b = make(g, &ty, how).map_err(|m| format!("{:?}: {}", g, m))?;
  let c = b.clone();
  let (w, sg, wt) = wrap(g, b, ty.clone()).map_err(|m| format!("{:?}: {}", g, m))?;
  same_grammar(g, &c, &ty).map_err(|m| format!("{:?}, a clone made before wrapping: {}", g, m))?;
  if twice {
    let d = sg.clone();
    let wt = Rc::new(wt);
    wrap(&w, sg, wt.clone()).map_err(|m| format!("{:?}, wrapped twice: {}", g, m))?;
    same_grammar(&w, &d, &wt).map_err(|m| format!("{:?}, a clone of the wrapped one: {}", g, m))?;
  }
  Ok(())
}

fn case(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (mut g, label) = gen::grammar(src, Names::Distinct);
  ctx.label(label);
  rename(src, &mut g);
  ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
  let how: Vec<u8> = (0..7).map(|_| src.below(4) as u8).collect();
  let twice = src.chance(1, 4);
  ctx.label_if(twice, "wrapped twice");
  ctx.show(|| format!("{:?}", g));
  let recursive = g.prods().any(|(_, p)| p.syms().any(|s| s == Sym::N(g.start)));
  ctx.label_if(recursive, "the start symbol is used in productions");
  if g.prods().count() >= 2 {
    ctx.nontrivial(&g);
  }
  if src.flag() {
    run(&g, own(), &how, twice)
  } else {
    ctx.label("names as symbols");
    run(&g, names(src.idx(TEXTS.len())), &how, twice)
  }
}

fn large(src: &mut Src, ctx: &mut Ctx) -> Res {
  let cfg = gen::Cfg {
    max_nts: 25,
    max_terms: 5,
    max_prods: *src.pick(&[3usize, 30]),
    max_len: *src.pick(&[3usize, 20]),
    p_nt: 40,
    p_empty: 10,
    p_base: 50,
    p_dup: 20,
    names: Names::Distinct,
  };
  let mut g = gen::with_cfg(src, &cfg);
  rename(src, &mut g);
  ctx.show(|| format!("{} rules, {} productions", g.n(), g.prods().count()));
  ctx.nontrivial(&g);
  run(&g, own(), &[1, 0, 2], false)
}

fn main() {
  let suites = vec![
    Suite::enumerated("small-2nt", 1, 1, move |src: &mut Src, ctx: &mut Ctx| {
      let g = gen::enumerate_small(src, 2, 1, 2, 2);
      match g {
        Some(g) if !src.dry() => {
          ctx.nontrivial(&g);
          run(&g.named(), own(), &[1, 0, 2], false)
        }
        _ => Ok(()),
      }
    }),
    Suite::random("random", 150_000, 1_500_000, case),
    Suite::random("large", 2_000, 20_000, large),
    Suite::random("extreme", 20_000, 200_000, |src: &mut Src, ctx: &mut Ctx| {
      let (mut g, label) = gen::extreme(src, Names::Distinct, 300);
      ctx.label(label);
      rename(src, &mut g);
      ctx.show(|| format!("{} rules, {} productions", g.n(), g.prods().count()));
      ctx.nontrivial(&g);
      let how: Vec<u8> = (0..7).map(|_| src.below(4) as u8).collect();
      let twice = src.chance(1, 4);
      run(&g, own(), &how, twice)
    }),
    Suite::random("huge", 200, 2_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::huge(src, Names::Distinct, 30_000);
      ctx.label(label);
      ctx.show(|| format!("{}, {} rules, {} productions", label, g.n(), g.prods().count()));
      ctx.nontrivial(&g);
      let how: Vec<u8> = (0..7).map(|_| src.below(4) as u8).collect();
      run(&g, own(), &how, false).map_err(short)
    })
    .fuel(4_000_000_000, 4_000_000_000),
  ];
  main_with(
    "C13",
    "A case is a well-formed grammar over plain or textual symbols; the wrapped grammar (and sometimes the grammar wrapped twice) is compared through every accessor with the original plus the start rule, and occurrences of the fresh symbols are counted. Non-trivial: at least two productions.",
    &[],
    suites,
  )
}
