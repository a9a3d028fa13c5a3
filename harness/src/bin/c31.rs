//! C31: debug output shows the parts of a grammar.

use bongo::grammar::Grammar;
use bongo::start_grammar::wrap_grammar_with_start;
use bongo::state::ProdState;
use checks::whole::{self, make, Types};
use checks::short;
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{Gram, Sym};
use std::fmt::{self, Debug, Formatter};

/// Text printed as it is, in compact and in indented form.
struct Raw(String);
impl Debug for Raw {
  fn fmt(&self, f: &mut Formatter) -> fmt::Result {
    f.write_str(&self.0)
  }
}

fn elem<T: Debug, NT: Debug, AK, AV>(e: &model::Elem, ty: &Types<T, NT, AK, AV>) -> String {
  match e.sym {
    Sym::T(t) => format!("{:?}", (ty.t)(t)),
    Sym::N(n) => format!("<{:?}>", (ty.nt)(n)),
  }
}

fn named<T: Debug, NT: Debug, AK, AV>(e: &model::Elem, ty: &Types<T, NT, AK, AV>) -> Raw {
  match &e.name {
    None => Raw(elem(e, ty)),
    Some(n) => Raw(format!("{}:{}", n, elem(e, ty))),
  }
}

/// The standard form of a structure with the given fields.
struct Form<'a>(&'a str, Vec<(&'a str, Box<dyn Debug + 'a>)>);
impl Debug for Form<'_> {
  fn fmt(&self, f: &mut Formatter) -> fmt::Result {
    let mut s = f.debug_struct(self.0);
    for (n, v) in &self.1 {
      s.field(n, v);
    }
    s.finish()
  }
}

fn prod_form<'a, T: Debug, NT: Debug + 'a, AK, AV>(
  h: u16,
  p: &model::Prod,
  ty: &Types<T, NT, AK, AV>,
) -> Form<'a> {
  Form(
    "Prod",
    vec![
      ("head", Box::new((ty.nt)(h))),
      ("elems", Box::new(p.elems.iter().map(|e| named(e, ty)).collect::<Vec<_>>())),
    ],
  )
}

fn rule_form<'a, T: Debug, NT: Debug + 'a, AK, AV>(h: u16, g: &Gram, ty: &Types<T, NT, AK, AV>) -> Form<'a> {
  let prods: Vec<Form> = g.rules[h as usize].iter().map(|p| prod_form(h, p, ty)).collect();
  Form("Rule", vec![("head", Box::new((ty.nt)(h))), ("prods", Box::new(prods))])
}

fn same(what: &str, real: &dyn Debug, want: &dyn Debug) -> Res {
  let r = caught_panic("printing", || (format!("{:?}", real), format!("{:#?}", real)))?;
  let w = (format!("{:?}", want), format!("{:#?}", want));
  ensure!(r.0 == w.0, "{} prints as\n{}\ninstead of\n{}", what, r.0, w.0);
  ensure!(r.1 == w.1, "{} prints, indented, as\n{}\ninstead of\n{}", what, r.1, w.1);
  Ok(())
}

fn check<T, NT, AK, AV>(g: &Gram, ty: &Types<T, NT, AK, AV>, src: &mut Src, ctx: &mut Ctx) -> Res
where
  T: Clone + Debug,
  NT: Ord + Clone + Debug,
  AK: Ord + Clone + Debug,
  AV: Clone + Debug,
{
  let how: Vec<u8> = (0..5).map(|_| src.below(12) as u8).collect();
  let b: Grammar<T, NT, AK, AV> = make(g, ty, &how)?;
  // In the order of the heads.
  let mut heads: Vec<u16> = (0..g.n() as u16).collect();
  heads.sort_by_key(|h| (ty.nt)(*h));
  for (i, h) in heads.iter().enumerate() {
    let rule = b.get_rule(&(ty.nt)(*h));
    for (p, m) in rule.prods().zip(&g.rules[*h as usize]) {
      for (e, me) in p.prod_elements().iter().zip(&m.elems) {
        same("an element", e.elem(), &Raw(elem(me, ty)))?;
        same("an element with its name", e, &named(me, ty))?;
      }
      if i < 3 {
        same("a production", &p, &prod_form(*h, m, ty))?;
        let key = Form("ProdKey", vec![("head", Box::new((ty.nt)(*h))), ("action_key", Box::new((ty.ak)(m.key)))]);
        same("a production key", &p.prod_key(), &key)?;
        let mut st = ProdState::from_start(p);
        let steps = src.count(0, m.elems.len());
        for _ in 0..steps {
          st = st.next_elem_state().ok_or("no next element")?.1;
        }
        let form = Form("ProdState", vec![("prod", Box::new(prod_form(*h, m, ty))), ("index", Box::new(steps))]);
        same("a dotted production", &st, &form)?;
      }
    }
    if i < 3 {
      same("a rule", &rule, &rule_form(*h, g, ty))?;
    }
  }
  let all: Vec<&model::Elem> = heads.iter().flat_map(|h| &g.rules[*h as usize]).flat_map(|p| &p.elems).collect();
  let terms: Vec<T> =
    all.iter().filter_map(|e| if let Sym::T(t) = e.sym { Some((ty.t)(t)) } else { None }).collect();
  let nts: Vec<NT> =
    all.iter().filter_map(|e| if let Sym::N(n) = e.sym { Some((ty.nt)(n)) } else { None }).collect();
  let rules: Vec<Form> = heads.iter().map(|h| rule_form(*h, g, ty)).collect();
  let form = Form("Grammar", vec![("Terms", Box::new(terms)), ("NonTerms", Box::new(nts)), ("Rules", Box::new(rules))]);
  same("the grammar", &b, &form)?;
  same("a clone of the grammar", &b.clone(), &form)?;
  // The wrapped grammar shows everything too; only that it prints at all, and
  // has the parts, is looked at.
  let elems: Vec<String> = all.iter().map(|e| format!("{:?}", e.name)).collect();
  let wrapped = caught_panic("wrapping", || wrap_grammar_with_start(b))?.map_err(|_| "wrapping fails")?;
  let text = caught_panic("printing", || format!("{:?}", wrapped))?;
  ensure!(
    text.matches("Rule {").count() >= g.n() + 1 && text.matches("Prod {").count() >= g.prods().count() + 1,
    "a rule or production is missing from the wrapped grammar: {}",
    text
  );
  if elems.len() >= 2 {
    ctx.nontrivial(g);
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("own types", 100_000, 1_000_000, |src: &mut Src, ctx: &mut Ctx| {
      let (mut g, label) = gen::grammar(src, Names::Distinct);
      ctx.label(label);
      whole::rename(src, &mut g);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      ctx.show(|| format!("{:?}", g));
      check(&g, &whole::own(), src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("bongo's types", 100_000, 1_000_000, |src: &mut Src, ctx: &mut Ctx| {
      let (mut g, label) = gen::grammar(src, Names::Distinct);
      ctx.label(label);
      whole::rename(src, &mut g);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      ctx.show(|| format!("{:?}", g));
      let shift = src.idx(whole::TEXTS.len());
      check(&g, &whole::names(shift), src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("extreme", 8_000, 80_000, |src: &mut Src, ctx: &mut Ctx| {
      let (mut g, label) = gen::extreme(src, Names::Distinct, 200);
      ctx.label(label);
      whole::rename(src, &mut g);
      ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
      ctx.show(|| format!("{:?}", g));
      check(&g, &whole::own(), src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("huge", 300, 3_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::huge(src, Names::Distinct, 20_000);
      ctx.label(label);
      ctx.show(|| format!("{}, {} rules, {} productions", label, g.n(), g.prods().count()));
      check(&g, &whole::own(), src, ctx).map_err(short)
    })
    .fuel(4_000_000_000, 4_000_000_000),
    Suite::random("nested types", 80_000, 640_000, |src: &mut Src, ctx: &mut Ctx| {
      // Symbols that take more than one line in indented form.
      let (g, label) = gen::grammar(src, Names::Distinct);
      ctx.label(label);
      ctx.show(|| format!("{:?}", g));
      let ty: Types<Vec<u16>, (u16, Option<u16>), [u16; 2], Option<u16>> = Types {
        t: Box::new(|i| vec![i; i as usize % 3]),
        nt: Box::new(|i| (9 - i % 10, Some(i))),
        ak: Box::new(|i| [i, 0]),
        av: Box::new(Some),
        same_av: Box::new(|a, v| *a == Some(v)),
      };
      check(&g, &ty, src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
    }),
  ];
  main_with(
    "C31",
    "A case is a random well-formed grammar; every element, the productions, production keys, dotted productions and rules of three heads, and the grammar are printed in compact and in indented form and compared with the standard form of structures with that content. Non-trivial: at least two elements.",
    &[],
    suites,
  )
}
