//! C24: pretty-printing shows the whole grammar.

use bongo::grammar::{Grammar, NonTerminal, Terminal};
use bongo::start_grammar::wrap_grammar_with_start;
use bongo::utils::{Name, ToDoc};
use checks::whole::{self, make, Types};
use checks::{elem_of, prod_elem_of};
use checks::short;
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{Gram, Sym};

/// Texts of symbols as they are printed, and the order of heads.
struct Texts {
  t: Box<dyn Fn(u16) -> String>,
  n: Box<dyn Fn(u16) -> String>,
  /// Texts are not empty, have no white space and none of the punctuation.
  plain: bool,
}

fn strip(s: &str) -> String {
  s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// The words of the printed form, in order.
fn words(g: &Gram, tx: &Texts, wrapped: bool, order: &[u16]) -> Vec<String> {
  let mut out = vec!["Start".to_string(), "=".to_string()];
  if wrapped {
    out.push("<START>,".to_string());
  } else {
    out.push((tx.n)(g.start) + ",");
  }
  out.push("Rules".to_string());
  out.push("{".to_string());
  if wrapped {
    for w in &["<START>", "=>"] {
      out.push(w.to_string());
    }
    out.push(format!("start:<{}>", (tx.n)(g.start)));
    out.push("<EOS>;".to_string());
  }
  for h in order {
    out.push((tx.n)(*h));
    out.push("=>".to_string());
    let rule = &g.rules[*h as usize];
    for (k, p) in rule.iter().enumerate() {
      if p.elems.is_empty() {
        out.push("ε".to_string());
      }
      for e in &p.elems {
        let sym = match e.sym {
          Sym::T(t) => (tx.t)(t),
          Sym::N(n) => format!("<{}>", (tx.n)(n)),
        };
        out.push(match &e.name {
          Some(n) => format!("{}:{}", n, sym),
          None => sym,
        });
      }
      let end = if k + 1 < rule.len() { "|" } else { ";" };
      if end == "|" {
        *out.last_mut().unwrap() += " |";
      } else {
        *out.last_mut().unwrap() += end;
      }
    }
  }
  out.push("},".to_string());
  out
}

fn same(printed: &str, want: &[String], plain: bool, what: &str) -> Res {
  let (a, b) = (strip(printed), strip(&want.concat()));
  if a != b {
    let at = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let tail = |s: &str| s.chars().skip(at).take(60).collect::<String>();
    return Err(format!(
      "{}: after {} characters (not counting white space), '{}' is printed instead of '{}'",
      what,
      at,
      tail(&a),
      tail(&b)
    ));
  }
  if plain {
    // Symbols are not run together. A line may be broken after the name of
    // an element.
    let mut got: Vec<String> = Vec::new();
    for w in printed.split_whitespace() {
      match got.last_mut() {
        Some(l) if l.ends_with(':') => *l += w,
        _ => got.push(w.to_string()),
      }
    }
    let want: Vec<&str> = want.iter().flat_map(|w| w.split_whitespace()).collect();
    ensure!(got == want, "{}: the words are {:?} instead of {:?}", what, got, want);
  }
  Ok(())
}

fn print<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, width: Option<usize>) -> String
where
  T: ToDoc,
  NT: ToDoc,
{
  match width {
    None => g.to_pretty(),
    Some(w) => {
      let arena = pretty::Arena::new();
      let s = format!("{}", g.to_doc(&arena).into_doc().pretty(w));
      s
    }
  }
}

fn check<T, NT, AK, AV>(g: &Gram, ty: &Types<T, NT, AK, AV>, tx: &Texts, src: &mut Src, ctx: &mut Ctx) -> Res
where
  T: Clone + ToDoc,
  NT: Ord + Clone + ToDoc + std::fmt::Debug,
  AK: Ord + Clone,
  AV: Clone,
{
  let how: Vec<u8> = (0..7).map(|_| src.below(12) as u8).collect();
  let b = make(g, ty, &how)?;
  let mut order: Vec<u16> = (0..g.n() as u16).collect();
  order.sort_by(|a, b| (ty.nt)(*a).cmp(&(ty.nt)(*b)));
  let widths = [None, Some(src.below(140) as usize), Some(*src.pick(&[0usize, 1, 2, 1000]))];
  let mut broken = false;
  let odd = |n: &String| n.is_empty() || n.contains(|c: char| c.is_whitespace() || c == ':');
  let plain = tx.plain && !g.prods().any(|(_, p)| p.elems.iter().filter_map(|e| e.name.as_ref()).any(odd));
  ctx.label_if(plain, "compared word by word");
  let want = words(g, tx, false, &order);
  for w in &widths {
    let s = caught_panic("printing", || print(&b, *w))?;
    broken |= w.is_none() && s.trim().contains('\n');
    same(&s, &want, plain, &format!("width {:?}: {}", w, s))?;
  }
  let sg = wrap_grammar_with_start(b).map_err(|e| format!("wrapping fails: {:?}", e))?;
  let want = words(g, tx, true, &order);
  for w in &widths {
    let s = caught_panic("printing", || print(&sg, *w))?;
    same(&s, &want, plain, &format!("wrapped, width {:?}: {}", w, s))?;
  }
  ctx.show(|| print(&sg, None));
  ctx.label_if(broken, "several lines");
  ctx.label_if(g.prods().any(|p| p.1.elems.is_empty()), "an empty production");
  if broken && g.prods().any(|p| p.1.elems.iter().any(|e| e.name.is_some())) {
    ctx.nontrivial(g);
  }
  Ok(())
}

fn numbered() -> Texts {
  Texts { t: Box::new(|i| format!("t{}", i)), n: Box::new(|i| format!("n{}", i)), plain: true }
}

fn random(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
  let (g, label) = if max == 0 {
    let names = *src.pick(&[Names::None, Names::Distinct]);
    gen::grammar(src, names)
  } else {
    let cfg = gen::Cfg {
      max_nts: max,
      max_terms: 20,
      max_prods: max / 2 + 1,
      max_len: max,
      p_nt: 40,
      p_empty: 10,
      p_base: 20,
      p_dup: 10,
      names: Names::Distinct,
    };
    (gen::with_cfg(src, &cfg), "wide")
  };
  ctx.label(label);
  let mut g = g;
  ctx.label_if(gen::share_keys(src, &mut g), "an action key twice in a rule");
  let mut odd = false;
  if src.chance(1, 4) {
    let before = g.clone();
    whole::rename(src, &mut g);
    odd = g != before;
  }
  let r = match src.below(2) {
    0 => {
      let mut tx = numbered();
      tx.plain = !odd;
      check(&g, &whole::own(), &tx, src, ctx)
    }
    _ => {
      let shift = src.idx(whole::TEXTS.len());
      let text = move |i: u16| {
        let k = i as usize + shift;
        let mut s = whole::TEXTS[k % whole::TEXTS.len()].to_string();
        for _ in 0..k / whole::TEXTS.len() {
          s.push('+');
        }
        s
      };
      let tx = Texts { t: Box::new(text), n: Box::new(text), plain: false };
      check(&g, &whole::names(shift), &tx, src, ctx)
    }
  };
  r.map_err(|m| format!("{:?}\n{}", g, m))
}

/// Long symbol texts: no line can hold two of them.
fn long_texts(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, _) = gen::grammar(src, Names::Distinct);
  let len = src.range(20, 200) as usize;
  let t = move |i: u16| format!("t{}{}", i, "x".repeat(len / (1 + i as usize % 3)));
  let n = move |i: u16| format!("n{:03}{}", i, "y".repeat(len / (1 + i as usize % 4)));
  let ty: Types<Terminal, NonTerminal, Name, u16> = Types {
    t: Box::new(move |i| Terminal::new(&t(i))),
    nt: Box::new(move |i| NonTerminal::new(&n(i))),
    ak: Box::new(|i| Name::new(&i.to_string())),
    av: Box::new(|i| i),
    same_av: Box::new(|a, i| *a == i),
  };
  let tx = Texts { t: Box::new(t), n: Box::new(n), plain: true };
  check(&g, &ty, &tx, src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
}

/// Elements and names on their own.
fn parts(src: &mut Src, ctx: &mut Ctx) -> Res {
  let sym = if src.flag() { Sym::N(src.below(20) as u16) } else { Sym::T(src.below(20) as u16) };
  let name = if src.flag() { Some(src.pick(whole::TEXTS).to_string()) } else { None };
  let e = model::Elem { name: name.clone(), sym };
  let w = src.idx(30);
  fn show(d: &impl ToDoc, w: usize) -> String {
    let arena = pretty::Arena::new();
    let s = format!("{}", d.to_doc(&arena).into_doc().pretty(w));
    s
  }
  let text = match sym {
    Sym::T(t) => format!("t{}", t),
    Sym::N(n) => format!("<n{}>", n),
  };
  let got = caught_panic("printing", || show(&elem_of(sym), w))?;
  ensure!(strip(&got) == text, "element {:?} is printed as '{}'", sym, got);
  let got = caught_panic("printing", || show(&prod_elem_of(&e), w))?;
  let want = match &name {
    Some(n) => format!("{}:{}", n, text),
    None => text,
  };
  ensure!(strip(&got) == strip(&want), "element {:?} is printed as '{}'", e, got);
  if let Some(n) = &name {
    let got = caught_panic("printing", || show(&Name::new(n), w))?;
    ensure!(strip(&got) == strip(n), "name {:?} is printed as '{}'", n, got);
    ctx.nontrivial(&(e, w));
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("random", 180_000, 1_500_000, |src: &mut Src, ctx: &mut Ctx| random(src, ctx, 0)),
    Suite::random("wide", 12_000, 100_000, |src: &mut Src, ctx: &mut Ctx| random(src, ctx, 14)),
    Suite::random("long texts", 100_000, 800_000, long_texts),
    Suite::random("extreme", 20_000, 200_000, |src: &mut Src, ctx: &mut Ctx| {
      let names = *src.pick(&[Names::None, Names::Distinct]);
      let (g, label) = gen::extreme(src, names, 300);
      ctx.label(label);
      check(&g, &whole::own(), &numbered(), src, ctx).map_err(|m| format!("{:?}\n{}", g, m))
    }),
    Suite::random("huge", 300, 3_000, |src: &mut Src, ctx: &mut Ctx| {
      let (g, label) = gen::huge(src, Names::Distinct, 40_000);
      ctx.label(label);
      check(&g, &whole::own(), &numbered(), src, ctx).map_err(short)
    })
    .fuel(4_000_000_000, 4_000_000_000),
    Suite::random("parts", 200_000, 1_600_000, parts),
  ];
  main_with(
    "C24",
    "A case is a grammar over the harness's or bongo's own symbol types, printed plainly and start-wrapped, at width 80 and two other widths; the text without white space is compared with the expected one, and (where symbol texts allow) the sequence of words too. Non-trivial: the printed form needs several lines and some element is named.",
    &["amount and place of white space are free, except that adjacent symbols are separated"],
    suites,
  )
}
