//! C29: the formatting helpers print like the standard collections.

use bongo::utils::fmt::{list_fmt, set_fmt, struct_fmt, tuple_fmt};
use checks::{text, whole};
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::{Debug, Formatter};

#[derive(Clone, Debug, Hash)]
enum Item {
  Num(i64),
  Text(String),
  Unit,
  Real(u64),
  Nested(Shape, String, Vec<(String, Item)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Shape {
  List,
  Set,
  Tuple,
  Struct,
}

/// Printed by the helpers.
#[derive(Clone)]
struct Real<'a>(&'a Item);
/// Printed by the standard library.
#[derive(Clone)]
struct Std<'a>(&'a Item);

fn real<'a>(shape: Shape, name: &'a str, items: &'a [(String, Item)]) -> Box<dyn Debug + 'a> {
  // Whatever is known of how many there are.
  let vals = checks::shy::shy((items.len() + name.len()) as u8, items.iter().map(|i| Real(&i.1)));
  match shape {
    Shape::List => Box::new(list_fmt(vals)),
    Shape::Set => Box::new(set_fmt(vals.collect::<Vec<_>>())),
    Shape::Tuple => Box::new(tuple_fmt(name, vals)),
    Shape::Struct => Box::new(struct_fmt(name, items.iter().map(|i| (i.0.as_str(), Real(&i.1))))),
  }
}

fn plain(shape: Shape, name: &str, items: &[(String, Item)], f: &mut Formatter) -> std::fmt::Result {
  match shape {
    Shape::List => f.debug_list().entries(items.iter().map(|i| Std(&i.1))).finish(),
    Shape::Set => f.debug_set().entries(items.iter().map(|i| Std(&i.1))).finish(),
    Shape::Tuple => {
      let mut t = f.debug_tuple(name);
      for i in items {
        t.field(&Std(&i.1));
      }
      t.finish()
    }
    Shape::Struct => {
      let mut t = f.debug_struct(name);
      for i in items {
        t.field(&i.0, &Std(&i.1));
      }
      t.finish()
    }
  }
}

impl Debug for Real<'_> {
  fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
    match self.0 {
      Item::Num(n) => Debug::fmt(n, f),
      Item::Text(t) => Debug::fmt(t, f),
      Item::Unit => f.write_str("Unit"),
      Item::Real(x) => Debug::fmt(&(*x as f64 / 8.0), f),
      Item::Nested(s, n, i) => real(*s, n, i).fmt(f),
    }
  }
}

impl Debug for Std<'_> {
  fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
    match self.0 {
      Item::Num(n) => Debug::fmt(n, f),
      Item::Text(t) => Debug::fmt(t, f),
      Item::Unit => f.write_str("Unit"),
      Item::Real(x) => Debug::fmt(&(*x as f64 / 8.0), f),
      Item::Nested(s, n, i) => plain(*s, n, i, f),
    }
  }
}

struct StdTop<'a>(Shape, &'a str, &'a [(String, Item)]);
impl Debug for StdTop<'_> {
  fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
    plain(self.0, self.1, self.2, f)
  }
}

fn name(src: &mut Src) -> String {
  if src.flag() {
    src.pick(whole::TEXTS).to_string()
  } else {
    text::random(src, 4).into_iter().collect()
  }
}

fn shape(src: &mut Src) -> Shape {
  *src.pick(&[Shape::List, Shape::Set, Shape::Tuple, Shape::Struct])
}

fn items(src: &mut Src, depth: usize) -> Vec<(String, Item)> {
  let n = src.count(0, 5);
  (0..n)
    .map(|_| {
      let key = name(src);
      let k = src.weighted(&[3, 3, 1, 1, if depth == 0 { 0 } else { 4 }]);
      let item = match k {
        0 => Item::Num(src.below(2000) as i64 - 1000),
        1 => Item::Text(name(src)),
        2 => Item::Unit,
        3 => Item::Real(src.below(100)),
        _ => {
          let s = shape(src);
          let n = name(src);
          Item::Nested(s, n, items(src, depth - 1))
        }
      };
      (key, item)
    })
    .collect()
}

/// In every form, twice.
fn compare(got: &dyn Debug, want: &dyn Debug, what: &str) -> Res {
  for _ in 0..2 {
    for (a, b) in vec![
      (caught_panic(what, || format!("{:?}", got))?, format!("{:?}", want)),
      (caught_panic(what, || format!("{:#?}", got))?, format!("{:#?}", want)),
      (caught_panic(what, || format!("{:06x?}|{:+.2?}", got, got))?, format!("{:06x?}|{:+.2?}", want, want)),
      (caught_panic(what, || format!("{:#?}", Some(got)))?, format!("{:#?}", Some(want))),
    ] {
      ensure!(a == b, "{}: printed as\n{}\ninstead of\n{}", what, a, b);
    }
  }
  Ok(())
}

fn random(src: &mut Src, ctx: &mut Ctx) -> Res {
  let s = shape(src);
  let n = name(src);
  let it = items(src, 3);
  let want = StdTop(s, &n, &it);
  ctx.show(|| format!("{:?}", want));
  // Items held in a collection, borrowed, or produced by an iterator; names
  // owned or borrowed.
  match src.below(3) {
    0 => compare(&*real(s, &n, &it), &want, &format!("{:?}", s))?,
    1 => {
      let v: Vec<Real> = it.iter().map(|i| Real(&i.1)).collect();
      match s {
        Shape::List => compare(&list_fmt(v.clone()), &want, "list_fmt of a vector")?,
        Shape::Set => compare(&set_fmt(&v), &want, "set_fmt of a borrowed vector")?,
        Shape::Tuple => compare(&tuple_fmt(n.clone(), &v), &want, "tuple_fmt of a borrowed vector")?,
        Shape::Struct => {
          let v: Vec<(String, Real)> = it.iter().map(|i| (i.0.clone(), Real(&i.1))).collect();
          compare(&struct_fmt(n.clone(), v), &want, "struct_fmt of a vector")?
        }
      }
    }
    _ => {
      let d: VecDeque<Real> = it.iter().map(|i| Real(&i.1)).collect();
      match s {
        Shape::List => compare(&list_fmt(&d), &want, "list_fmt of a deque")?,
        Shape::Set => compare(&set_fmt(d), &want, "set_fmt of a deque")?,
        Shape::Tuple => compare(&tuple_fmt(bongo::utils::Name::new(&n), d), &want, "tuple_fmt of a deque")?,
        Shape::Struct => {
          let f = struct_fmt(
            bongo::utils::Name::new(&n),
            it.iter().map(|i| (bongo::utils::Name::new(&i.0), Real(&i.1))),
          );
          compare(&f, &want, "struct_fmt of an iterator")?
        }
      }
    }
  }
  let nested = it.iter().any(|i| matches!(i.1, Item::Nested(..)));
  ctx.label(match s {
    Shape::List => "list",
    Shape::Set => "set",
    Shape::Tuple => "tuple",
    Shape::Struct => "struct",
  });
  ctx.label_if(it.is_empty(), "no items");
  ctx.label_if(nested, "nested");
  if it.len() > 1 {
    ctx.nontrivial(&(s, &n, &it));
  }
  Ok(())
}

/// Against the standard collections themselves.
fn collections(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.count(0, 8);
  let v: Vec<String> = (0..n).map(|_| name(src)).collect();
  let set: BTreeSet<String> = v.iter().cloned().collect();
  let nested: Vec<BTreeMap<String, usize>> =
    (0..n).map(|i| v[..=i].iter().map(|s| (s.clone(), i)).collect()).collect();
  ctx.show(|| format!("{:?}", v));
  compare(&list_fmt(&v), &v, "list_fmt")?;
  compare(&list_fmt(v.iter().cloned()), &v, "list_fmt")?;
  compare(&set_fmt(&set), &set, "set_fmt")?;
  compare(&list_fmt(&nested), &nested, "list_fmt")?;
  #[derive(Debug)]
  #[allow(dead_code)]
  struct Pair(String, usize);
  #[derive(Debug)]
  #[allow(dead_code)]
  struct Point {
    x: String,
    y: BTreeSet<String>,
  }
  let a = name(src);
  let items: [&dyn Debug; 2] = [&a, &n];
  compare(&tuple_fmt("Pair", items.iter()), &Pair(a.clone(), n), "tuple_fmt")?;
  let fields: [(&str, &dyn Debug); 2] = [("x", &a), ("y", &set)];
  compare(
    &struct_fmt("Point", fields.iter().copied()),
    &Point { x: a.clone(), y: set.clone() },
    "struct_fmt",
  )?;
  if n > 1 {
    ctx.nontrivial(&v);
  }
  Ok(())
}

/// Many items.
fn many(src: &mut Src, ctx: &mut Ctx) -> Res {
  let base = *src.pick(&[16usize, 64, 100, 128, 256, 1000, 1024, 4096]);
  let n = base - 1 + src.idx(3);
  let n = if src.chance(1, 20) { 66_000 } else { n };
  let v: Vec<usize> = (0..n).collect();
  let set: BTreeSet<usize> = v.iter().copied().collect();
  let s = shape(src);
  let title = name(src);
  let it: Vec<(String, Item)> = v.iter().map(|i| (format!("f{}", i), Item::Num(*i as i64))).collect();
  ctx.show(|| format!("{:?} {:?} of {} items", s, title, n));
  ctx.nontrivial(&(s, &title, n));
  let want = StdTop(s, &title, &it);
  compare(&*real(s, &title, &it), &want, &format!("{:?} of {} items", s, n))?;
  compare(&list_fmt(&v), &v, "list_fmt")?;
  compare(&set_fmt(&set), &set, "set_fmt")?;
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("random", 480_000, 3_840_000, random),
    Suite::random("many", 200, 2_000, many),
    Suite::random("collections", 100_000, 800_000, collections),
  ];
  main_with(
    "C29",
    "A case is a shape, a name and a sequence of items (nested up to three levels, printed by the helpers at every level on one side and by the standard builders on the other), in compact and indented form and with number formats, each twice; or a standard collection or derived struct. Non-trivial: there are two or more items.",
    &[],
    suites,
  )
}
