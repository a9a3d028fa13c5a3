//! C20: a typed map behaves as one map per key type.

use bongo::utils::type_map::{TypeKey, TypeMap};
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// A key type together with what the model needs to know about it.
trait Kind: TypeKey {
  fn make(i: u64) -> Self;
  /// Equal for equal keys.
  fn canon(i: u64) -> u64;
  fn value(v: u64) -> Self::ValueType;
  fn read(v: &Self::ValueType) -> u64;
  fn update(v: &mut Self::ValueType, x: u64);
}

macro_rules! plain {
  ($name:ident, $value:ty, $to:expr, $from:expr) => {
    impl TypeKey for $name {
      type ValueType = $value;
    }
    impl Kind for $name {
      fn make(i: u64) -> Self {
        $name(i)
      }
      fn canon(i: u64) -> u64 {
        i
      }
      fn value(v: u64) -> $value {
        ($to)(v)
      }
      fn read(v: &$value) -> u64 {
        ($from)(v)
      }
      fn update(v: &mut $value, x: u64) {
        *v = ($to)(x)
      }
    }
  };
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct One(u64);
plain!(One, u64, |v| v, |v: &u64| *v);

// The same contents, order and value type.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Two(u64);
plain!(Two, u64, |v| v, |v: &u64| *v);

mod inner {
  // The same name, too.
  #[derive(PartialEq, Eq, PartialOrd, Ord)]
  pub struct One(pub u64);
}
use inner::One as OtherOne;
plain!(OtherOne, String, |v: u64| v.to_string(), |v: &String| v.parse().unwrap());

/// Sorted the other way round.
#[derive(PartialEq, Eq)]
struct Down(u64);
impl Ord for Down {
  fn cmp(&self, o: &Self) -> Ordering {
    o.0.cmp(&self.0)
  }
}
impl PartialOrd for Down {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    Some(self.cmp(o))
  }
}
plain!(Down, Box<u64>, Box::new, |v: &Box<u64>| **v);

/// Different keys may be equal.
struct Coarse(u64);
impl Ord for Coarse {
  fn cmp(&self, o: &Self) -> Ordering {
    (self.0 / 2).cmp(&(o.0 / 2))
  }
}
impl PartialOrd for Coarse {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    Some(self.cmp(o))
  }
}
impl PartialEq for Coarse {
  fn eq(&self, o: &Self) -> bool {
    self.cmp(o) == Ordering::Equal
  }
}
impl Eq for Coarse {}
impl TypeKey for Coarse {
  type ValueType = Vec<u64>;
}
impl Kind for Coarse {
  fn make(i: u64) -> Self {
    Coarse(i)
  }
  fn canon(i: u64) -> u64 {
    i / 2
  }
  fn value(v: u64) -> Vec<u64> {
    vec![0, v]
  }
  fn read(v: &Vec<u64>) -> u64 {
    v[v.len() - 1]
  }
  fn update(v: &mut Vec<u64>, x: u64) {
    v.push(x)
  }
}

/// Zero-sized.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Unit;
impl TypeKey for Unit {
  type ValueType = One;
}
impl Kind for Unit {
  fn make(_: u64) -> Self {
    Unit
  }
  fn canon(_: u64) -> u64 {
    0
  }
  fn value(v: u64) -> One {
    One(v)
  }
  fn read(v: &One) -> u64 {
    v.0
  }
  fn update(v: &mut One, x: u64) {
    v.0 = x
  }
}

/// One generic type, several instances; the value is the key of another map.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Of<X>(u64, std::marker::PhantomData<X>);
impl<X: Ord + 'static> TypeKey for Of<X> {
  type ValueType = (u64, std::marker::PhantomData<X>);
}
impl<X: Ord + 'static> Kind for Of<X> {
  fn make(i: u64) -> Self {
    Of(i, std::marker::PhantomData)
  }
  fn canon(i: u64) -> u64 {
    i
  }
  fn value(v: u64) -> Self::ValueType {
    (v, std::marker::PhantomData)
  }
  fn read(v: &Self::ValueType) -> u64 {
    v.0
  }
  fn update(v: &mut Self::ValueType, x: u64) {
    v.0 = x
  }
}

/// Text keys: sorted by content, owning memory.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Text(String);
impl TypeKey for Text {
  type ValueType = Option<u64>;
}
impl Kind for Text {
  fn make(i: u64) -> Self {
    Text(i.to_string())
  }
  fn canon(i: u64) -> u64 {
    i
  }
  fn value(v: u64) -> Option<u64> {
    if v == 0 {
      None
    } else {
      Some(v)
    }
  }
  fn read(v: &Option<u64>) -> u64 {
    v.unwrap_or(0)
  }
  fn update(v: &mut Option<u64>, x: u64) {
    *v = Self::value(x)
  }
}

const KINDS: u64 = 11;
const KEYS: u64 = 12;

/// The operations on the entries of one key type.
struct Ops {
  canon: fn(u64) -> u64,
  insert: fn(&mut TypeMap, u64, u64),
  get: fn(&TypeMap, u64) -> Option<u64>,
  get_mut: fn(&mut TypeMap, u64, Option<u64>) -> Option<u64>,
}

fn ops<K: Kind>() -> Ops {
  Ops {
    canon: K::canon,
    insert: |m, i, v| m.insert(K::make(i), K::value(v)),
    get: |m, i| m.get(&K::make(i)).map(K::read),
    get_mut: |m, i, to| {
      m.get_mut(&K::make(i)).map(|v| {
        let old = K::read(v);
        if let Some(to) = to {
          K::update(v, to);
        }
        old
      })
    },
  }
}

/// Two types that even have the same path.
fn local() -> [Ops; 2] {
  let a = {
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    struct Local(u64);
    plain!(Local, u64, |v| v, |v: &u64| *v);
    ops::<Local>()
  };
  let b = {
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    struct Local(u64);
    plain!(Local, String, |v: u64| v.to_string(), |v: &String| v.parse().unwrap());
    ops::<Local>()
  };
  [a, b]
}

fn table() -> &'static [Ops] {
  static TABLE: std::sync::OnceLock<Vec<Ops>> = std::sync::OnceLock::new();
  TABLE.get_or_init(|| {
    let [a, b] = local();
    vec![
      ops::<One>(),
      ops::<Two>(),
      ops::<OtherOne>(),
      ops::<Down>(),
      ops::<Coarse>(),
      ops::<Unit>(),
      ops::<Of<u8>>(),
      ops::<Of<One>>(),
      a,
      b,
      ops::<Text>(),
    ]
  })
}

fn on(kind: u64) -> &'static Ops {
  &table()[kind as usize]
}

type Model = BTreeMap<(u64, u64), u64>;

fn same(real: &TypeMap, model: &Model, keys: u64) -> Res {
  for k in 0..KINDS {
    for i in 0..keys {
      let got = caught_panic("get", || (on(k).get)(real, i))?;
      let want = model.get(&(k, (on(k).canon)(i))).copied();
      ensure!(got == want, "key {} of type {}: found {:?} instead of {:?}", i, k, got, want);
    }
  }
  Ok(())
}

fn history(src: &mut Src, ctx: &mut Ctx, max_maps: usize, max_ops: usize, keys: u64) -> Res {
  let n = src.urange(1, max_maps);
  let mut maps: Vec<(TypeMap, Model)> = (0..n).map(|_| (TypeMap::new(), Model::new())).collect();
  // Sometimes one type dominates.
  let kinds = src.range(1, KINDS);
  let first = src.below(KINDS);
  let mut log = String::new();
  let mut stamp = 0;
  let (mut overwritten, mut clashes, mut merges, mut mutated) = (0, 0, 0, 0);
  let r = (|| -> Res {
    for _ in 0..src.count(1, max_ops) {
      let m = src.idx(n);
      let k = (first + src.below(kinds)) % KINDS;
      let i = src.below(keys);
      let c = (on(k).canon)(i);
      stamp += 1;
      let mut touched = vec![m];
      match src.weighted(&[6, 3, 2, 3]) {
        0 => {
          let v = if src.chance(1, 8) { 0 } else { stamp };
          log += &format!("m{}.insert(type {} {}, {}); ", m, k, i, v);
          let (real, model) = &mut maps[m];
          caught_panic("insert", || (on(k).insert)(real, i, v))?;
          overwritten += model.insert((k, c), v).is_some() as u32;
        }
        1 => {
          log += &format!("m{}.get_mut(type {} {}) = {}; ", m, k, i, stamp);
          let (real, model) = &mut maps[m];
          let got = caught_panic("get_mut", || (on(k).get_mut)(real, i, Some(stamp)))?;
          let want = model.get(&(k, c)).copied();
          ensure!(got == want, "get_mut finds {:?} instead of {:?}", got, want);
          if want.is_some() {
            mutated += 1;
            model.insert((k, c), stamp);
          }
        }
        2 => {
          log += &format!("m{}.get(type {} {}); ", m, k, i);
          let got = caught_panic("get_mut", || (on(k).get_mut)(&mut maps[m].0, i, None))?;
          let want = maps[m].1.get(&(k, c)).copied();
          ensure!(got == want, "get_mut finds {:?} instead of {:?}", got, want);
        }
        _ => {
          let o = src.idx(n);
          if o == m {
            continue;
          }
          log += &format!("m{}.merge(m{}); ", m, o);
          let mut other = std::mem::replace(&mut maps[o], (TypeMap::new(), Model::new()));
          let (real, model) = &mut maps[m];
          caught_panic("merge", || real.merge(&mut other.0))?;
          merges += 1;
          for (key, v) in std::mem::take(&mut other.1) {
            clashes += model.insert(key, v).is_some() as u32;
          }
          maps[o] = other;
          touched.push(o);
        }
      }
      for m in touched {
        same(&maps[m].0, &maps[m].1, keys).map_err(|e| format!("map {}: {}", m, e))?;
      }
    }
    for m in 0..n {
      same(&maps[m].0, &maps[m].1, keys).map_err(|e| format!("map {}: {}", m, e))?;
    }
    Ok(())
  })();
  r.map_err(|m| format!("{}\nafter {}", m, log))?;
  ctx.show(|| log.clone());
  ctx.label_if(overwritten > 0, "a value replaced");
  ctx.label_if(mutated > 0, "a value changed in place");
  ctx.label_if(merges > 0, "a merge");
  ctx.label_if(clashes > 0, "a merge with equal keys");
  let types: std::collections::BTreeSet<u64> = maps.iter().flat_map(|m| m.1.keys().map(|k| k.0)).collect();
  ctx.label_if(types.len() >= 3, "three or more types");
  if types.len() >= 2 && (overwritten + mutated + clashes) > 0 {
    ctx.nontrivial(&log);
  }
  Ok(())
}

/// Large maps: ranges of keys of several types inserted, changed and merged.
fn bulk(src: &mut Src, ctx: &mut Ctx) -> Res {
  let mut maps: Vec<(TypeMap, Model)> = (0..2).map(|_| (TypeMap::new(), Model::new())).collect();
  let mut log = String::new();
  let (mut clashes, mut stamp, mut most) = (0, 0, 0);
  let r = (|| -> Res {
    let few = [src.below(KINDS), src.below(KINDS)];
    for _ in 0..src.urange(2, 10) {
      let m = src.idx(2);
      let k = if src.chance(1, 4) { src.below(KINDS) } else { few[src.idx(2)] };
      let base = *src.pick(&[4u64, 16, 64, 128, 256, 300]);
      let (lo, n) = (*src.pick(&[0, 0, 1, base / 2, 1000]), base - 1 + src.below(3));
      match src.weighted(&[4, 1, 3]) {
        0 => {
          log += &format!("m{}.insert(type {} {}..{}); ", m, k, lo, lo + n);
          for i in lo..lo + n {
            stamp += 1;
            let (real, model) = &mut maps[m];
            caught_panic("insert", || (on(k).insert)(real, i, stamp))?;
            model.insert((k, (on(k).canon)(i)), stamp);
          }
        }
        1 => {
          log += &format!("m{}.get_mut(type {} {}..{}); ", m, k, lo, lo + n);
          for i in lo..lo + n {
            stamp += 1;
            let (real, model) = &mut maps[m];
            let got = caught_panic("get_mut", || (on(k).get_mut)(real, i, Some(stamp)))?;
            let key = (k, (on(k).canon)(i));
            ensure!(got == model.get(&key).copied(), "get_mut of {} of type {} finds {:?}", i, k, got);
            if got.is_some() {
              model.insert(key, stamp);
            }
          }
        }
        _ => {
          log += &format!("m{}.merge(m{}); ", m, 1 - m);
          let mut other = std::mem::replace(&mut maps[1 - m], (TypeMap::new(), Model::new()));
          let (real, model) = &mut maps[m];
          caught_panic("merge", || real.merge(&mut other.0))?;
          for (key, v) in std::mem::take(&mut other.1) {
            clashes += model.insert(key, v).is_some() as u32;
          }
          maps[1 - m] = other;
        }
      }
      most = most.max(maps[m].1.len());
    }
    for m in 0..2 {
      for k in 0..KINDS {
        for i in (0..320).chain(1000..1310) {
          let got = caught_panic("get", || (on(k).get)(&maps[m].0, i))?;
          let want = maps[m].1.get(&(k, (on(k).canon)(i))).copied();
          ensure!(got == want, "map {}: key {} of type {}: found {:?} instead of {:?}", m, i, k, got, want);
        }
      }
    }
    Ok(())
  })();
  r.map_err(|m| format!("{}\nafter {}", m, log))?;
  ctx.show(|| log.clone());
  ctx.label_if(clashes > 0, "a merge with equal keys");
  ctx.label_if(most > 256, "more than 256 entries");
  if most > 60 && clashes > 0 {
    ctx.nontrivial(&log);
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("histories", 600_000, 6_000_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 3, 16, 4)),
    Suite::random("bulk", 12_000, 60_000, bulk),
    Suite::random("long", 40_000, 600_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 4, 120, KEYS)),
  ];
  main_with(
    "C20",
    "A case is a sequence of insertions, lookups, changes in place and merges over a few maps with eleven key types (several with equal contents, some with equal names and even paths, one reversed, one with a coarse order, one zero-sized, two instances of one generic type), mirrored on one ordinary map per type; all keys of all types are looked up after every operation. Non-trivial: two types are used and a value is replaced, changed or overridden by a merge.",
    &[],
    suites,
  )
}
