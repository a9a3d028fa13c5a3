//! C26: mergeable maps merge values under equal keys and report change exactly.

use engine::main_with;

#[cfg(any(bongo_verif, bongo_verif_mergeables))]
mod run {
  use bongo::utils::mergeables::{MergableMap, Mergable, Value, ValueCow, ValueRef};
  use bongo::utils::WasChanged;
  use engine::{caught_panic, ensure, Ctx, Res, Src};
  use std::collections::{BTreeMap, BTreeSet};
  use std::fmt::Debug;

  /// What the model needs to know about a value type.
  pub trait Val: Mergable + Clone + Debug + PartialEq + 'static {
    fn make(src: &mut Src, stamp: u32) -> Self;
    /// Merges the slow and simple way; true if it changed.
    fn model(&mut self, other: &Self) -> bool;
  }

  /// Keeps the order of merges.
  #[derive(Clone, Debug, PartialEq)]
  pub struct Log(pub Vec<u32>);
  impl Mergable for Log {
    fn merge(&mut self, other: &Self) -> WasChanged {
      self.0.extend(other.0.iter().copied());
      WasChanged::from_changed(!other.0.is_empty())
    }
  }
  impl Val for Log {
    fn make(src: &mut Src, stamp: u32) -> Self {
      let n = src.idx(3);
      Log((0..n as u32).map(|i| stamp * 10 + i).collect())
    }
    fn model(&mut self, other: &Self) -> bool {
      let old = self.clone();
      for x in &other.0 {
        self.0.push(*x);
      }
      *self != old
    }
  }

  #[derive(Clone, Debug, PartialEq)]
  pub struct Max(pub u32);
  impl Mergable for Max {
    fn merge(&mut self, other: &Self) -> WasChanged {
      let c = other.0 > self.0;
      if c {
        self.0 = other.0;
      }
      WasChanged::from_changed(c)
    }
  }
  impl Val for Max {
    fn make(src: &mut Src, _: u32) -> Self {
      Max(src.below(6) as u32)
    }
    fn model(&mut self, other: &Self) -> bool {
      let old = self.0;
      self.0 = self.0.max(other.0);
      self.0 != old
    }
  }

  #[derive(Clone, Debug, PartialEq)]
  pub struct Set(pub BTreeSet<u32>);
  impl Mergable for Set {
    fn merge(&mut self, other: &Self) -> WasChanged {
      let n = self.0.len();
      self.0.extend(other.0.iter().copied());
      WasChanged::from_changed(self.0.len() != n)
    }
  }
  impl Val for Set {
    fn make(src: &mut Src, _: u32) -> Self {
      let n = src.idx(4);
      Set((0..n).map(|_| src.below(5) as u32).collect())
    }
    fn model(&mut self, other: &Self) -> bool {
      let old = self.0.clone();
      self.0 = self.0.union(&other.0).copied().collect();
      self.0 != old
    }
  }

  /// Neither commutative nor idempotent, and changes may cancel out.
  #[derive(Clone, Debug, PartialEq)]
  pub struct Turn(pub u32);
  impl Mergable for Turn {
    fn merge(&mut self, other: &Self) -> WasChanged {
      let old = self.0;
      self.0 = (self.0 * 3 + other.0) % 7;
      WasChanged::from_changed(self.0 != old)
    }
  }
  impl Val for Turn {
    fn make(src: &mut Src, _: u32) -> Self {
      Turn(src.below(7) as u32)
    }
    fn model(&mut self, other: &Self) -> bool {
      let old = self.0;
      self.0 = (self.0 + self.0 + self.0 + other.0) % 7;
      self.0 != old
    }
  }

  fn same<V: Val>(real: &MergableMap<String, V>, model: &BTreeMap<String, V>, keys: u64) -> Res {
    for k in 0..keys {
      let k = key(k);
      match (real.get_entry(&k), model.get(&k)) {
        (None, None) => {}
        (Some(e), Some(v)) => {
          ensure!(
            *e.key() == k && e.value() == v,
            "looking up {:?} gives {:?}, {:?} instead of {:?}",
            k,
            e.key(),
            e.value(),
            v
          );
          let copy = e;
          let owned = copy.to_value();
          ensure!(
            *owned.key() == k && owned.value() == v,
            "the copy of {:?}'s entry is {:?}",
            k,
            owned
          );
        }
        (e, v) => return Err(format!("looking up {:?} gives {:?} instead of {:?}", k, e, v)),
      }
    }
    Ok(())
  }

  fn key(i: u64) -> String {
    match ["", "a", "b", "aa", "é", "c"].get(i as usize) {
      Some(k) => k.to_string(),
      None => format!("k{}", i),
    }
  }

  /// All views of a value agree.
  fn views<V: Val>(k: &String, v: &V) -> Res {
    let owned = Value::verif_new(k.clone(), v.clone());
    ensure!(owned.key() == k && owned.value() == v, "a value of {:?}, {:?} reads {:?}", k, v, owned);
    let r = ValueRef::from(&owned);
    ensure!(r.key() == k && r.value() == v, "a reference to {:?}, {:?} reads {:?}", k, v, r);
    let cows: [ValueCow<String, V>; 3] =
      [ValueCow::from(&owned), ValueCow::from(r), ValueCow::from(owned.clone())];
    for cow in &cows {
      let (o, r) = (cow.to_owned(), cow.as_ref());
      ensure!(cow.key() == k && cow.value() == v, "a cow of {:?}, {:?} reads {:?}, {:?}", k, v, cow.key(), cow.value());
      ensure!(o.key() == k && o.value() == v, "to_owned of {:?}, {:?} is {:?}", k, v, o);
      ensure!(r.key() == k && r.value() == v, "as_ref of {:?}, {:?} is {:?}", k, v, r);
    }
    for cow in vec![ValueCow::from(&owned), ValueCow::from(ValueRef::from(&owned)), ValueCow::from(owned.clone())] {
      let o = cow.into_owned();
      ensure!(o.key() == k && o.value() == v, "into_owned of {:?}, {:?} is {:?}", k, v, o);
    }
    Ok(())
  }

  pub fn history<V: Val>(src: &mut Src, ctx: &mut Ctx, max_ops: usize, max_keys: u64) -> Res {
    let keys = src.range(1, max_keys);
    let mut real: MergableMap<String, V> = if src.flag() { MergableMap::new() } else { MergableMap::default() };
    let mut model: BTreeMap<String, V> = BTreeMap::new();
    let mut log = String::new();
    // Owned values that were lent before, and are lent again.
    let mut lent: Vec<(Value<String, V>, V)> = Vec::new();
    let (mut merged, mut unchanged, mut borrowed) = (0, 0, 0);
    let r = (|| -> Res {
      for step in 0..src.count(1, max_ops) {
        let (k, v) = if !lent.is_empty() && src.chance(1, 3) {
          let l = &lent[src.idx(lent.len())];
          (l.0.key().clone(), l.1.clone())
        } else {
          (key(src.below(keys)), V::make(src, step as u32 + 1))
        };
        views(&k, &v)?;
        let want = match model.get_mut(&k) {
          Some(m) => {
            merged += 1;
            m.model(&v)
          }
          None => {
            model.insert(k.clone(), v.clone());
            true
          }
        };
        unchanged += !want as u32;
        let val = Value::verif_new(k.clone(), v.clone());
        let got = match src.below(5) {
          0 => {
            log += &format!("insert({:?}, {:?}); ", k, v);
            caught_panic("insert", || real.insert(val))?
          }
          1 => {
            log += &format!("insert_cow(owned {:?}, {:?}); ", k, v);
            caught_panic("insert_cow", || real.insert_cow(val))?
          }
          n => {
            borrowed += 1;
            log += &format!("insert_cow(borrowed {:?}, {:?}); ", k, v);
            let r = caught_panic("insert_cow", || match n {
              2 => real.insert_cow(&val),
              3 => real.insert_cow(ValueRef::from(&val)),
              _ => real.insert_cow(ValueCow::Borrowed(ValueRef::from(&val))),
            })?;
            lent.push((val, v.clone()));
            r
          }
        };
        ensure!(
          (got == WasChanged::Changed) == want,
          "inserting {:?}, {:?} reports {:?}, the map changed: {}",
          k,
          v,
          got,
          want
        );
        same(&real, &model, max_keys)?;
        for (val, was) in &lent {
          ensure!(val.value() == was, "the borrowed {:?} was changed into {:?}", was, val.value());
        }
      }
      // The map does not hold on to what it borrowed: changing it afterwards
      // is not seen there.
      for (val, _) in &mut lent {
        *val.value_mut() = V::make(src, 77);
      }
      same(&real, &model, max_keys)
    })();
    r.map_err(|m| format!("{}\nafter {}", m, log))?;
    ctx.show(|| log.clone());
    ctx.label_if(borrowed > 0, "borrowed");
    ctx.label_if(unchanged > 0, "an insertion that changes nothing");
    if merged > 0 && borrowed > 0 {
      ctx.nontrivial(&log);
    }
    Ok(())
  }
}

fn main() {
  #[allow(unused_mut)]
  let mut suites = Vec::new();
  #[cfg(any(bongo_verif, bongo_verif_mergeables))]
  {
    use engine::{Ctx, Src, Suite};
    suites.push(Suite::random("lists", 600_000, 5_000_000, |src: &mut Src, ctx: &mut Ctx| {
      run::history::<run::Log>(src, ctx, 12, 6)
    }));
    suites.push(Suite::random("maxima", 800_000, 6_400_000, |src: &mut Src, ctx: &mut Ctx| {
      run::history::<run::Max>(src, ctx, 12, 6)
    }));
    suites.push(Suite::random("sets", 500_000, 4_000_000, |src: &mut Src, ctx: &mut Ctx| {
      run::history::<run::Set>(src, ctx, 12, 6)
    }));
    suites.push(Suite::random("turns", 500_000, 4_000_000, |src: &mut Src, ctx: &mut Ctx| {
      run::history::<run::Turn>(src, ctx, 30, 6)
    }));
  }
  #[cfg(any(bongo_verif, bongo_verif_mergeables))]
  {
    use engine::{Ctx, Src, Suite};
    suites.push(Suite::random("many keys", 20_000, 200_000, |src: &mut Src, ctx: &mut Ctx| match src.below(4) {
      0 => run::history::<run::Log>(src, ctx, 100, 60),
      1 => run::history::<run::Max>(src, ctx, 100, 60),
      2 => run::history::<run::Set>(src, ctx, 100, 60),
      _ => run::history::<run::Turn>(src, ctx, 100, 60),
    }));
  }
  main_with(
    "C26",
    "A case is a sequence of owned and borrowed insertions of values of one of four merging types, mirrored on an ordinary map of values merged one by one; all lookups, the change reports and the lent values are compared after every operation. Non-trivial: a value is merged and one is borrowed.",
    &["entries are built through a hook, as the crate offers no constructor"],
    suites,
  )
}
