//! C25: names are values, compared by content, copied on write.

use bongo::utils::Name;
use checks::{text, whole};
use model::gen;
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

fn hash(x: &impl Hash) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

fn string(src: &mut Src) -> String {
  match src.below(3) {
    0 => src.pick(whole::TEXTS).to_string(),
    1 => text::random(src, 5).into_iter().collect(),
    _ => {
      let n = src.idx(4);
      (0..n).map(|_| *src.pick(&['a', 'b', 'A'])).collect()
    }
  }
}

/// A long text, or one that differs from a text of the pool in one place.
fn long_string(src: &mut Src, pool: &[(Name, String)]) -> String {
  if pool.is_empty() || src.chance(1, 4) {
    let n = gen::sized(src, 400);
    let c = src.pick(&["a", "b", "é", "ab", "abc"]).to_string();
    return c.repeat(n);
  }
  let mut s: Vec<char> = pool[src.idx(pool.len())].1.chars().collect();
  if s.is_empty() {
    return "b".to_string();
  }
  let i = src.idx(s.len());
  match src.below(4) {
    0 => {
      s.remove(i);
    }
    1 => s.insert(i, 'b'),
    2 => s.truncate(i),
    _ => s[i] = *src.pick(&['a', 'b', 'é', '\0']),
  }
  s.into_iter().collect()
}

fn same(pool: &[(Name, String)]) -> Res {
  for (i, (n, s)) in pool.iter().enumerate() {
    ensure!(n.str() == s, "name {} is {:?} instead of {:?}", i, n.str(), s);
    let r: &str = n.as_ref();
    ensure!(r == s, "as_ref of name {} is {:?} instead of {:?}", i, r, s);
    let (d, p) = (format!("{}", n), format!("{:?}", n));
    ensure!(d == *s && p == *s, "name {:?} is displayed as {:?} / {:?}", s, d, p);
    for (j, (m, t)) in pool.iter().enumerate() {
      ensure!((n == m) == (s == t), "names {} and {} ({:?}, {:?}): equal is {}", i, j, s, t, n == m);
      ensure!((n != m) == (s != t), "names {} and {} ({:?}, {:?}): different is {}", i, j, s, t, n != m);
      ensure!(
        n.cmp(m) == s.cmp(t) && n.partial_cmp(m) == Some(s.cmp(t)) && (n < m) == (s < t) && (n <= m) == (s <= t),
        "names {} and {} ({:?}, {:?}) compare {:?}",
        i,
        j,
        s,
        t,
        n.cmp(m)
      );
      ensure!(s != t || hash(n) == hash(m), "names {} and {} ({:?}) have different hashes", i, j, s);
    }
    // "hashed exactly as the text they hold"
    ensure!(hash(n) == hash(s) && hash(n) == hash(&s.as_str()), "name {:?} is not hashed as its text", s);
  }
  Ok(())
}

fn history(src: &mut Src, ctx: &mut Ctx, max_ops: usize, max_pool: usize, long: bool) -> Res {
  let string = |src: &mut Src, pool: &[(Name, String)]| if long { long_string(src, pool) } else { string(src) };
  let mut pool: Vec<(Name, String)> = Vec::new();
  let mut log = String::new();
  let (mut clones, mut modified_shared) = (0, 0);
  // Which names share storage, as far as the history tells.
  let mut family: Vec<usize> = Vec::new();
  let mut next_family = 0;
  let r = (|| -> Res {
    for _ in 0..src.count(2, max_ops) {
      if pool.is_empty() || (pool.len() < max_pool && src.chance(1, 4)) {
        let s = if !pool.is_empty() && src.chance(1, 2) { pool[src.idx(pool.len())].1.clone() } else { string(src, &pool) };
        log += &format!("n{} = new({:?}); ", pool.len(), s);
        let n = caught_panic("new", || match src.below(4) {
          0 => Name::new(&s),
          1 => Name::new(s.as_str()),
          2 => Name::new(&Name::new(&s)),
          _ => Name::new(&&*s),
        })?;
        pool.push((n, s));
        family.push(next_family);
        next_family += 1;
        same(&pool)?;
        continue;
      }
      let i = src.idx(pool.len());
      let fresh = if src.chance(1, 2) { string(src, &pool) } else { "x".to_string() };
      match src.weighted(&[if max_pool > 8 { 9 } else { 3 }, 6, 1, 1, 1]) {
        0 if pool.len() < max_pool => {
          log += &format!("n{} = n{}.clone(); ", pool.len(), i);
          let c = pool[i].clone();
          pool.push(c);
          family.push(family[i]);
          clones += 1;
        }
        0 | 1 => {
          let alone = family.iter().filter(|f| **f == family[i]).count() == 1;
          modified_shared += !alone as u32;
          let (n, s) = &mut pool[i];
          let m = caught_panic("make_mut", || n.make_mut())?;
          ensure!(m == s, "make_mut of {:?} gives {:?}", s, m);
          match src.below(5) {
            0 => {
              let t = fresh;
              log += &format!("n{}.make_mut().push_str({:?}); ", i, t);
              m.push_str(&t);
              s.push_str(&t);
            }
            1 => {
              log += &format!("n{}.make_mut().clear(); ", i);
              m.clear();
              s.clear();
            }
            2 => {
              log += &format!("n{}.make_mut().pop(); ", i);
              ensure!(m.pop() == s.pop(), "pop differs");
            }
            3 => {
              let t = fresh;
              log += &format!("*n{}.make_mut() = {:?}; ", i, t);
              *m = t.clone();
              *s = t;
            }
            _ => log += &format!("n{}.make_mut(); ", i),
          }
          family[i] = next_family;
          next_family += 1;
        }
        2 => {
          log += &format!("drop(n{}); ", i);
          pool.swap_remove(i);
          family.swap_remove(i);
        }
        3 => {
          let j = src.idx(pool.len());
          log += &format!("n{}.clone_from(n{}); ", i, j);
          let other = pool[j].clone();
          pool[i].0.clone_from(&other.0);
          pool[i].1 = other.1;
          family[i] = family[j];
          clones += 1;
        }
        _ => {
          log += &format!("n{} = take and put back; ", i);
          let n = std::mem::replace(&mut pool[i].0, Name::new(""));
          pool[i].0 = n;
        }
      }
      same(&pool)?;
    }
    // As keys.
    let sorted: BTreeSet<&Name> = pool.iter().map(|p| &p.0).collect();
    let want: BTreeSet<&String> = pool.iter().map(|p| &p.1).collect();
    ensure!(
      sorted.iter().map(|n| n.str()).collect::<Vec<_>>() == want.iter().map(|s| s.as_str()).collect::<Vec<_>>(),
      "a set of {:?} is {:?}",
      want,
      sorted
    );
    let hashed: HashMap<&Name, usize> = pool.iter().enumerate().map(|(i, p)| (&p.0, i)).collect();
    let ordered: BTreeMap<&Name, usize> = pool.iter().enumerate().map(|(i, p)| (&p.0, i)).collect();
    for (n, s) in &pool {
      let last = pool.iter().rposition(|p| p.1 == *s);
      let fresh = Name::new(s);
      for k in &[n, &fresh] {
        ensure!(
          hashed.get(*k).copied() == last && ordered.get(*k).copied() == last,
          "looking up {:?} finds {:?} and {:?} instead of {:?}",
          s,
          hashed.get(*k),
          ordered.get(*k),
          last
        );
      }
    }
    Ok(())
  })();
  r.map_err(|m| format!("{}\nafter {}", m, log))?;
  ctx.show(|| log.clone());
  ctx.label_if(clones > 0, "a clone");
  if modified_shared > 0 {
    ctx.nontrivial(&log);
  }
  Ok(())
}

/// A name with many clones, some of which are dropped, one of which changes.
fn crowd(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
  let text = string(src);
  let n = gen::sized(src, max);
  let mut names = vec![Name::new(&text)];
  for _ in 0..n {
    let c = names[src.idx(2) * (names.len() - 1)].clone();
    names.push(c);
  }
  let dropped = if src.chance(1, 3) { src.idx(names.len()) } else { 0 };
  names.truncate(names.len() - dropped);
  let mut texts = vec![text.clone(); names.len()];
  let mut log = format!("{} clones of {:?}, {} dropped", n, text, dropped);
  for _ in 0..src.urange(1, 3) {
    let i = *src.pick(&[0, names.len() / 2, names.len() - 1]);
    let m = caught_panic("make_mut", || names[i].make_mut())?;
    m.push('x');
    texts[i].push('x');
    log += &format!("; 'x' appended to that at {}", i);
    for (j, (n, t)) in names.iter().zip(&texts).enumerate() {
      ensure!(n.str() == t, "{}: the name at {} is {:?} instead of {:?}", log, j, n.str(), t);
      ensure!(
        (*n == names[i]) == (*t == texts[i]),
        "{}: equality of the names at {} and {} is {}",
        log,
        i,
        j,
        *n == names[i]
      );
    }
  }
  ctx.show(|| log.clone());
  ctx.label_if(n >= 256, "256 clones or more");
  ctx.nontrivial(&log);
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("short", 1_000_000, 8_000_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 10, 8, false)),
    Suite::random("long", 60_000, 500_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 60, 8, false)),
    Suite::random("long texts", 100_000, 1_000_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 10, 8, true)),
    Suite::random("many clones", 6_000, 60_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 120, 70, false)),
    Suite::random("crowds", 20_000, 200_000, |src: &mut Src, ctx: &mut Ctx| crowd(src, ctx, 1100)),
    Suite::random("large crowds", 20, 200, |src: &mut Src, ctx: &mut Ctx| crowd(src, ctx, 66_000)),
  ];
  main_with(
    "C25",
    "A case is a sequence of creations, clones, modifications and drops of names, mirrored on strings; text, comparisons, hashes and printed forms of all names are compared after every operation, and lookups under all names at the end. Non-trivial: a name is modified while another one was cloned from or into it.",
    &[],
    suites,
  )
}
