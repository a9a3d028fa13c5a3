//! C32: keys of text ranges compare as the text they cover.

use engine::main_with;

#[cfg(any(bongo_verif, bongo_verif_buffer))]
mod run {
  use bongo::utils::buffer::{BufferRange, BufferRangeKey};
  use checks::order::{ordered_as, total_order};
  use checks::text;
  use engine::{caught_panic, ensure, Ctx, Res, Src};
  use std::collections::{BTreeMap, BTreeSet};

  fn byte(t: &[char], at: usize) -> usize {
    t[..at].iter().map(|c| c.len_utf8()).sum()
  }

  pub fn history(src: &mut Src, ctx: &mut Ctx, max_len: usize) -> Res {
    let n = src.urange(1, 3);
    let mut texts: Vec<Vec<char>> = Vec::new();
    for i in 0..n {
      let t = if i > 0 && src.chance(1, 2) {
        // A text that shares much with an earlier one.
        let mut t = texts[src.idx(i)].clone();
        match src.below(3) {
          0 => {}
          1 => t.push('a'),
          _ if t.is_empty() => {}
          _ => {
            let k = if max_len > 1000 && src.flag() { t.len() - 1 } else { src.idx(t.len()) };
            t.remove(k);
          }
        }
        t
      } else if max_len > 1000 {
        // Long, with a part that repeats.
        let len = model::gen::edgy(src, 10, max_len);
        let part = match text::random(src, 12) {
          p if p.is_empty() => vec!['a'],
          p => p,
        };
        let mut t: Vec<char> = part.iter().copied().cycle().take(len).collect();
        if src.chance(1, 4) {
          let k = src.idx(len);
          t[k] = 'b';
        }
        t
      } else {
        text::random(src, max_len)
      };
      texts.push(t);
    }
    let ranges: Vec<BufferRange> = texts
      .iter()
      .map(|t| BufferRange::new("source", t.iter().collect::<String>()))
      .collect();
    let mut keys: Vec<(String, BufferRangeKey)> = Vec::new();
    let count = src.urange(2, 8);
    for _ in 0..count {
      let i = src.idx(n);
      let t = &texts[i];
      let (from, to) = if max_len > 1000 && src.chance(2, 3) {
        // Nearly all of it.
        let from = src.idx(4).min(t.len());
        (from, t.len() - src.idx(3).min(t.len() - from))
      } else {
        let from = src.count(0, t.len());
        (from, from + src.count(0, t.len() - from))
      };
      let want: String = t[from..to].iter().collect();
      let key = caught_panic("making a key", || {
        let r = ranges[i].advance_n(from).map(|x| x.1).ok_or("advance_n fails")?;
        let rest = r.advance_n(to - from).map(|x| x.1).ok_or("advance_n fails")?;
        Ok::<_, String>(BufferRangeKey::verif_new(r.remove_suffix(&rest)))
      })??;
      ensure!(
        key.as_str() == want,
        "the key of bytes {}..{} of {:?} is {:?}",
        byte(t, from),
        byte(t, to),
        t,
        key.as_str()
      );
      if src.chance(1, 4) {
        keys.push((want.clone(), key.clone()));
      }
      keys.push((want, key));
    }
    drop(ranges);
    caught_panic("comparing", || {
      total_order(&keys, "keys")?;
      ordered_as(&keys, "keys")?;
      // As keys of maps.
      let (mut m, mut want) = (BTreeMap::new(), BTreeMap::new());
      for (i, (t, k)) in keys.iter().enumerate() {
        let (a, b) = (m.insert(k.clone(), i), want.insert(t.clone(), i));
        ensure!(a == b, "inserting {:?} replaces {:?} instead of {:?}", t, a, b);
      }
      let got: Vec<(String, usize)> = m.iter().map(|(k, v)| (k.as_str().to_string(), *v)).collect();
      ensure!(got == want.into_iter().collect::<Vec<_>>(), "a map by key holds {:?}", got);
      Ok(())
    })??;
    let distinct: BTreeSet<&String> = keys.iter().map(|k| &k.0).collect();
    ctx.show(|| checks::short(format!("{:?}", keys.iter().map(|k| &k.0).collect::<Vec<_>>())));
    ctx.label_if(distinct.len() < keys.len(), "two keys of the same text");
    if distinct.len() > 1 && distinct.len() < keys.len() {
      ctx.nontrivial(&(&texts, keys.iter().map(|k| k.0.clone()).collect::<Vec<_>>()));
    }
    Ok(())
  }
}

fn main() {
  #[cfg(any(bongo_verif, bongo_verif_buffer))]
  let suites = vec![
    engine::Suite::random("short", 750_000, 6_000_000, |src: &mut engine::Src, ctx: &mut engine::Ctx| run::history(src, ctx, 5)),
    engine::Suite::random("long", 200_000, 1_600_000, |src: &mut engine::Src, ctx: &mut engine::Ctx| run::history(src, ctx, 60)),
    engine::Suite::random("huge", 1_500, 15_000, |src: &mut engine::Src, ctx: &mut engine::Ctx| run::history(src, ctx, 20_000).map_err(checks::short)),
  ];
  #[cfg(not(any(bongo_verif, bongo_verif_buffer)))]
  let suites = vec![];
  main_with(
    "C32",
    "A case is up to three texts, which overlap in content, and keys of ranges of them; all pairs are compared with the texts covered, and the keys are used in an ordered map. Non-trivial: two keys cover the same text and two do not.",
    &["a key is made through the hook, as its constructor is private"],
    suites,
  )
}
