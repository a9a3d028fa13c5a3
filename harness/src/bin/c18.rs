//! C18: reading a text range decomposes it into its characters.

use bongo::utils::buffer::BufferRange;
use checks::text;
use engine::{catch_expected, caught_panic, ensure, main_with, Ctx, Res, Src, Suite};

struct Range {
  real: BufferRange,
  text: usize,
  start: usize,
  end: usize,
}

fn string(c: &[char]) -> String {
  c.iter().collect()
}

fn same(r: &Range, texts: &[Vec<char>]) -> Res {
  let want = string(&texts[r.text][r.start..r.end]);
  let got = caught_panic("as_str", || r.real.as_str().to_string())?;
  ensure!(got == want, "the range holds {:?} instead of {:?}", got, want);
  ensure!(r.real.byte_len() == want.len(), "byte_len is {} instead of {}", r.real.byte_len(), want.len());
  ensure!(r.real.empty() == want.is_empty(), "empty() is {} for {:?}", r.real.empty(), want);
  Ok(())
}

fn history(src: &mut Src, ctx: &mut Ctx, max_len: usize, max_ops: usize) -> Res {
  let mut texts = vec![text::random(src, max_len)];
  for _ in 0..src.idx(3) {
    let t = match src.below(3) {
      // The same text twice is two texts.
      0 => texts[0].clone(),
      1 => texts[0][src.idx(texts[0].len() + 1)..].to_vec(),
      _ => text::random(src, max_len),
    };
    texts.push(t);
  }
  let mut pool: Vec<Range> = Vec::new();
  for (i, t) in texts.iter().enumerate() {
    pool.push(Range {
      real: caught_panic("new", || BufferRange::new("source", string(t)))?,
      text: i,
      start: 0,
      end: t.len(),
    });
  }
  let mut log = String::new();
  let ops = src.count(1, max_ops);
  let (mut failed, mut read, mut rejected, mut cut) = (0, 0, 0, 0);
  let r = (|| -> Res {
    for _ in 0..ops {
      let i = src.idx(pool.len());
      let (t, s, e) = (pool[i].text, pool[i].start, pool[i].end);
      let left = &texts[t][s..e];
      match src.weighted(&[4, 4, 3, 3, 1, 4, 2, 1]) {
        0 => {
          log += &format!("r{}.read_char_mut(); ", i);
          let got = caught_panic("read_char_mut", || pool[i].real.read_char_mut())?;
          ensure!(got == left.first().copied(), "read_char_mut yields {:?} of {:?}", got, left);
          if got.is_some() {
            read += 1;
            pool[i].start += 1;
          } else {
            failed += 1;
          }
        }
        1 => {
          log += &format!("r{}.read_char(); ", i);
          let got = caught_panic("read_char", || pool[i].real.read_char())?;
          match (got, left.first()) {
            (None, None) => failed += 1,
            (Some((c, rest)), Some(d)) => {
              read += 1;
              ensure!(c == *d, "read_char yields {:?} of {:?}", c, left);
              pool.push(Range {
                real: rest,
                text: t,
                start: s + 1,
                end: e,
              });
            }
            (x, y) => return Err(format!("read_char yields {:?} instead of {:?}", x.map(|x| x.0), y)),
          }
        }
        2 | 3 => {
          let n = match src.below(8) {
            0 => left.len(),
            1 => left.len() + 1,
            2 => left.len().saturating_sub(1),
            3 => 0,
            4 => usize::MAX,
            _ => src.idx(left.len() + 2),
          };
          let want = if n <= left.len() { Some(string(&left[..n])) } else { None };
          if want.is_none() {
            failed += 1;
          }
          if src.flag() {
            log += &format!("r{}.advance_n_mut({}); ", i, n);
            let got = caught_panic("advance_n_mut", || pool[i].real.advance_n_mut(n).map(|s| s.to_string()))?;
            ensure!(got == want, "advance_n_mut({}) of {:?} yields {:?}", n, left, got);
            if got.is_some() {
              pool[i].start += n;
            }
          } else {
            log += &format!("r{}.advance_n({}); ", i, n);
            let got = caught_panic("advance_n", || pool[i].real.advance_n(n).map(|(s, r)| (s.to_string(), r)))?;
            let (got, rest) = match got {
              None => (None, None),
              Some((s, r)) => (Some(s), Some(r)),
            };
            ensure!(got == want, "advance_n({}) of {:?} yields {:?}", n, left, got);
            if let Some(rest) = rest {
              pool.push(Range {
                real: rest,
                text: t,
                start: s + n,
                end: e,
              });
            }
          }
        }
        4 => {
          log += &format!("r{}.clone(); ", i);
          let real = pool[i].real.clone();
          pool.push(Range {
            real,
            text: t,
            start: s,
            end: e,
          });
        }
        5 | 6 => {
          let j = if src.flag() { src.idx(pool.len()) } else { pool.len() - 1 };
          log += &format!("r{}.remove_suffix(r{}); ", i, j);
          let fits = pool[j].text == t && pool[j].end == e && pool[j].start >= s;
          let got = catch_expected(|| pool[i].real.remove_suffix(&pool[j].real));
          match got {
            Ok(real) => {
              ensure!(
                fits,
                "removing {:?} at {}..{} of text {} from {}..{} of text {} is not rejected",
                pool[j].real.as_str(),
                pool[j].start,
                pool[j].end,
                pool[j].text,
                s,
                e,
                t
              );
              cut += 1;
              let end = pool[j].start;
              pool.push(Range {
                real,
                text: t,
                start: s,
                end,
              });
            }
            Err(m) => {
              ensure!(!fits, "removing the suffix at {} from {}..{} panics: {}", pool[j].start, s, e, m);
              rejected += 1;
            }
          }
        }
        _ => {
          log += &format!("read all of r{}; ", i);
          let mut copy = pool[i].real.clone();
          let mut got = Vec::new();
          loop {
            let looked_at = left.len() < 5_000 || got.len() % 1_000 == 0 || got.len() + 10 > left.len();
            ensure!(
              !looked_at || copy.as_str() == string(&left[got.len()..]),
              "after reading {} characters of {:?}, {:?} is left",
              got.len(),
              left,
              copy.as_str()
            );
            match caught_panic("read_char_mut", || copy.read_char_mut())? {
              Some(c) => got.push(c),
              None => break,
            }
            ensure!(got.len() <= left.len(), "reading {:?} yields {:?}", left, got);
          }
          ensure!(got == left, "reading {:?} yields {:?}", left, got);
        }
      }
      if pool.len() > 14 {
        pool.swap_remove(src.idx(14));
      }
      for (k, r) in pool.iter().enumerate() {
        same(r, &texts).map_err(|m| format!("r{}: {}", k, m))?;
      }
    }
    Ok(())
  })();
  r.map_err(|m| format!("{}\ntexts {:?}: {}", m, texts, log))?;
  ctx.show(|| format!("texts {:?}: {}", texts, log));
  ctx.label_if(failed > 0, "nothing or too little left");
  ctx.label_if(rejected > 0, "not a suffix");
  ctx.label_if(cut > 0, "a suffix removed");
  ctx.label_if(texts.iter().flatten().any(|c| c.len_utf8() > 1), "characters of several bytes");
  if read > 0 && cut > 0 {
    ctx.nontrivial(&(&texts, &log));
  }
  Ok(())
}

/// Every Unicode character, between and next to others.
fn characters(block: u64, ctx: &mut Ctx) -> Res {
  for c in checks::text::block(block) {
    let s = format!("x{}{}é", c, c);
    let chars: Vec<char> = s.chars().collect();
    let mut r = caught_panic("new", || BufferRange::new("source", &s)).map_err(|m| format!("{:?}: {}", s, m))?;
    for k in 0..chars.len() {
      let left = string(&chars[k..]);
      ensure!(r.as_str() == left, "{:?}: {:?} is left after {} characters", s, r.as_str(), k);
      for n in 0..=chars.len() {
        let want = (n <= chars.len() - k).then(|| string(&chars[k..k + n]));
        let got = caught_panic("advance_n", || r.advance_n(n).map(|x| (x.0.to_string(), r.remove_suffix(&x.1))))
          .map_err(|m| format!("{:?}: {}", s, m))?;
        ensure!(
          got.as_ref().map(|x| &x.0) == want.as_ref() && got.as_ref().map_or(true, |x| x.1.as_str() == x.0),
          "{:?}: advancing by {} from {} yields {:?}",
          s,
          n,
          k,
          got.map(|x| (x.0, x.1.as_str().to_string()))
        );
      }
      let got = r.read_char_mut();
      ensure!(got == Some(chars[k]), "{:?}: character {} is read as {:?}", s, k, got);
    }
    ensure!(r.empty() && r.read_char_mut().is_none(), "{:?}: not empty after its characters", s);
    ctx.nontrivial(&c);
  }
  ctx.show(|| format!("characters {:x}00-{:x}ff", block, block));
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::fixed("characters", 4352, characters),
    Suite::random("short", 1_500_000, 12_000_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 6, 12)),
    Suite::random("long", 320_000, 2_560_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 60, 40)),
    Suite::random("huge", 8, 200, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 100_000, 8)),
    Suite::random("very long", 2_000, 16_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 2_000, 20)),
  ];
  main_with(
    "C18",
    "A case is a few texts (some equal to or suffixes of others) and a sequence of operations on ranges of them, mirrored on vectors of characters; all ranges are compared after every operation. Non-trivial: a character is read and a suffix removed.",
    &[],
    suites,
  )
}
