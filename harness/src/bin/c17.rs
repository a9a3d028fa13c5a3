//! C17: a token stream replays its tokens from every position.

use bongo::parsers::{Token, TokenStream, VecTokenStream};
use engine::{caught_panic, ensure, main_with, tick, Ctx, Res, Src, Suite};
use std::cell::RefCell;

thread_local! {
  static SEEN: RefCell<(Vec<u32>, Vec<u32>)> = const { RefCell::new((Vec::new(), Vec::new())) };
}

/// Tokens have no accessors, so kinds and values report when they are cloned
/// and dropped.
struct Kind(u32);
struct Val(u32);

impl Clone for Kind {
  fn clone(&self) -> Self {
    tick();
    SEEN.with(|s| s.borrow_mut().0.push(self.0));
    Kind(self.0)
  }
}
impl Drop for Kind {
  fn drop(&mut self) {
    SEEN.with(|s| s.borrow_mut().0.push(self.0));
  }
}
impl Clone for Val {
  fn clone(&self) -> Self {
    tick();
    SEEN.with(|s| s.borrow_mut().1.push(self.0));
    Val(self.0)
  }
}
impl Drop for Val {
  fn drop(&mut self) {
    SEEN.with(|s| s.borrow_mut().1.push(self.0));
  }
}

type Stream = VecTokenStream<Kind, Val>;

/// Kind and value of a token, which is used up.
fn read(t: Token<Kind, Val>) -> Result<(u32, u32), String> {
  let take = || SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
  take();
  drop(t);
  let (mut k, mut v) = take();
  k.dedup();
  v.dedup();
  if k.len() != 1 || v.len() != 1 {
    return Err(format!("a token consists of the kinds {:?} and values {:?}", k, v));
  }
  Ok((k[0], v[0]))
}

struct Saved {
  stream: Stream,
  at: usize,
}

fn step(s: &Saved, toks: &[(u32, u32)]) -> Result<Option<Saved>, String> {
  let r = caught_panic("next", || s.stream.next()).map_err(|m| format!("at {} of {}: {}", s.at, toks.len(), m))?;
  match (r, toks.get(s.at)) {
    (None, None) => Ok(None),
    (None, Some(t)) => Err(format!("the end is reported at {} of {} instead of {:?}", s.at, toks.len(), t)),
    (Some((t, _)), None) => Err(format!("after the end of {} tokens comes {:?}", toks.len(), read(t)?)),
    (Some((t, rest)), Some(want)) => {
      let got = read(t)?;
      ensure!(got == *want, "token {} of {} is {:?} instead of {:?}", s.at, toks.len(), got, want);
      Ok(Some(Saved {
        stream: rest,
        at: s.at + 1,
      }))
    }
  }
}

fn make(toks: &[(u32, u32)], how: u64) -> Result<Stream, String> {
  let list = || toks.iter().map(|(k, v)| Token::new(Kind(*k), Val(*v)));
  caught_panic("making a stream", || match how {
    0 => Stream::from_into_iter(list().collect::<Vec<_>>()),
    1 => Stream::from_into_iter(list()),
    2 => Stream::from_into_iter(list().collect::<std::collections::VecDeque<_>>()),
    3 => {
      // Size unknown.
      let mut it = list();
      Stream::from_into_iter(std::iter::from_fn(move || it.next()))
    }
    4 => Stream::from_into_iter(list().collect::<std::collections::LinkedList<_>>()),
    k => Stream::from_into_iter(checks::shy::shy(k as u8, list().collect::<Vec<_>>())),
  })
}

fn history(src: &mut Src, ctx: &mut Ctx, max_len: usize, max_ops: usize) -> Res {
  let len = if max_len >= 50_000 { *src.pick(&[66_000, 66_500, 132_000, max_len]) } else { src.count(0, max_len) };
  let kinds = src.urange(1, 4) as u64;
  let toks: Vec<(u32, u32)> = (0..len).map(|i| (src.below(kinds) as u32, if src.chance(1, 4) { 7 } else { i as u32 })).collect();
  let how = src.below(5 + checks::shy::WAYS as u64);
  let ops = src.count(1, max_ops);
  let mut saved = vec![Saved {
    stream: make(&toks, how)?,
    at: 0,
  }];
  let mut log = String::new();
  let (mut ends, mut again) = (0, 0);
  let mut advanced = std::collections::BTreeSet::new();
  let r = (|| -> Res {
    for _ in 0..ops {
      let i = src.idx(saved.len());
      match src.weighted(&[8, 2, 2, 3, 1, 1, 2]) {
        0 => {
          log += &format!("next at {}; ", saved[i].at);
          if !advanced.insert(saved[i].at) {
            again += 1;
          }
          match step(&saved[i], &toks)? {
            Some(s) => saved.push(s),
            None => ends += 1,
          }
        }
        1 => {
          log += &format!("clone at {}; ", saved[i].at);
          let s = Saved {
            stream: caught_panic("clone", || saved[i].stream.clone())?,
            at: saved[i].at,
          };
          saved.push(s);
        }
        2 if saved.len() > 1 => {
          log += &format!("drop at {}; ", saved[i].at);
          saved.swap_remove(i);
        }
        3 => {
          log += &format!("drain from {}; ", saved[i].at);
          let mut cur = match step(&saved[i], &toks)? {
            Some(s) => s,
            None => {
              ends += 1;
              continue;
            }
          };
          again += 1;
          while let Some(s) = step(&cur, &toks)? {
            cur = s;
          }
          ensure!(cur.at == toks.len(), "drained at {} of {}", cur.at, toks.len());
          ends += 1;
          // Asking again.
          ensure!(step(&cur, &toks)?.is_none(), "something follows the end");
          saved.push(cur);
        }
        4 => {
          // Advance in place: the stream it came from is gone.
          log += &format!("move on from {}; ", saved[i].at);
          if let Some(s) = step(&saved[i], &toks)? {
            saved[i] = s;
          }
        }
        5 => {
          // Nobody else holds on to the tokens any more.
          log += &format!("drop all but {}; ", saved[i].at);
          let s = saved.swap_remove(i);
          saved.clear();
          saved.push(s);
        }
        6 => {
          // Each position is dropped as soon as it has been advanced; some
          // way along, one may be kept.
          let mut cur = saved.swap_remove(i);
          let left = toks.len() - cur.at;
          let keep = cur.at + src.count(0, left);
          let stop = if src.chance(1, 3) { cur.at + src.count(0, left) } else { usize::MAX };
          log += &format!("use up from {}, keeping {}, stopping at {}; ", cur.at, keep, stop as isize);
          let mut kept = Vec::new();
          loop {
            if cur.at == keep && src.chance(1, 4) {
              kept.push(Saved { stream: cur.stream.clone(), at: cur.at });
            }
            if cur.at == stop {
              break;
            }
            match step(&cur, &toks)? {
              Some(s) => cur = s,
              None => {
                ensure!(cur.at == toks.len(), "used up at {} of {}", cur.at, toks.len());
                ends += 1;
                break;
              }
            }
          }
          saved.push(cur);
          saved.append(&mut kept);
        }
        _ => {}
      }
    }
    // Every saved position still yields its remainder.
    for s in &saved {
      let mut cur = Saved {
        stream: s.stream.clone(),
        at: s.at,
      };
      while let Some(n) = step(&cur, &toks)? {
        cur = n;
      }
    }
    Ok(())
  })();
  r.map_err(|m| format!("{}\nstream made in way {} from {:?}; {}", m, how, toks, log))?;
  ctx.show(|| format!("{:?}: {}", toks, log));
  ctx.label_if(ends > 0, "asked at the end");
  ctx.label_if(again > 0, "a position is advanced again");
  ctx.label_if(toks.is_empty(), "no tokens");
  if again > 0 && !toks.is_empty() {
    ctx.nontrivial(&(&toks, &log));
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("short", 2_400_000, 19_200_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 6, 12)),
    Suite::random("long", 200_000, 1_600_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 120, 30)),
    Suite::random("huge", 6, 100, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 270_000, 3)),
    Suite::random("very long", 30, 1_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 5_000, 6)),
  ];
  main_with(
    "C17",
    "A case is a token sequence and a sequence of operations on saved stream positions (advance, clone, drop, drain); every token yielded is compared with the sequence. Kinds and values of tokens are observed through the clones and drops of the values they hold. Non-trivial: a position is advanced more than once.",
    &[],
    suites,
  )
}
