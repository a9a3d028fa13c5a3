//! C19: text positions agree with the text. They can only be read through the
//! hooks.

#[cfg(any(bongo_verif, bongo_verif_buffer))]
mod hooked {
  use bongo::utils::buffer::BufferRange;
  use checks::text;
  use engine::{caught_panic, ensure, Ctx, Res, Src, Suite};

  fn string(c: &[char]) -> String {
    c.iter().collect()
  }

  /// All ranges between the given places.
  fn check(t: &[char], places: &[usize], ctx: &mut Ctx) -> Res {
    let s = string(t);
    let whole = caught_panic("new", || BufferRange::new("source", &s)).map_err(|m| format!("{:?}: {}", s, m))?;
    let from = |k: usize| whole.advance_n(k).map(|x| x.1).ok_or_else(|| format!("{:?}: cannot advance by {}", s, k));
    let tails: Vec<BufferRange> = places.iter().map(|k| from(*k)).collect::<Result<_, _>>()?;
    for (i, a) in places.iter().enumerate() {
      let want = text::position(t, *a);
      let r = &tails[i];
      let got = caught_panic("start_pos", || r.start_pos()).map_err(|m| format!("{:?} at {}: {}", s, a, m))?;
      ensure!(
        got.verif_parts() == want,
        "{:?}: the range from character {} starts at {:?} (line, column, byte) instead of {:?}",
        s,
        a,
        got.verif_parts(),
        want
      );
      let all = text::position(t, t.len());
      let got = caught_panic("end_pos", || r.end_pos()).map_err(|m| format!("{:?}: {}", s, m))?;
      ensure!(
        got.verif_parts() == all,
        "{:?}: the range from character {} ends at {:?} (line, column, byte) instead of {:?}",
        s,
        a,
        got.verif_parts(),
        all
      );
      for (j, b) in places.iter().enumerate() {
        if b < a || (i + j) % 3 != 0 {
          continue;
        }
        let part = r.remove_suffix(&tails[j]);
        let got = caught_panic("end_pos", || (part.start_pos(), part.end_pos())).map_err(|m| format!("{:?} {}..{}: {}", s, a, b, m))?;
        let w2 = text::position(t, *b);
        ensure!(
          got.0.verif_parts() == want && got.1.verif_parts() == w2,
          "{:?}: the range {}..{} lies at {:?}..{:?} instead of {:?}..{:?}",
          s,
          a,
          b,
          got.0.verif_parts(),
          got.1.verif_parts(),
          want,
          w2
        );
      }
    }
    ctx.label_if(s.contains("\r\n"), "CRLF");
    ctx.label_if(s.replace("\r\n", "").contains('\r'), "CR alone");
    ctx.label_if(s.contains("\n\n") || s.contains("\r\r"), "an empty line");
    ctx.label_if(s.contains('\u{301}') || s.contains('\u{200D}'), "combining characters");
    ctx.label_if(s.starts_with(|c| c == '\n' || c == '\r'), "starts with a line terminator");
    let lines = text::position(t, t.len()).0;
    if lines > 0 && t.len() > 2 {
      ctx.nontrivial(&s);
    }
    Ok(())
  }

  fn small(src: &mut Src, ctx: &mut Ctx, alphabet: &[char], max: usize) -> Res {
    let len = src.idx(max + 1);
    let t: Vec<char> = (0..len).map(|_| *src.pick(alphabet)).collect();
    if src.dry() {
      return Ok(());
    }
    ctx.show(|| format!("{:?}", string(&t)));
    let places: Vec<usize> = (0..=t.len()).collect();
    check(&t, &places, ctx)
  }

  /// Lines and bytes around every Unicode character.
  fn characters(block: u64, ctx: &mut Ctx) -> Res {
    for c in text::block(block) {
      for s in [format!("a{}b", c), format!("\n{}\r\n{}", c, c)] {
        let whole = caught_panic("new", || BufferRange::new("source", &s)).map_err(|m| format!("{:?}: {}", s, m))?;
        let chars: Vec<char> = s.chars().collect();
        let mut last = (0, 0);
        for k in 0..=chars.len() {
          let (line, _, byte) = text::lines_and_bytes(&chars, k);
          let r = whole.advance_n(k).map(|x| x.1).ok_or_else(|| format!("{:?}: cannot advance by {}", s, k))?;
          let pos = caught_panic("start_pos", || r.start_pos()).map_err(|m| format!("{:?} at {}: {}", s, k, m))?;
          let (l, column, b) = pos.verif_parts();
          ensure!(
            (l, b) == (line, byte),
            "{:?}: character {} is in line {} at byte {} instead of line {}, byte {}",
            s,
            k,
            l,
            b,
            line,
            byte
          );
          // A character is at most one cluster.
          ensure!(
            if last.0 == line && k > 0 { column == last.1 || column == last.1 + 1 } else { column == 0 },
            "{:?}: character {} is at column {}, after one at column {} of line {}",
            s,
            k,
            column,
            last.1,
            last.0
          );
          last = (line, column);
        }
      }
      ctx.nontrivial(&c);
    }
    ctx.show(|| format!("characters {:x}00-{:x}ff", block, block));
    Ok(())
  }

  pub fn suites() -> Vec<Suite> {
    vec![
      Suite::fixed("characters", 4352, characters),
      Suite::enumerated("lines", 1, 1, |src: &mut Src, ctx: &mut Ctx| small(src, ctx, &['a', '\n', '\r', 'é'], 7)),
      Suite::enumerated("clusters", 1, 1, |src: &mut Src, ctx: &mut Ctx| {
        small(
          src,
          ctx,
          &['a', '\n', '\u{301}', '\u{1F469}', '\u{200D}', '\u{1F1E6}', '\u{0600}', '\u{1100}'],
          5,
        )
      }),
      Suite::random("random", 450_000, 5_000_000, |src: &mut Src, ctx: &mut Ctx| {
        let t = text::random(src, 30);
        ctx.show(|| format!("{:?}", string(&t)));
        let places: Vec<usize> = (0..=t.len()).collect();
        check(&t, &places, ctx)
      }),
      Suite::random("long", 3_000, 24_000, |src: &mut Src, ctx: &mut Ctx| {
        let t = text::random(src, 5_000);
        ctx.show(|| format!("{} characters", t.len()));
        let mut places: Vec<usize> = (0..12).map(|_| src.idx(t.len() + 1)).collect();
        places.push(0);
        places.push(t.len());
        places.sort_unstable();
        check(&t, &places, ctx)
      }),
      // Past 2^16 lines and columns.
      Suite::random("huge", 6, 100, |src: &mut Src, ctx: &mut Ctx| {
        let n = src.urange(66_000, 70_000);
        let unit: &[char] = src.pick(&[&['a'][..], &['\n'], &['\r', '\n'], &['a', '\u{301}'], &['あ']]);
        let mut t: Vec<char> = unit.iter().copied().cycle().take(n * unit.len()).collect();
        for _ in 0..src.idx(3) {
          let at = src.idx(t.len());
          t[at] = *src.pick(&['\n', 'a', '\r']);
        }
        ctx.show(|| format!("{} times {:?}", n, unit));
        let mut places: Vec<usize> = (0..3).map(|_| src.idx(t.len() + 1)).collect();
        places.push(t.len() - 1);
        places.push(t.len());
        places.sort_unstable();
        check(&t, &places, ctx).map_err(|m| m.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect())
      }),
    ]
  }
}

#[cfg(not(any(bongo_verif, bongo_verif_buffer)))]
mod hooked {
  pub fn suites() -> Vec<engine::Suite> {
    Vec::new()
  }
}

fn main() {
  engine::main_with(
    "C19",
    "A case is a text (all short ones over small alphabets, random ones with line ends of all kinds, combining characters, flags, joined emoji and Hangul); the positions of the starts and ends of ranges are compared with a recomputation. Non-trivial: several lines and at least three characters.",
    &[
      "line, column and byte offset of a position are read through the hooks",
      "line terminators themselves take up no column",
      "cluster boundaries are recomputed by the rules of UAX #29 for a fixed set of characters (no Indic conjuncts)",
    ],
    hooked::suites(),
  )
}
