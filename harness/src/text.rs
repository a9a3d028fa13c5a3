//! Texts, their lines and their user-perceived characters.

use engine::Src;

/// Grapheme cluster break classes (UAX #29), for the characters in ALPHABET.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Class {
  Control,
  Extend,
  Zwj,
  Regional,
  Prepend,
  Spacing,
  L,
  V,
  T,
  Lv,
  Lvt,
  Pict,
  Other,
}

const ALPHABET: &[(char, Class)] = &[
  ('a', Class::Other),
  ('\n', Class::Control),
  ('\r', Class::Control),
  ('\u{301}', Class::Extend),
  ('é', Class::Other),
  ('あ', Class::Other),
  ('\u{1F600}', Class::Pict),
  ('\u{200D}', Class::Zwj),
  ('\u{1F1E6}', Class::Regional),
  ('\u{1F1FF}', Class::Regional),
  ('\u{1F3FD}', Class::Extend),
  ('\u{FE0F}', Class::Extend),
  ('\u{2764}', Class::Pict),
  ('\u{1F469}', Class::Pict),
  ('\u{0903}', Class::Spacing),
  ('\u{0600}', Class::Prepend),
  ('\u{1100}', Class::L),
  ('\u{1161}', Class::V),
  ('\u{11A8}', Class::T),
  ('\u{AC00}', Class::Lv),
  ('\u{AC01}', Class::Lvt),
  ('\t', Class::Control),
  ('\0', Class::Control),
  ('\u{200B}', Class::Control),
  ('\u{2028}', Class::Control),
  ('\u{2029}', Class::Control),
  ('\u{AD}', Class::Control),
  ('\u{1C}', Class::Control),
  ('\u{1E}', Class::Control),
  ('\u{200C}', Class::Extend),
  ('\u{FFFE}', Class::Other),
  ('\u{10000}', Class::Other),
  ('\u{85}', Class::Control),
  ('\u{B}', Class::Control),
  ('\u{C}', Class::Control),
  (' ', Class::Other),
  ('0', Class::Other),
  ('\u{7F}', Class::Control),
  ('\u{D7FF}', Class::Other),
  ('\u{FEFF}', Class::Control),
  ('\u{10FFFF}', Class::Other),
];

fn class(c: char) -> Class {
  ALPHABET.iter().find(|x| x.0 == c).expect("a character of the alphabet").1
}

/// Is there a boundary between `line[i - 1]` and `line[i]`?
fn boundary(line: &[char], i: usize) -> bool {
  use Class::*;
  if i == 0 || i == line.len() {
    return true;
  }
  let (a, b) = (class(line[i - 1]), class(line[i]));
  if line[i - 1] == '\r' && line[i] == '\n' {
    return false;
  }
  match (a, b) {
    (Control, _) | (_, Control) => true,
    (L, L) | (L, V) | (L, Lv) | (L, Lvt) => false,
    (Lv, V) | (Lv, T) | (V, V) | (V, T) => false,
    (Lvt, T) | (T, T) => false,
    (_, Extend) | (_, Zwj) | (_, Spacing) => false,
    (Prepend, _) => false,
    (Zwj, Pict) => {
      // Pict Extend* ZWJ x Pict
      let mut k = i - 1;
      while k > 0 && class(line[k - 1]) == Extend {
        k -= 1;
      }
      !(k > 0 && class(line[k - 1]) == Pict)
    }
    (Regional, Regional) => {
      let run = line[..i].iter().rev().take_while(|c| class(**c) == Regional).count();
      run % 2 == 0
    }
    _ => true,
  }
}

/// Line number, the characters of that line and byte offset of the place
/// before character `at`.
pub fn lines_and_bytes(text: &[char], at: usize) -> (usize, std::ops::Range<usize>, usize) {
  // Lines as (first character, end of content, end of terminator).
  let mut lines = Vec::new();
  let mut start = 0;
  let mut i = 0;
  while i < text.len() {
    let width = match (text[i], text.get(i + 1)) {
      ('\r', Some('\n')) => 2,
      ('\r', _) | ('\n', _) => 1,
      _ => 0,
    };
    if width > 0 {
      lines.push((start, i, i + width));
      start = i + width;
      i = start;
    } else {
      i += 1;
    }
  }
  lines.push((start, text.len(), text.len() + 1));
  let number = lines.iter().position(|l| at < l.2).expect("a line");
  let (first, end, _) = lines[number];
  let bytes = text[..at].iter().map(|c| c.len_utf8()).sum();
  (number, first..end, bytes)
}

/// Line, column and byte offset of the place before character `at`.
pub fn position(text: &[char], at: usize) -> (usize, usize, usize) {
  let (number, range, bytes) = lines_and_bytes(text, at);
  let first = range.start;
  let line = &text[range];
  let column = (0..line.len()).filter(|k| boundary(line, *k) && first + k < at).count();
  (number, column, bytes)
}

pub fn random(src: &mut Src, max: usize) -> Vec<char> {
  let len = if max >= 50_000 { src.urange(66_000, max) } else { src.count(0, max) };
  // A few characters, so that they meet, or all of them.
  let n = match src.below(4) {
    0 => 3,
    1 => 4,
    2 => src.urange(1, ALPHABET.len()),
    _ => ALPHABET.len(),
  };
  let from = if src.flag() { 0 } else { src.idx(ALPHABET.len()) };
  let breaks = src.below(3);
  (0..len)
    .map(|_| {
      if breaks > 0 && src.chance(breaks, 6) {
        return *src.pick(&['\n', '\r', '\n', '\r', '\n']);
      }
      ALPHABET[(from + src.idx(n)) % ALPHABET.len()].0
    })
    .collect()
}

/// The Unicode characters in block `block` of 256, of 4352.
pub fn block(block: u64) -> impl Iterator<Item = char> {
  let first = block as u32 * 256;
  (first..first + 256).filter_map(char::from_u32)
}
