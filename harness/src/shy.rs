//! Iterators that say as little about their length as they please: every hint
//! they give is a right one, and what is done with the items is the same
//! whatever the hint.

use engine::Src;

#[derive(Clone)]
pub struct Shy<I> {
  items: I,
  way: u8,
}

impl<I: Iterator> Iterator for Shy<I> {
  type Item = I::Item;

  fn next(&mut self) -> Option<I::Item> {
    self.items.next()
  }

  fn size_hint(&self) -> (usize, Option<usize>) {
    let (lo, hi) = self.items.size_hint();
    match self.way {
      // all that is known
      0 => (lo, hi),
      // nothing
      1 => (0, None),
      // not more than
      2 => (0, hi),
      3 => (0, hi.map(|h| h.saturating_mul(2).saturating_add(3))),
      4 => (0, Some(usize::MAX)),
      // not fewer than
      5 => (lo, None),
      6 => (lo.min(1), None),
      _ => (lo / 2, None),
    }
  }
}

pub const WAYS: u8 = 8;

pub fn shy<I: IntoIterator>(way: u8, items: I) -> Shy<I::IntoIter> {
  Shy { items: items.into_iter(), way: way % WAYS }
}

/// The way is drawn.
pub fn way(src: &mut Src) -> u8 {
  src.below(WAYS as u64) as u8
}
