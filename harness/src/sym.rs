//! The symbol types handed to the code under test. Their comparisons and
//! clones count towards the work budget of a case.

use bongo::utils::ToDoc;
use engine::tick;
use std::cmp::Ordering;

macro_rules! sym {
  ($name:ident, $inner:ty, $prefix:expr) => {
    pub struct $name(pub $inner);

    impl Clone for $name {
      fn clone(&self) -> Self {
        tick();
        $name(self.0)
      }
    }

    impl PartialEq for $name {
      fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
      }
    }
    impl Eq for $name {}
    impl PartialOrd for $name {
      fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
      }
    }
    impl Ord for $name {
      fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
      }
    }
    impl std::fmt::Debug for $name {
      fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}{}", $prefix, self.0)
      }
    }
    impl ToDoc for $name {
      fn to_doc<'a, DA: pretty_alloc::DocAllocator<'a>>(
        &self,
        da: &'a DA,
      ) -> pretty_alloc::DocBuilder<'a, DA>
      where
        DA::Doc: Clone,
      {
        da.text(format!("{}{}", $prefix, self.0))
      }
    }
  };
}

use pretty as pretty_alloc;

sym!(T, u16, "t");
sym!(N, u16, "n");
sym!(K, u16, "k");
sym!(V, u32, "v");

/// Action values: no comparison at all is required of them.
pub struct A(pub u16);

impl Clone for A {
  fn clone(&self) -> Self {
    tick();
    A(self.0)
  }
}

impl std::fmt::Debug for A {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "a{}", self.0)
  }
}
