//! C15, when its check does not build: can stores be shared at all? Whether a
//! type may go to another thread is asked without requiring it to, so that this
//! builds in any case.

use bongo::parsers::tree::{Alternative, Node, TreeHandle, TreeOwner};
use engine::{ensure, main_with, Ctx, Suite};
use std::marker::PhantomData;

struct Asked<X>(PhantomData<X>);

trait Otherwise {
  const SHARED: bool = false;
}

impl<X> Otherwise for Asked<X> {}

impl<X: Send + Sync> Asked<X> {
  const SHARED: bool = true;
}

type O = TreeOwner<u16, u16, u32>;
type H = TreeHandle<'static, u16, u16, u32>;
type N = Node<'static, u16, u16, u32>;
type A = Alternative<'static, u16, u16, u32>;

fn main() {
  let shared = [
    ("the owner", Asked::<O>::SHARED),
    ("a handle", Asked::<H>::SHARED),
    ("a node", Asked::<N>::SHARED),
    ("an alternative", Asked::<A>::SHARED),
  ];
  main_with(
    "C15",
    "The types of stores, handles, nodes and alternatives; each is non-trivial.",
    &["only run when the check itself does not build"],
    vec![Suite::fixed("types", 4, move |i, ctx: &mut Ctx| {
      let (what, yes) = shared[i as usize];
      ctx.show(|| what.to_string());
      ctx.nontrivial(&i);
      ensure!(yes, "{} of a store of plain numbers cannot be shared between threads", what);
      Ok(())
    })],
  )
}
