//! C14: the forest store behaves as sets of interned alternatives.

use bongo::parsers::tree::{Alternative, Node, NodeContent, TreeHandle, TreeOwner};
use bongo::utils::WasChanged;
use checks::{shy, K, T, V};
use engine::{catch_expected, caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use std::collections::{BTreeMap, BTreeSet};

type Owner = TreeOwner<T, K, V>;
type H<'a> = TreeHandle<'a, T, K, V>;
type Nd<'a> = Node<'a, T, K, V>;
type Al<'a> = Alternative<'a, T, K, V>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Content {
  Leaf(u16, u32),
  Branch(u16, Vec<usize>),
}

struct Store<'a> {
  h: &'a H<'a>,
  nodes: Vec<Nd<'a>>,
  sets: Vec<BTreeSet<usize>>,
  contents: Vec<Content>,
  ids: BTreeMap<Content, usize>,
  /// Every handle of an alternative ever obtained.
  alts: Vec<(Al<'a>, usize)>,
}

impl<'a> Store<'a> {
  fn new(h: &'a H<'a>) -> Self {
    Store {
      h,
      nodes: vec![],
      sets: vec![],
      contents: vec![],
      ids: BTreeMap::new(),
      alts: vec![],
    }
  }

  fn intern(&mut self, c: Content) -> usize {
    let next = self.contents.len();
    if let Some(i) = self.ids.get(&c) {
      return *i;
    }
    self.ids.insert(c.clone(), next);
    self.contents.push(c);
    next
  }

  fn made_alt(&mut self, a: Al<'a>, c: Content) -> usize {
    let id = self.intern(c);
    self.alts.push((a, id));
    id
  }

  fn made_node(&mut self, n: Nd<'a>, set: BTreeSet<usize>) {
    self.nodes.push(n);
    self.sets.push(set);
  }

  /// The model's view of an alternative, read through its content.
  fn read(&self, a: &Al<'a>) -> Result<Content, String> {
    Ok(match a.content() {
      NodeContent::Leaf(l) => {
        ensure!(l.handle() == *self.h, "a leaf has another handle");
        Content::Leaf(l.kind().0, l.value().0)
      }
      NodeContent::Branch(b) => {
        ensure!(b.handle() == *self.h, "a branch has another handle");
        let mut kids = Vec::new();
        for n in b.nodes() {
          kids.push(
            self
              .nodes
              .iter()
              .position(|x| *x == n)
              .ok_or_else(|| "a child that is none of the nodes made".to_string())?,
          );
        }
        Content::Branch(b.action().0, kids)
      }
    })
  }

  /// Everything, compared with the model.
  fn check(&self, name: &str) -> Res {
    for (i, n) in self.nodes.iter().enumerate() {
      let mut got = BTreeSet::new();
      let mut count = 0;
      for a in n.alts() {
        count += 1;
        ensure!(a.handle() == *self.h, "{}: an alternative has another handle", name);
        let c = self.read(&a).map_err(|m| format!("{}: node {}: {}", name, i, m))?;
        match self.ids.get(&c) {
          Some(id) => got.insert(*id),
          None => return Err(format!("{}: node {} holds {:?}, which was never made", name, i, c)),
        };
      }
      let show = |s: &BTreeSet<usize>| s.iter().map(|x| self.contents[*x].clone()).collect::<Vec<_>>();
      ensure!(
        got == self.sets[i],
        "{}: node {} holds {:?} instead of {:?}",
        name,
        i,
        show(&got),
        show(&self.sets[i])
      );
      ensure!(count == got.len(), "{}: node {} yields {} alternatives, {} different ones", name, i, count, got.len());
      for (j, m) in self.nodes.iter().enumerate() {
        ensure!(
          (n == m) == (i == j) && (n.cmp(m) == std::cmp::Ordering::Equal) == (i == j),
          "{}: nodes {} and {}: equal is {}",
          name,
          i,
          j,
          n == m
        );
      }
      ensure!(n.handle() == *self.h && n.handle().is_same(self.h), "{}: node {} has another handle", name, i);
    }
    for (k, (a, id)) in self.alts.iter().enumerate() {
      let c = self.read(a).map_err(|m| format!("{}: {:?}: {}", name, self.contents[*id], m))?;
      ensure!(c == self.contents[*id], "{}: an alternative made as {:?} reports {:?}", name, self.contents[*id], c);
      // All pairs, or the last few of them once there are many.
      for (b, jd) in self.alts[..k].iter().rev().take(40) {
        let same = id == jd;
        ensure!(
          (a == b) == same
            && (a.cmp(b) == std::cmp::Ordering::Equal) == same
            && (a.content() == b.content()) == same,
          "{}: alternatives {:?} and {:?}: equal is {}",
          name,
          self.contents[*id],
          self.contents[*jd],
          a == b
        );
      }
    }
    Ok(())
  }
}

/// Nodes of different owners are never the same; neither are alternatives
/// unless they are leaves of equal content (those, and branches without
/// children, may or may not be).
fn across(x: &Store, y: &Store) -> Res {
  use std::cmp::Ordering::Equal;
  for a in &x.nodes {
    for b in &y.nodes {
      ensure!(a != b && b != a, "nodes of different owners are the same");
      ensure!(a.cmp(b) != Equal && a.cmp(b) == b.cmp(a).reverse(), "nodes of different owners compare {:?}", a.cmp(b));
    }
  }
  for (a, i) in x.alts.iter().rev().take(12) {
    for (b, j) in y.alts.iter().rev().take(12) {
      let (c, d) = (&x.contents[*i], &y.contents[*j]);
      let either = c == d && !matches!(c, Content::Branch(_, kids) if !kids.is_empty());
      ensure!(
        either || a != b && b != a && a.cmp(b) != Equal && a.cmp(b) == b.cmp(a).reverse(),
        "alternatives {:?} and {:?} of different owners: equal is {}, they compare {:?}",
        c,
        d,
        a == b,
        a.cmp(b)
      );
      ensure!(
        either || a.content() != b.content(),
        "the contents {:?} and {:?} of alternatives of different owners are equal",
        c,
        d
      );
    }
  }
  Ok(())
}

/// What is done inside the iterator of children handed to make_branch_alt.
fn reentrant(st: &mut Store<'_>, what: u64, i: usize, c: &Content) -> Res {
  let n = st.nodes.len();
  match what {
    0 => {
      let x = st.h.make_node();
      st.made_node(x, BTreeSet::new());
    }
    1 => {
      let x = st.h.make_leaf_alt(T(0), V(i as u32));
      st.made_alt(x, Content::Leaf(0, i as u32));
    }
    2 => {
      let k = i % n;
      let got = st.nodes[k].alts().count();
      ensure!(got == st.sets[k].len(), "inside an iterator of children: node {} yields {} alternatives", k, got);
    }
    3 => {
      if let Some((a, id)) = st.alts.last() {
        let (a, id) = (a.clone(), *id);
        let changed = st.nodes[i % n].add_alt(&a);
        let grew = st.sets[i % n].insert(id);
        ensure!(
          changed == WasChanged::from_changed(grew),
          "inside an iterator of children: an addition reports {:?}",
          changed
        );
      }
    }
    _ => {
      // The very alternative that is being made.
      if let Content::Branch(action, kids) = c {
        let nodes: Vec<_> = kids.iter().map(|k| st.nodes[*k].clone()).collect();
        let x = st.h.make_branch_alt(K(*action), nodes);
        st.made_alt(x, c.clone());
      }
    }
  }
  Ok(())
}

fn kids(src: &mut Src, n: usize, wide: bool) -> Vec<usize> {
  if n == 0 {
    return vec![];
  }
  if wide && src.chance(1, 6) {
    let len = *src.pick(&[63usize, 64, 65, 70, 130, 300]);
    let (a, b) = (src.idx(n), src.idx(n));
    let at = src.idx(len);
    return (0..len).map(|i| if i == at { b } else { a }).collect();
  }
  (0..src.count(0, 4)).map(|_| src.idx(n)).collect()
}

fn changes(what: &str, got: WasChanged, grew: bool) -> Res {
  ensure!(got == WasChanged::from_changed(grew), "{} reports {:?}, but the set {}", what, got, if grew { "grew" } else { "did not grow" });
  Ok(())
}

fn history(src: &mut Src, ctx: &mut Ctx, max_ops: usize, wide: bool) -> Res {
  let n_owners = if src.chance(1, 10) { 3 } else { 2 };
  let owners: Vec<Owner> = (0..n_owners)
    .map(|i| if i % 2 == 0 { TreeOwner::new() } else { TreeOwner::default() })
    .collect();
  let handles: Vec<H> = owners.iter().map(|o| o.handle()).collect();
  let mut stores: Vec<Store> = handles.iter().map(|h| Store::new(h)).collect();
  for i in 0..n_owners {
    for j in 0..n_owners {
      ensure!(
        (handles[i] == handles[j]) == (i == j)
          && handles[i].is_same(&handles[j]) == (i == j)
          && handles[i].is_same(&owners[j].handle()) == (i == j),
        "handles of owners {} and {}: equal is {}",
        i,
        j,
        handles[i] == handles[j]
      );
    }
  }
  // At least one node in each.
  for s in &mut stores {
    let n = s.h.make_node();
    s.made_node(n, BTreeSet::new());
  }
  let ops = src.count(1, max_ops);
  let mut log: Vec<String> = Vec::new();
  let (mut grew_no, mut reused, mut rejected, mut reent) = (0, 0, 0, 0);
  for step in 0..ops {
    let o = if src.chance(2, 3) { 0 } else { src.idx(n_owners) };
    let other = (o + 1 + src.idx(n_owners - 1)) % n_owners;
    let n = stores[o].nodes.len();
    let op = src.weighted(&[3, 3, 6, 6, 2, 2, 8, 5, 2, 1, 1, 1, 1]);
    // One step, with every panic of the store caught.
    let r: Result<Res, String> = catch_expected(|| -> Res {
      let st = &mut stores[o];
      match op {
        0 => {
          log.push(format!("s{}: make_node", o));
          let x = st.h.make_node();
          ensure!(st.nodes.iter().all(|y| *y != x), "make_node returns a node that is already there");
          st.made_node(x, BTreeSet::new());
        }
        1 => {
          let (k, v) = (src.below(3) as u16, src.below(3) as u32);
          log.push(format!("s{}: make_leaf_node({}, {})", o, k, v));
          let x = st.h.make_leaf_node(T(k), V(v));
          let id = st.intern(Content::Leaf(k, v));
          st.made_node(x, Some(id).into_iter().collect());
        }
        2 => {
          let (k, v) = (src.below(3) as u16, src.below(3) as u32);
          log.push(format!("s{}: make_leaf_alt({}, {})", o, k, v));
          let x = st.h.make_leaf_alt(T(k), V(v));
          let before = st.contents.len();
          if st.made_alt(x, Content::Leaf(k, v)) < before {
            reused += 1;
          }
        }
        3 => {
          let act = src.below(3) as u16;
          let ks = kids(src, n, wide);
          let mode = if src.chance(1, 4) { Some(src.below(5)) } else { None };
          let c = Content::Branch(act, ks.clone());
          let x;
          match mode {
            None => {
              log.push(format!("s{}: make_branch_alt({}, {:?})", o, act, ks));
              let nodes: Vec<_> = ks.iter().map(|k| st.nodes[*k].clone()).collect();
              x = match shy::way(src) {
                0 => st.h.make_branch_alt(K(act), nodes),
                way => st.h.make_branch_alt(K(act), shy::shy(way, nodes)),
              };
            }
            Some(what) => {
              log.push(format!("s{}: make_branch_alt({}, {:?}) while using the store (way {})", o, act, ks, what));
              reent += 1;
              let mut inner: Res = Ok(());
              let h = st.h;
              x = h.make_branch_alt(
                K(act),
                shy::shy(what as u8 + act as u8, ks.iter().enumerate()).map(|(i, k)| {
                  let node = st.nodes[*k].clone();
                  let r = reentrant(st, what, i, &c);
                  if inner.is_ok() {
                    inner = r;
                  }
                  node
                }),
              );
              inner?;
            }
          }
          let before = st.contents.len();
          if st.made_alt(x, c) < before {
            reused += 1;
          }
        }
        4 => {
          let act = src.below(3) as u16;
          let ks = kids(src, n, wide);
          log.push(format!("s{}: make_branch_node({}, {:?})", o, act, ks));
          let nodes: Vec<_> = ks.iter().map(|k| st.nodes[*k].clone()).collect();
          let x = st.h.make_branch_node(K(act), nodes);
          let id = st.intern(Content::Branch(act, ks));
          st.made_node(x, Some(id).into_iter().collect());
        }
        5 => {
          let i = src.idx(n);
          log.push(format!("s{}: take the alternatives of n{}", o, i));
          let list: Vec<_> = st.nodes[i].alts().collect();
          for a in list {
            let c = st.read(&a)?;
            st.made_alt(a, c);
          }
        }
        6 if !st.alts.is_empty() => {
          let i = src.idx(n);
          let k = src.idx(st.alts.len());
          let (a, id) = (st.alts[k].0.clone(), st.alts[k].1);
          log.push(format!("s{}: n{}.add_alt({:?})", o, i, st.contents[id]));
          let changed = st.nodes[i].add_alt(&a);
          let grew = st.sets[i].insert(id);
          if !grew {
            grew_no += 1;
          }
          changes("add_alt", changed, grew)?;
        }
        7 => {
          let (i, j) = (src.idx(n), src.idx(n));
          log.push(format!("s{}: n{}.add_all(n{})", o, i, j));
          let changed = st.nodes[i].add_all(&st.nodes[j]);
          let set = st.sets[j].clone();
          let before = st.sets[i].len();
          st.sets[i].extend(set);
          let grew = st.sets[i].len() > before;
          if !grew {
            grew_no += 1;
          }
          changes("add_all", changed, grew)?;
        }
        8 => {
          // Copying by hand, adding while iterating.
          let (i, j) = (src.idx(n), src.idx(n));
          log.push(format!("s{}: copy n{} to n{} one by one", o, j, i));
          for a in st.nodes[j].clone().alts() {
            let c = st.read(&a)?;
            let id = *st.ids.get(&c).ok_or("an alternative that was never made")?;
            let changed = st.nodes[i].add_alt(&a);
            let grew = st.sets[i].insert(id);
            changes("add_alt", changed, grew)?;
          }
          let set = st.sets[j].clone();
          ensure!(set.is_subset(&st.sets[i]), "iteration leaves out an alternative");
        }
        9 if !stores[other].alts.is_empty() => {
          let k = src.idx(stores[other].alts.len());
          let i = src.idx(n);
          log.push(format!("s{}: n{}.add_alt(alternative of s{})", o, i, other));
          rejected += 1;
          let a = stores[other].alts[k].0.clone();
          let node = stores[o].nodes[i].clone();
          ensure!(
            catch_expected(|| node.add_alt(&a)).is_err(),
            "add_alt accepts an alternative of another owner"
          );
        }
        10 => {
          let i = src.idx(n);
          let j = src.idx(stores[other].nodes.len());
          log.push(format!("s{}: n{}.add_all(n{} of s{})", o, i, j, other));
          rejected += 1;
          let (a, b) = (stores[o].nodes[i].clone(), stores[other].nodes[j].clone());
          ensure!(catch_expected(|| a.add_all(&b)).is_err(), "add_all accepts a node of another owner");
        }
        11 | 12 => {
          let act = src.below(3) as u16;
          let ks = kids(src, n, wide);
          let at = src.idx(ks.len() + 1);
          let j = src.idx(stores[other].nodes.len());
          log.push(format!(
            "s{}: make_branch_{}({}, {:?}) with n{} of s{} at {}",
            o,
            if op == 11 { "alt" } else { "node" },
            act,
            ks,
            j,
            other,
            at
          ));
          rejected += 1;
          let mut nodes: Vec<_> = ks.iter().map(|k| stores[o].nodes[*k].clone()).collect();
          nodes.insert(at, stores[other].nodes[j].clone());
          let h = stores[o].h;
          let accepted = if op == 11 {
            catch_expected(|| {
              h.make_branch_alt(K(act), nodes);
            })
            .is_ok()
          } else {
            catch_expected(|| {
              h.make_branch_node(K(act), nodes);
            })
            .is_ok()
          };
          ensure!(!accepted, "a branch accepts a node of another owner");
        }
        _ => {}
      }
      Ok(())
    });
    let fail = |m: String| format!("{}\nafter: {}", m, log.join("; "));
    match r {
      Err(m) => return Err(fail(format!("panic: {}", m))),
      Ok(Err(m)) => return Err(fail(m)),
      Ok(Ok(())) => {}
    }
    if step + 1 == ops || op >= 9 || max_ops < 30 || src.chance(1, 10) {
      for (i, s) in stores.iter().enumerate() {
        let name = format!("store {}", i);
        match caught_panic("reading", || s.check(&name)) {
          Err(m) | Ok(Err(m)) => return Err(fail(m)),
          Ok(Ok(())) => {}
        }
      }
      match caught_panic("comparing across owners", || across(&stores[0], &stores[1])) {
        Err(m) | Ok(Err(m)) => return Err(fail(m)),
        Ok(Ok(())) => {}
      }
    }
  }
  ctx.show(|| log.join("; "));
  ctx.label_if(grew_no > 0, "an addition that changes nothing");
  ctx.label_if(reused > 0, "content made again");
  ctx.label_if(rejected > 0, "something of another owner is offered");
  ctx.label_if(reent > 0, "the store is used by the iterator of children");
  if grew_no > 0 && reused > 0 {
    ctx.nontrivial(&log);
  }
  Ok(())
}

/// Many nodes and alternatives.
fn bulk(src: &mut Src, ctx: &mut Ctx, lo: usize, hi: usize) -> Res {
  let n = src.urange(lo, hi);
  let step = src.urange(1, 50);
  let (o1, o2) = (Owner::new(), Owner::new());
  let (h, other) = (o1.handle(), o2.handle());
  ctx.show(|| format!("{} leaf nodes and branches", n));
  ctx.nontrivial(&(n, step));
  let far = other.make_node();
  let leaves: Vec<Nd> = (0..n).map(|i| h.make_leaf_node(T(i as u16), V((i / 2) as u32))).collect();
  let pair = |i: usize| vec![leaves[i].clone(), leaves[(i + step) % n].clone()];
  let alts: Vec<Al> = (0..n).map(|i| h.make_branch_alt(K((i % 3) as u16), pair(i))).collect();
  let (all, even) = (h.make_node(), h.make_node());
  let order = src.permutation(n);
  for i in &order {
    ensure!(all.add_alt(&alts[*i]) == WasChanged::Changed, "first addition of alternative {} reports no change", i);
    if i % 2 == 0 {
      ensure!(even.add_alt(&alts[*i]) == WasChanged::Changed, "first addition of alternative {} reports no change", i);
    }
  }
  ensure!(catch_expected(|| all.add_all(&far)).is_err(), "add_all accepts a node of another owner");
  ensure!(all.add_all(&even) == WasChanged::Unchanged, "adding a subset reports a change");
  for i in &order {
    let again = h.make_branch_alt(K((i % 3) as u16), pair(*i));
    ensure!(again == alts[*i], "alternative {} of {} made again is another one", i, n);
    ensure!(all.add_alt(&again) == WasChanged::Unchanged, "second addition of alternative {} reports a change", i);
    let l = h.make_leaf_alt(T(*i as u16), V((i / 2) as u32));
    ensure!(leaves[*i].alts().collect::<Vec<_>>() == vec![l], "leaf node {} of {} holds something else", i, n);
  }
  let want = |f: &dyn Fn(usize) -> bool| (0..n).filter(|i| f(*i)).map(|i| alts[i].clone()).collect::<BTreeSet<_>>();
  for (node, w, what) in [(&all, want(&|_| true), "all"), (&even, want(&|i| i % 2 == 0), "even")].iter() {
    let got: Vec<Al> = node.alts().collect();
    ensure!(got.len() == w.len(), "the node of {} alternatives yields {} instead of {}", what, got.len(), w.len());
    ensure!(got.into_iter().collect::<BTreeSet<_>>() == *w, "the node of {} alternatives holds others", what);
  }
  let (fresh, empty) = (h.make_node(), h.make_node());
  ensure!(fresh.add_all(&empty) == WasChanged::Unchanged, "adding nothing to nothing reports a change");
  ensure!(all.add_all(&empty) == WasChanged::Unchanged, "adding nothing reports a change");
  ensure!(fresh.add_all(&even) == WasChanged::Changed, "filling an empty node reports no change");
  ensure!(
    fresh.alts().collect::<BTreeSet<_>>() == even.alts().collect::<BTreeSet<_>>(),
    "an empty node filled from another holds something else"
  );
  ensure!(fresh.add_all(&even) == WasChanged::Unchanged, "adding all a second time reports a change");
  // One more than a large set.
  let one = h.make_node();
  one.add_alt(&h.make_leaf_alt(T(0), V(u32::MAX)));
  ensure!(fresh.add_all(&one) == WasChanged::Changed, "one more alternative reports no change");
  ensure!(one.add_all(&fresh) == WasChanged::Changed, "adding a large set to one alternative reports no change");
  ensure!(
    one.alts().collect::<BTreeSet<_>>() == fresh.alts().collect::<BTreeSet<_>>(),
    "adding a large set to one alternative gives another set"
  );
  // One wide branch.
  let children: Vec<Nd> = order.iter().map(|i| leaves[*i].clone()).collect();
  let wide = h.make_branch_alt(K(9), children.clone());
  let mut shorter = children.clone();
  shorter.pop();
  let node = h.make_branch_node(K(9), children.clone());
  ensure!(node.alts().collect::<Vec<_>>() == vec![wide.clone()], "a branch of {} children made again is another one", n);
  ensure!(h.make_branch_alt(K(9), shorter) != wide, "branches of {} and {} children are the same", n, n - 1);
  let mut other_last = children.clone();
  *other_last.last_mut().expect("a child") = one.clone();
  ensure!(h.make_branch_alt(K(9), other_last) != wide, "branches of {} children that differ in the last are the same", n);
  match wide.content() {
    NodeContent::Branch(b) => {
      ensure!(
        b.action() == K(9) && b.nodes().collect::<Vec<_>>() == children,
        "a branch of {} children reports other content",
        n
      );
    }
    NodeContent::Leaf(_) => return Err("a branch has become a leaf".to_string()),
  }
  ensure!(even.add_all(&all) == WasChanged::from_changed(n > 1), "adding a superset reports no change");
  ensure!(even.alts().count() == n, "after adding all, {} alternatives instead of {}", even.alts().count(), n);
  for (i, a) in alts.iter().enumerate() {
    match a.content() {
      NodeContent::Branch(b) => {
        ensure!(
          b.action().0 == (i % 3) as u16 && b.nodes().collect::<Vec<_>>() == pair(i),
          "alternative {} of {} reports other content",
          i,
          n
        );
      }
      NodeContent::Leaf(_) => return Err(format!("alternative {} has become a leaf", i)),
    }
  }
  Ok(())
}

/// A store that grows by one content at a time; at each size everything made
/// before is made again, and every addition is repeated.
fn again(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(2, 90);
  let n_nodes = src.urange(1, 5);
  let branches = src.chance(2, 3);
  let o = Owner::new();
  let h = o.handle();
  let nodes: Vec<Nd> = (0..n_nodes).map(|_| h.make_node()).collect();
  let mut sets: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n_nodes];
  let mut contents: Vec<Content> = Vec::new();
  let mut seen = BTreeSet::new();
  let mut alts: Vec<Al> = Vec::new();
  let make = |c: &Content| match c {
    Content::Leaf(k, v) => h.make_leaf_alt(T(*k), V(*v)),
    Content::Branch(a, ks) => h.make_branch_alt(K(*a), shy::shy(*a as u8 + ks.len() as u8, ks.iter().map(|k| nodes[*k].clone()))),
  };
  for step in 0..n {
    let c = if branches && src.chance(1, 2) {
      Content::Branch(src.below(4) as u16, (0..src.count(0, 4)).map(|_| src.idx(n_nodes)).collect())
    } else {
      Content::Leaf(src.below(3) as u16, src.below(40) as u32)
    };
    if !seen.insert(c.clone()) {
      continue;
    }
    let a = make(&c);
    ensure!(alts.iter().all(|b| *b != a), "step {}: {:?} is the same as something else", step, c);
    contents.push(c);
    alts.push(a);
    let last = alts.len() - 1;
    let i = src.idx(n_nodes);
    changes("add_alt", nodes[i].add_alt(&alts[last]), sets[i].insert(last))?;
    if src.chance(1, 4) {
      let j = src.idx(n_nodes);
      let from = sets[j].clone();
      let before = sets[i].len();
      sets[i].extend(from);
      changes("add_all", nodes[i].add_all(&nodes[j]), sets[i].len() > before)?;
    }
    for (j, c) in contents.iter().enumerate() {
      let b = make(c);
      ensure!(b == alts[j], "with {} contents made, {:?} made again is another one", contents.len(), c);
      for (k, other) in alts.iter().enumerate() {
        ensure!((b == *other) == (j == k), "with {} contents made, {:?} and {:?}: equal is {}", contents.len(), c, contents[k], b == *other);
      }
    }
    for (k, set) in sets.iter().enumerate() {
      for j in set {
        changes("repeating add_alt", nodes[k].add_alt(&alts[*j]), false)?;
      }
      let got: Vec<Al> = nodes[k].alts().collect();
      let want: BTreeSet<Al> = set.iter().map(|j| alts[*j].clone()).collect();
      ensure!(
        got.len() == want.len() && got.into_iter().collect::<BTreeSet<_>>() == want,
        "with {} contents made, node {} does not hold what was added",
        contents.len(),
        k
      );
    }
  }
  ctx.show(|| format!("{} nodes; {:?}", n_nodes, contents));
  if contents.len() > 3 {
    ctx.nontrivial(&contents);
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("short", 900_000, 7_200_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 14, false)),
    Suite::random("long", 120_000, 1_000_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 120, false)),
    Suite::random("wide", 120_000, 960_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 40, true)),
    Suite::random("again", 20_000, 400_000, again),
    Suite::random("bulk", 400, 4_000, |src: &mut Src, ctx: &mut Ctx| bulk(src, ctx, 2, 3_000)),
    Suite::random("huge", 2, 10, |src: &mut Src, ctx: &mut Ctx| bulk(src, ctx, 66_000, 70_000)),
  ];
  main_with(
    "C14",
    "A case is a sequence of operations on two or three owners (nodes, alternatives, additions, copies, iterators that use the store, things of another owner), mirrored in a model; contents, change reports and identities are compared as it goes. Non-trivial: some content is made twice and some addition changes nothing.",
    &["whether leaves of equal content, and childless branches of equal content, of different owners are the same is left open", "iterators of children and comparisons of stored values do not panic"],
    suites,
  )
}
