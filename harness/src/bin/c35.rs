//! C35: what a forest store hands out is ordered, and stays so.

use bongo::parsers::tree::{Alternative, Branch, Leaf, Node, NodeContent, TreeHandle, TreeOwner};
use bongo::utils::WasChanged;
use checks::order::total_order;
use checks::{K, T, V};
use engine::{ensure, main_with, Ctx, Res, Src, Suite};
use model::gen;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

type Owner = TreeOwner<T, K, V>;
type H<'a> = TreeHandle<'a, T, K, V>;
type Nd<'a> = Node<'a, T, K, V>;
type Al<'a> = Alternative<'a, T, K, V>;
type Lf<'a> = Leaf<'a, T, K, V>;
type Br<'a> = Branch<'a, T, K, V>;
type Co<'a> = NodeContent<'a, T, K, V>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Content {
  Leaf(u16, u32),
  /// Children by their number among the nodes of their owner.
  Branch(u16, Vec<usize>),
}

/// Owner and number; owner and content.
type NodeId = (usize, usize);
type AltId = (usize, Content);

/// Things of one type, with their identities, and a map keyed by them that
/// has been filled along the way.
struct Seen<I, X> {
  what: &'static str,
  all: Vec<(I, X)>,
  map: BTreeMap<X, I>,
  /// How pairs compared when they were first looked at.
  compared: Vec<(usize, usize, Ordering)>,
}

impl<I: Ord + Clone + std::fmt::Debug, X: Ord + Clone> Seen<I, X> {
  fn new(what: &'static str) -> Self {
    Seen {
      what,
      all: vec![],
      map: BTreeMap::new(),
      compared: vec![],
    }
  }

  fn add(&mut self, id: I, x: X) -> Res {
    if self.all.len() >= 400 {
      return Ok(());
    }
    let known = self.all.iter().any(|(i, _)| *i == id);
    if let Some(old) = self.map.insert(x.clone(), id.clone()) {
      ensure!(old == id, "{} {:?} replaces {:?} in a map", self.what, id, old);
    } else {
      ensure!(!known, "{} {:?} is put in a map, which has it already, and replaces nothing", self.what, id);
    }
    let n = self.all.len();
    for k in [n / 2, n.saturating_sub(1), 0] {
      if let Some((_, y)) = self.all.get(k) {
        self.compared.push((n, k, x.cmp(y)));
      }
    }
    self.all.push((id, x));
    Ok(())
  }

  fn check(&self, pick: &mut dyn FnMut(usize) -> usize) -> Res {
    for (a, b, c) in &self.compared {
      let (x, y) = (&self.all[*a], &self.all[*b]);
      ensure!(
        x.1.cmp(&y.1) == *c,
        "{} {:?} and {:?} compared {:?} before and {:?} later",
        self.what,
        x.0,
        y.0,
        c,
        x.1.cmp(&y.1)
      );
    }
    for (id, x) in &self.all {
      ensure!(self.map.get(x) == Some(id), "{} {:?} is found as {:?} in a map", self.what, id, self.map.get(x));
      ensure!(x.clone() == *x && x.cmp(&x.clone()) == Ordering::Equal, "{} {:?} and its clone differ", self.what, id);
    }
    let ids: BTreeSet<&I> = self.all.iter().map(|x| &x.0).collect();
    ensure!(ids.len() == self.map.len(), "{} different {} fill a map to {}", ids.len(), self.what, self.map.len());
    let sample: Vec<(I, X)> = if self.all.len() <= 40 {
      self.all.clone()
    } else {
      (0..40).map(|_| self.all[pick(self.all.len())].clone()).collect()
    };
    total_order(&sample, self.what)
  }
}

struct World<'a> {
  handles: &'a [H<'a>],
  nodes: Vec<Vec<Nd<'a>>>,
  s_handles: Seen<usize, H<'a>>,
  s_nodes: Seen<NodeId, Nd<'a>>,
  s_alts: Seen<AltId, Al<'a>>,
  s_contents: Seen<AltId, Co<'a>>,
  s_leaves: Seen<AltId, Lf<'a>>,
  s_branches: Seen<AltId, Br<'a>>,
}

impl<'a> World<'a> {
  fn saw_node(&mut self, id: NodeId, n: Nd<'a>) -> Res {
    self.s_handles.add(id.0, n.handle())?;
    self.s_nodes.add(id, n)
  }

  fn number(&self, o: usize, n: &Nd<'a>) -> Result<usize, String> {
    self.nodes[o]
      .iter()
      .position(|m| m == n)
      .ok_or_else(|| format!("a node that is none of those owner {} made", o))
  }

  fn saw_alt(&mut self, o: usize, a: Al<'a>, made: Option<Content>) -> Res {
    let content = a.content();
    let (id, handle) = match &content {
      NodeContent::Leaf(l) => (Content::Leaf(l.kind().0, l.value().0), l.handle()),
      NodeContent::Branch(b) => {
        let mut kids = Vec::new();
        for n in b.nodes() {
          kids.push(self.number(o, &n)?);
        }
        (Content::Branch(b.action().0, kids), b.handle())
      }
    };
    ensure!(made.is_none() || made.as_ref() == Some(&id), "{:?} was made as {:?}", id, made);
    let mut o = o;
    if !matches!(&id, Content::Branch(_, kids) if !kids.is_empty()) {
      // Whether equal leaves of different owners are the same is left open.
      let twin = self.s_alts.all.iter().find(|((p, c), b)| *p != o && *c == id && *b == a);
      o = twin.map_or(o, |t| t.0 .0);
    }
    self.s_handles.add(self.owner_of(&handle)?, handle)?;
    self.s_handles.add(self.owner_of(&a.handle())?, a.handle())?;
    match content.clone() {
      NodeContent::Leaf(l) => self.s_leaves.add((o, id.clone()), l)?,
      NodeContent::Branch(b) => self.s_branches.add((o, id.clone()), b)?,
    }
    self.s_contents.add((o, id.clone()), content)?;
    self.s_alts.add((o, id), a)
  }

  fn owner_of(&self, h: &H<'a>) -> Result<usize, String> {
    (0..self.handles.len())
      .find(|k| self.handles[*k].is_same(h))
      .ok_or_else(|| "a handle of no owner".to_string())
  }

  fn check(&self, src: &mut Src) -> Res {
    let mut pick = |n: usize| src.idx(n);
    self.s_handles.check(&mut pick)?;
    self.s_nodes.check(&mut pick)?;
    self.s_alts.check(&mut pick)?;
    self.s_contents.check(&mut pick)?;
    self.s_leaves.check(&mut pick)?;
    self.s_branches.check(&mut pick)
  }
}

fn history(src: &mut Src, ctx: &mut Ctx, ops: usize, many: usize) -> Res {
  let n_owners = src.count(1, 5);
  let mut owners: Vec<Box<Owner>> = (0..n_owners).map(|_| Box::new(Owner::new())).collect();
  if src.flag() {
    // Where they lie is not the order in which they were made.
    owners.reverse();
  }
  let handles: Vec<H> = owners.iter().map(|o| o.handle()).collect();
  let mut w = World {
    handles: &handles,
    nodes: vec![vec![]; n_owners],
    s_handles: Seen::new("handles"),
    s_nodes: Seen::new("nodes"),
    s_alts: Seen::new("alternatives"),
    s_contents: Seen::new("contents"),
    s_leaves: Seen::new("leaves"),
    s_branches: Seen::new("branches"),
  };
  let (kinds, values) = (src.below(3) + 1, src.below(6) + 1);
  let mut log = Vec::new();
  let mut again = 0;
  let handles = w.handles;
  for step in 0..ops {
    let o = src.idx(n_owners);
    let h = &handles[o];
    let n = w.nodes[o].len();
    let what = if n == 0 { 0 } else { src.below(8) };
    log.push((o, what));
    match what {
      0 => {
        let x = h.make_node();
        w.nodes[o].push(x.clone());
        w.saw_node((o, n), x)?;
      }
      1 | 2 => {
        let c = Content::Leaf(src.below(kinds) as u16, src.below(values) as u32);
        let Content::Leaf(k, v) = &c else { unreachable!() };
        let a = h.make_leaf_alt(T(*k), V(*v));
        again += w.s_alts.all.iter().any(|x| x.0 == (o, c.clone())) as usize;
        let node = w.nodes[o][src.idx(n)].clone();
        if src.flag() {
          node.add_alt(&a);
        }
        w.saw_alt(o, a, Some(c))?;
      }
      3 | 4 => {
        let kids: Vec<usize> = (0..src.count(0, 3)).map(|_| src.idx(n)).collect();
        let c = Content::Branch(src.below(kinds) as u16, kids.clone());
        let Content::Branch(k, _) = &c else { unreachable!() };
        let a = h.make_branch_alt(K(*k), checks::shy::shy((o + kids.len()) as u8, kids.iter().map(|k| w.nodes[o][*k].clone())));
        again += w.s_alts.all.iter().any(|x| x.0 == (o, c.clone())) as usize;
        let node = w.nodes[o][src.idx(n)].clone();
        if src.flag() {
          node.add_alt(&a);
        }
        w.saw_alt(o, a, Some(c))?;
      }
      5 => {
        let (a, b) = (src.idx(n), src.idx(n));
        let changed = w.nodes[o][a].add_all(&w.nodes[o][b]);
        ensure!(a != b || changed == WasChanged::Unchanged, "copying a node to itself changes it");
      }
      6 => {
        // Read, in the order the store gives.
        let k = src.idx(n);
        let node = w.nodes[o][k].clone();
        for a in node.alts().take(5) {
          w.saw_alt(o, a.clone(), None)?;
          if let NodeContent::Branch(b) = a.content() {
            for x in b.nodes() {
              let id = w.number(o, &x)?;
              w.saw_node((o, id), x)?;
            }
          }
        }
        w.saw_node((o, k), node)?;
      }
      _ => {
        // A crowd, of which a few are looked at.
        let m = gen::sized(src, many);
        if many > 1_000 && src.flag() {
          // Of nodes, for once.
          for i in 0..m {
            let x = h.make_node();
            let id = w.nodes[o].len();
            if id >= 3_000 && many < 10_000 {
              break;
            }
            w.nodes[o].push(x.clone());
            if i + 500 >= m || i % 64 == 0 {
              w.saw_node((o, id), x)?;
            }
          }
          continue;
        }
        let base = 100 + 1000 * step as u32;
        for i in 0..m {
          let a = h.make_leaf_alt(T(0), V(base + i as u32));
          if i % 97 == 0 {
            w.saw_alt(o, a, Some(Content::Leaf(0, base + i as u32)))?;
          }
          if i % 31 == 0 && w.nodes[o].len() < 3_000 {
            let x = h.make_node();
            let id = w.nodes[o].len();
            w.nodes[o].push(x.clone());
            w.saw_node((o, id), x)?;
          }
        }
      }
    }
    if src.chance(1, 12) {
      w.check(src).map_err(|m| format!("after step {}: {}", step, m))?;
    }
  }
  ctx.show(|| format!("{} owners, steps (owner, what): {:?}", n_owners, log));
  w.check(src).map_err(|m| format!("at the end: {}", m))?;
  ctx.label_if(n_owners > 1, "several owners");
  ctx.label_n("things compared", (w.s_nodes.all.len() + w.s_alts.all.len()) as u64);
  if again > 0 && w.s_alts.map.len() > 2 && w.s_nodes.map.len() > 1 {
    ctx.nontrivial(&(n_owners, log, again));
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("histories", 300_000, 6_000_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 30, 20)),
    Suite::random("long", 20_000, 600_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 200, 20)),
    Suite::random("crowds", 30_000, 600_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 20, 1_200)),
    Suite::random("large crowds", 1_200, 12_000, |src: &mut Src, ctx: &mut Ctx| history(src, ctx, 8, 70_000)),
  ];
  main_with(
    "C35",
    "A case is a history of operations on the stores of one to five owners; handles, nodes, alternatives, leaves, branches and contents obtained on the way are put into maps keyed by them and compared in pairs at once and later. Equality must be that of their identities, the order total, consistent with equality and the same at all times. Non-trivial: some content is made twice, and there are at least three alternatives and two nodes.",
    &["whether leaves of equal content, and childless branches of equal content, of different owners are the same is left open"],
    suites,
  )
}
