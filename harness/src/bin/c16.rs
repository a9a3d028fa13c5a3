//! C16: DOT output shows exactly the forest reachable from the node.

use bongo::parsers::tree::{Node, NodeContent, TreeOwner};
use checks::dot::{self, Graph};
use checks::parse::{parse, Owner};
use checks::{wrapped, K, T, V};
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// One addition: node, kind/action, value or children.
#[derive(Clone, Debug, Hash)]
enum Add {
  Leaf(usize, u16, u16),
  Branch(usize, u16, Vec<usize>),
}

/// The label of an alternative, as far as it is specified.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Label {
  Action(String),
  Token(String, String),
}

/// Does the text show the label? Punctuation around kind and value is free.
fn shows(text: &str, l: &Label) -> bool {
  match l {
    Label::Action(a) => text == a,
    Label::Token(k, v) => {
      let free = |s: &str| s.chars().all(|c| !c.is_alphanumeric() && c != '"');
      text == format!("{}({})", k, v)
        || (text.match_indices(k.as_str()).any(|(i, _)| {
          let rest = &text[i + k.len()..];
          free(&text[..i])
            && rest
              .match_indices(v.as_str())
              .any(|(j, _)| free(&rest[..j]) && free(&rest[j + v.len()..]))
        }))
    }
  }
}

const NODE: &str = "(node)";

/// Compares a rendering with the graph it should show.
fn judge(text: &str, want: &Graph, labels: &BTreeMap<String, Label>) -> Res {
  let d = dot::parse(text).map_err(|m| format!("the output is no DOT file: {}\n{}", m, text))?;
  let mut got = Graph::default();
  let mut index = BTreeMap::new();
  for (name, label) in &d.vertices {
    let shape = d.shapes.get(name).map(|s| s.as_str());
    let plain = dot::unescape(label);
    let colour = if label.is_empty() || shape == Some("point") {
      NODE.to_string()
    } else {
      // Several labels could fit in theory; the exact text comes first.
      labels
        .get_key_value(&plain)
        .or_else(|| labels.iter().find(|(_, l)| shows(&plain, l) || shows(label, l)))
        .map(|(c, _)| c.clone())
        .unwrap_or_else(|| format!("{} labelled {:?}", name, plain))
    };
    index.insert(name.clone(), got.colour.len());
    got.colour.push(colour);
  }
  for (a, b) in &d.edges {
    got.edges.push((index[a], index[b]));
  }
  match got.differs(want) {
    None => Ok(()),
    Some(m) => Err(format!("the rendering shows another graph: {}\n{}", m, text)),
  }
}

/// The graph reachable from the node, read through the public interface.
fn reachable<T, K, Vl>(root: &Node<T, K, Vl>) -> (Graph, BTreeMap<String, Label>, bool)
where
  T: Ord + Clone + Debug,
  K: Ord + Clone + Debug,
  Vl: Ord + Debug,
{
  let mut g = Graph::default();
  let mut labels = BTreeMap::new();
  let mut nodes = BTreeMap::new();
  let mut alts = BTreeMap::new();
  let mut queue = vec![root.clone()];
  nodes.insert(root.clone(), 0);
  g.colour.push(NODE.to_string());
  let mut shared = false;
  while let Some(n) = queue.pop() {
    let at = nodes[&n];
    for a in n.alts() {
      if let Some(i) = alts.get(&a) {
        g.edges.push((at, *i));
        shared = true;
        continue;
      }
      let i = g.colour.len();
      alts.insert(a.clone(), i);
      g.edges.push((at, i));
      let (text, label) = match a.content() {
        NodeContent::Leaf(l) => {
          let (k, v) = (format!("{:?}", l.kind()), format!("{:?}", l.value()));
          (format!("{}({})", k, v), Label::Token(k, v))
        }
        NodeContent::Branch(b) => {
          let k = format!("{:?}", b.action());
          (k.clone(), Label::Action(k))
        }
      };
      labels.insert(text.clone(), label);
      g.colour.push(text);
      if let NodeContent::Branch(b) = a.content() {
        for c in b.nodes() {
          let k = match nodes.get(&c) {
            Some(k) => {
              shared = true;
              *k
            }
            None => {
              let k = g.colour.len();
              g.colour.push(NODE.to_string());
              nodes.insert(c.clone(), k);
              queue.push(c);
              k
            }
          };
          g.edges.push((i, k));
        }
      }
    }
  }
  (g, labels, shared)
}

/// The graph reachable from a node, from the additions themselves.
fn planned(
  adds: &[Add],
  root: usize,
  kind: &dyn Fn(u16) -> String,
  act: &dyn Fn(u16) -> String,
  val: &dyn Fn(u16) -> String,
) -> (Graph, BTreeMap<String, Label>) {
  let mut g = Graph::default();
  let mut labels = BTreeMap::new();
  let mut of: BTreeMap<usize, Vec<&Add>> = BTreeMap::new();
  for a in adds {
    let (Add::Leaf(n, ..) | Add::Branch(n, ..)) = a;
    of.entry(*n).or_default().push(a);
  }
  // Alternatives are known by their text and children.
  let mut alts: BTreeMap<(String, Vec<usize>), usize> = BTreeMap::new();
  let mut nodes = BTreeMap::new();
  nodes.insert(root, 0);
  g.colour.push(NODE.to_string());
  let mut queue = vec![root];
  while let Some(n) = queue.pop() {
    let mut mine = std::collections::BTreeSet::new();
    for a in of.get(&n).into_iter().flatten() {
      let (text, label, kids) = match a {
        Add::Leaf(_, k, v) => {
          let (k, v) = (kind(*k), val(*v));
          (format!("{}({})", k, v), Label::Token(k, v), vec![])
        }
        Add::Branch(_, k, kids) => (act(*k), Label::Action(act(*k)), kids.clone()),
      };
      // Actions and tokens have different texts here.
      let key = (text.clone(), kids.clone());
      let new = !alts.contains_key(&key);
      let i = *alts.entry(key).or_insert_with(|| {
        g.colour.push(text.clone());
        g.colour.len() - 1
      });
      labels.insert(text, label);
      if mine.insert(i) {
        g.edges.push((nodes[&n], i));
      }
      if new {
        for c in kids {
          let k = *nodes.entry(c).or_insert_with(|| {
            g.colour.push(NODE.to_string());
            queue.push(c);
            g.colour.len() - 1
          });
          g.edges.push((i, k));
        }
      }
    }
  }
  (g, labels)
}

fn rendered<T, K, Vl>(n: &Node<T, K, Vl>) -> Result<String, String>
where
  T: Ord + Debug,
  K: Ord + Debug,
  Vl: Ord + Debug,
{
  caught_panic("to_dot", || n.to_dot())
}

fn plan(src: &mut Src, max_nodes: usize) -> (usize, Vec<Add>) {
  let n = src.urange(1, max_nodes);
  let adds = src.count(0, 3 * n);
  let fan = src.urange(1, 4);
  let names = src.urange(1, 6) as u64;
  let tree = src.chance(1, 3);
  let list = (0..adds)
    .map(|_| {
      let at = src.idx(n);
      if src.chance(1, 3) {
        Add::Leaf(at, src.below(names) as u16, src.below(names) as u16)
      } else {
        let len = src.idx(fan + 1);
        let kids = (0..len)
          .map(|_| {
            if tree && at + 1 < n {
              src.urange(at + 1, n - 1)
            } else {
              src.idx(n)
            }
          })
          .collect();
        Add::Branch(at, src.below(names) as u16, kids)
      }
    })
    .collect();
  (n, list)
}

fn check_plan<T, K, Vl>(
  n: usize,
  adds: &[Add],
  mk: &dyn Fn(u16) -> T,
  ma: &dyn Fn(u16) -> K,
  mv: &dyn Fn(u16) -> Vl,
  ctx: &mut Ctx,
) -> Res
where
  T: Ord + Clone + Debug,
  K: Ord + Clone + Debug,
  Vl: Ord + Debug,
{
  let owner = TreeOwner::new();
  let h = owner.handle();
  let nodes: Vec<_> = (0..n).map(|_| h.make_node()).collect();
  for a in adds {
    match a {
      Add::Leaf(at, k, v) => {
        nodes[*at].add_alt(&h.make_leaf_alt(mk(*k), mv(*v)));
      }
      Add::Branch(at, k, kids) => {
        let alt = h.make_branch_alt(ma(*k), checks::shy::shy(*k as u8, kids.iter().map(|c| nodes[*c].clone())));
        nodes[*at].add_alt(&alt);
      }
    }
  }
  let show = |x: &dyn Debug| format!("{:?}", x);
  let (kind, act, val) = (
    |i: u16| show(&mk(i)),
    |i: u16| show(&ma(i)),
    |i: u16| show(&mv(i)),
  );
  // The nodes at both ends and some in between.
  let mut roots = vec![0];
  if n > 1 {
    roots.push(n - 1);
  }
  let inner = if n > 20_000 { 0 } else { n.saturating_sub(1) };
  for r in (1..inner).step_by(1 + n / 4) {
    roots.push(r);
  }
  let (mut biggest, mut shared) = (0, false);
  for r in roots {
    let (want, labels) = planned(adds, r, &kind, &act, &val);
    let text = rendered(&nodes[r])?;
    judge(&text, &want, &labels).map_err(|m| format!("node {} of {:?}: {}", r, adds, m))?;
    ensure!(rendered(&nodes[r])? == text, "node {} of {:?}: rendering it again gives another text", r, adds);
    let (_, _, s) = reachable(&nodes[r]);
    shared |= s;
    biggest = biggest.max(want.colour.len());
  }
  ctx.label(match biggest {
    1 => "a lone node",
    2..=10 => "up to 10 vertices",
    11..=50 => "11-50 vertices",
    _ => "more than 50 vertices",
  });
  ctx.label_if(shared, "shared or cyclic");
  if shared {
    ctx.nontrivial(&format!("{:?}", adds));
  }
  Ok(())
}

fn own(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (n, adds) = plan(src, 20);
  ctx.show(|| format!("{} nodes, {:?}", n, adds));
  check_plan(n, &adds, &T, &K, &|v| V(v as u32), ctx)
}

/// Texts that have to be escaped.
fn texts(src: &mut Src, ctx: &mut Ctx) -> Res {
  const TEXTS: &[&str] = &["", "a\"b", "\\", "\\n", "line\nbreak", "é", "e\u{301}", "->", "]; n0 -> n0 [", "{}", "\u{1F600}", "\t\r", "<b>", "label=\"x\""];
  let (n, adds) = plan(src, 8);
  let s = src.idx(TEXTS.len());
  // Sometimes texts that are long and differ in the end only.
  let pad = if src.chance(1, 16) { gen::edgy(src, 1, 5_000) } else { 0 };
  let fill = *src.pick(&["x", "\u{e9}", "\n", "ab "]);
  let t = move |i: u16| format!("{}{}", fill.repeat(pad), TEXTS[(i as usize + s) % TEXTS.len()]);
  ctx.show(|| format!("{} nodes, {:?}, texts from {} after {} times {:?}", n, adds, s, pad, fill));
  // Kinds and actions are told apart by their types.
  #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
  struct Do(String);
  if src.flag() {
    check_plan(n, &adds, &t, &|i| Do(t(i)), &t, ctx)
  } else {
    check_plan(n, &adds, &|i| Some(t(i)), &|i| vec![t(i)], &|i| (t(i), i), ctx)
  }
}

fn parsed(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label) = gen::grammar(src, Names::Distinct);
  ctx.label(label);
  let w = match gen::derived_word(src, &g, 8) {
    Some(w) if w.len() <= 10 => w,
    _ => return Ok(()),
  };
  let sg = wrapped(&g)?;
  let owner = Owner::new();
  let h = owner.handle();
  ctx.show(|| format!("{:?} on {}", g, model::word_str(&w)));
  if src.chance(1, 4) {
    // Something else in the same store.
    let _ = parse(&sg, &h, &w, |i| 50 + i as u32)?;
  }
  let root = match parse(&sg, &h, &w, |i| i as u32) {
    Ok(Some(r)) => r,
    // Whether it is accepted is C01's business.
    _ => return Ok(()),
  };
  let (want, labels, shared) = reachable(&root);
  let text = rendered(&root)?;
  judge(&text, &want, &labels).map_err(|m| format!("{:?} on {}: {}", g, model::word_str(&w), m))?;
  ctx.label_if(shared, "shared or cyclic");
  if shared {
    ctx.nontrivial(&(&g, &w));
  }
  Ok(())
}

/// Long chains and rings.
fn long(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(100, 3000);
  let ring = src.flag();
  let ladder = src.flag();
  ctx.show(|| format!("{} nodes, ring {}, ladder {}", n, ring, ladder));
  let mut adds = Vec::new();
  for i in 0..n {
    if i + 1 < n {
      adds.push(Add::Branch(i, (i % 7) as u16, vec![i + 1]));
      if ladder && i + 2 < n {
        adds.push(Add::Branch(i, 8, vec![i + 2, i + 2]));
      }
    } else if ring {
      adds.push(Add::Branch(i, 9, vec![0]));
    }
  }
  adds.push(Add::Leaf(n - 1, 0, 0));
  check_plan(n, &adds, &T, &K, &|v| V(v as u32), ctx)
}

/// An alternative with many children.
fn wide(src: &mut Src, ctx: &mut Ctx) -> Res {
  let len = match src.weighted(&[40, 10, 1]) {
    0 => *src.pick(&[10usize, 63, 64, 65, 200]),
    1 => gen::edgy(src, 10, 1_100),
    _ => gen::edgy(src, 1_000, 5_000),
  };
  // Children that are alike or children that are all reached here only.
  let own = src.chance(1, 3);
  let n = if own { len + 1 } else { src.urange(1, 5) };
  let kids = (0..len).map(|i| if own { i + 1 } else { src.idx(n) }).collect();
  let mut adds = vec![Add::Branch(0, 0, kids)];
  let alts = if src.flag() { len } else { src.idx(len) };
  let branches = src.chance(1, 3);
  let at_one = src.flag();
  for i in 0..alts {
    let at = if at_one { 0 } else { src.idx(n) };
    if branches {
      adds.push(Add::Branch(at, i as u16, vec![src.idx(n)]));
    } else {
      adds.push(Add::Leaf(at, i as u16, 0));
    }
  }
  ctx.show(|| format!("{:?}", adds));
  check_plan(n, &adds, &T, &K, &|v| V(v as u32), ctx)
}

/// Many nodes and alternatives.
fn many(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = *src.pick(&[3_000usize, 12_000, 34_000, 70_000]);
  let fan = src.urange(2, 5);
  let back = src.chance(1, 2);
  ctx.show(|| format!("{} nodes, {} children each, back {}", n, fan, back));
  let mut adds = Vec::new();
  for i in 0..n {
    let mut kids: Vec<usize> = (0..fan).map(|k| i * fan + 1 + k).filter(|c| *c < n).collect();
    if back && i % 1001 == 1000 {
      kids.push(i / 2);
    }
    // No two nodes without children are alike.
    adds.push(Add::Branch(i, (i % 60_000) as u16, kids));
    if i % 3 == 0 {
      adds.push(Add::Leaf(i, (i % 7) as u16, (i % 60_013) as u16));
    }
  }
  check_plan(n, &adds, &T, &K, &|v| V(v as u32), ctx)
}

fn main() {
  let suites = vec![
    Suite::random("additions", 60_000, 2_000_000, own),
    Suite::random("texts", 90_000, 1_000_000, texts),
    Suite::random("parsed", 20_000, 1_000_000, parsed),
    Suite::random("wide", 5_000, 40_000, wide),
    Suite::random("long", 24, 1_000, long),
    Suite::random("many", 8, 200, many),
  ];
  main_with(
    "C16",
    "A case is a forest made by additions (sharing and cycles included) or by parsing; the rendering is read back and compared with the reachable graph up to renaming of vertices. Non-trivial: something reachable is shared or lies on a cycle.",
    &[
      "graphs are compared by colour refinement, so a wrong graph that it cannot tell from the right one would pass",
      "labels are compared after undoing escapes; punctuation around kind and value is free",
    ],
    suites,
  )
}
