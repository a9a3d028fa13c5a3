//! C15: a forest store can be shared between threads.

use bongo::parsers::tree::{Alternative, Node, NodeContent, TreeHandle, TreeOwner};
use bongo::utils::WasChanged;
use checks::parse::{check_exact, extract, parse, reference, FNode, Owner as ParseOwner};
use checks::{wrapped, SG};
use engine::caught_panic;
use model::forest::{Forest, RefForest};
use model::gen::{self, Names};
use model::{word_str, Gram};
use engine::{ensure, main_with, run_deadlock_checked, Ctx, Res, Src, Suite};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering as AO};
use std::sync::{Arc, Condvar, Mutex};

thread_local! {
  /// State of the thread's delay generator; 0 = no delays.
  static DELAY: Cell<u64> = const { Cell::new(0) };
}

/// Called by every comparison and clone of stored values, and between steps.
fn pause() {
  #[cfg(any(bongo_verif, bongo_verif_sync))]
  checks::sched::inner_point();
  DELAY.with(|d| {
    let s = d.get();
    if s == 0 {
      return;
    }
    let s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
    d.set(s);
    match s >> 58 {
      0..=3 => std::thread::yield_now(),
      4..=11 => {
        for _ in 0..(s >> 40 & 0x1ff) {
          std::hint::spin_loop();
        }
      }
      12 if s >> 50 & 15 == 0 => std::thread::sleep(std::time::Duration::from_micros(20)),
      _ => {}
    }
  })
}

macro_rules! hooked {
  ($name:ident) => {
    struct $name(u32);
    impl std::fmt::Debug for $name {
      fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        pause();
        f.write_str(stringify!($name))?;
        pause();
        write!(f, "{}", self.0)
      }
    }
    impl Clone for $name {
      fn clone(&self) -> Self {
        pause();
        $name(self.0)
      }
    }
    impl PartialEq for $name {
      fn eq(&self, o: &Self) -> bool {
        pause();
        self.0 == o.0
      }
    }
    impl Eq for $name {}
    impl PartialOrd for $name {
      fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
      }
    }
    impl Ord for $name {
      fn cmp(&self, o: &Self) -> Ordering {
        pause();
        self.0.cmp(&o.0)
      }
    }
  };
}
hooked!(Kind);
hooked!(Act);
hooked!(Val);

type Owner = TreeOwner<Kind, Act, Val>;
type H = TreeHandle<'static, Kind, Act, Val>;
type Nd = Node<'static, Kind, Act, Val>;
type Al = Alternative<'static, Kind, Act, Val>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Content {
  Leaf(u32, u32),
  /// Children: indices of the shared nodes.
  Branch(u32, Vec<usize>),
}

#[derive(Clone, Debug, Hash)]
enum Op {
  /// Make the content and add it to the shared node.
  Add(usize, usize),
  /// Make the content only.
  Make(usize),
  AddAll(usize, usize),
  Read(usize),
  /// A node of one's own with these contents.
  Private(Vec<usize>),
  /// make_leaf_node / make_branch_node
  MakeNode(usize),
  Compare(usize, usize),
  /// Rendering.
  Dot(usize),
}

enum Event {
  Added(usize, usize, bool),
  AddedAll(usize, usize, bool),
  Made(usize, Al),
  Seen(usize, BTreeSet<usize>),
  Fresh(Nd, BTreeSet<usize>),
  Shown(usize, String),
}

/// An event with the times at which it began and ended.
type Timed = (usize, usize, Event);

/// A barrier that blocks without using CPU time and can be given up.
struct Gate {
  n: usize,
  state: Mutex<(usize, usize)>,
  cond: Condvar,
  abort: AtomicBool,
  align: AtomicUsize,
}

impl Gate {
  /// False when given up.
  fn wait(&self) -> bool {
    let generation;
    {
      let mut g = self.state.lock().unwrap();
      generation = g.1;
      g.0 += 1;
      if g.0 == self.n {
        *g = (0, generation + 1);
        self.cond.notify_all();
      } else {
        while g.1 == generation && !self.abort.load(AO::SeqCst) {
          g = self.cond.wait(g).unwrap();
        }
      }
    }
    // Waking up takes different times; line up again, within reason.
    self.align.fetch_add(1, AO::SeqCst);
    for _ in 0..20_000 {
      if self.align.load(AO::SeqCst) >= self.n * (generation + 1) {
        break;
      }
      std::hint::spin_loop();
    }
    !self.abort.load(AO::SeqCst)
  }

  fn give_up(&self) {
    let _g = self.state.lock().unwrap();
    self.abort.store(true, AO::SeqCst);
    self.cond.notify_all();
  }
}

struct Shared {
  h: H,
  nodes: Vec<Nd>,
  vocab: Vec<Content>,
  clock: AtomicUsize,
}

impl Shared {
  fn tick(&self) -> usize {
    self.clock.fetch_add(1, AO::SeqCst)
  }

  fn make(&self, h: &'static H, c: usize) -> Al {
    match &self.vocab[c] {
      Content::Leaf(k, v) => h.make_leaf_alt(Kind(*k), Val(*v)),
      Content::Branch(a, kids) => h.make_branch_alt(
        Act(*a),
        kids.iter().map(|k| {
          pause();
          self.nodes[*k].clone()
        }),
      ),
    }
  }

  fn read(&self, a: &Al) -> Result<usize, String> {
    let c = match a.content() {
      NodeContent::Leaf(l) => Content::Leaf(l.kind().0, l.value().0),
      NodeContent::Branch(b) => {
        let mut kids = Vec::new();
        for n in b.nodes() {
          kids.push(
            self
              .nodes
              .iter()
              .position(|x| *x == n)
              .ok_or_else(|| "a child that is none of the shared nodes".to_string())?,
          );
        }
        Content::Branch(b.action().0, kids)
      }
    };
    self
      .vocab
      .iter()
      .position(|x| *x == c)
      .ok_or_else(|| format!("an alternative {:?} that nobody made", c))
  }

  fn set(&self, n: &Nd) -> Result<BTreeSet<usize>, String> {
    let mut s = BTreeSet::new();
    for a in n.alts() {
      let c = self.read(&a)?;
      ensure!(s.insert(c), "a node holds {:?} twice", self.vocab[c]);
    }
    Ok(s)
  }

  fn apply(&self, h: &'static H, op: &Op) -> Result<Vec<Timed>, String> {
    let mut ev = Vec::new();
    let changed = |c: WasChanged| c == WasChanged::Changed;
    let mut begin = self.tick();
    match op {
      Op::Add(n, c) => {
        let a = self.make(h, *c);
        ev.push((begin, self.tick(), Event::Made(*c, a.clone())));
        pause();
        begin = self.tick();
        let ch = changed(self.nodes[*n].add_alt(&a));
        ev.push((begin, self.tick(), Event::Added(*n, *c, ch)));
      }
      Op::Make(c) => {
        let a = self.make(h, *c);
        ev.push((begin, self.tick(), Event::Made(*c, a)));
      }
      Op::AddAll(d, s) => {
        let ch = changed(self.nodes[*d].add_all(&self.nodes[*s]));
        ev.push((begin, self.tick(), Event::AddedAll(*d, *s, ch)));
      }
      Op::Read(n) => {
        let s = self.set(&self.nodes[*n])?;
        ev.push((begin, self.tick(), Event::Seen(*n, s)));
      }
      Op::Private(cs) => {
        let node = h.make_node();
        for c in cs {
          let a = self.make(h, *c);
          node.add_alt(&a);
          ev.push((begin, self.tick(), Event::Made(*c, a)));
        }
        ev.push((begin, self.tick(), Event::Fresh(node, cs.iter().copied().collect())));
      }
      Op::MakeNode(c) => {
        let node = match &self.vocab[*c] {
          Content::Leaf(k, v) => h.make_leaf_node(Kind(*k), Val(*v)),
          Content::Branch(a, kids) => h.make_branch_node(Act(*a), kids.iter().map(|k| self.nodes[*k].clone())),
        };
        ev.push((begin, self.tick(), Event::Fresh(node, Some(*c).into_iter().collect())));
      }
      Op::Dot(n) => {
        let text = self.nodes[*n].to_dot();
        ev.push((begin, self.tick(), Event::Shown(*n, text)));
      }
      Op::Compare(a, b) => {
        let (x, y) = (&self.nodes[*a], &self.nodes[*b]);
        ensure!((x == y) == (a == b), "nodes {} and {}: equal is {}", a, b, x == y);
        ensure!(x.handle().is_same(&y.handle()) && x.handle() == *h, "handles of one owner differ");
      }
    }
    Ok(ev)
  }
}

struct Outcome {
  /// events[round]
  events: Vec<Vec<Timed>>,
  /// Contents of the shared nodes after each round (first thread only).
  sets: Vec<Vec<BTreeSet<usize>>>,
}

#[derive(Hash)]
struct Script {
  n_nodes: usize,
  vocab: Vec<Content>,
  /// How many other alternatives and nodes there are before.
  filled: usize,
  /// What is in the nodes before: (node, content).
  initial: Vec<(usize, usize)>,
  /// ops[thread][round]
  ops: Vec<Vec<Vec<Op>>>,
}

impl Script {
  fn show(&self) -> String {
    format!(
      "{} threads, {} shared nodes, contents {:?}, there before {:?} (and {} others), script {:?}",
      self.ops.len(),
      self.n_nodes,
      self.vocab,
      self.initial,
      self.filled,
      self.ops
    )
  }
}

fn script(src: &mut Src, threads: usize, rounds: usize, max_ops: usize) -> Script {
  let n_nodes = src.urange(1, 4);
  // Vocabulary without repetitions.
  let mut vocab: Vec<Content> = Vec::new();
  for _ in 0..src.urange(1, 3 + rounds) {
    let c = if src.flag() {
      Content::Leaf(src.below(3) as u32, src.below(30) as u32)
    } else {
      let len = src.idx(4);
      Content::Branch(src.below(6) as u32, (0..len).map(|_| src.idx(n_nodes)).collect())
    };
    if !vocab.contains(&c) {
      vocab.push(c);
    }
  }
  // Mostly all threads are after the same things at the same time.
  let mut script: Vec<Vec<Vec<Op>>> = vec![Vec::new(); threads];
  let focus = src.chance(3, 4);
  for _ in 0..rounds {
    let (fc, fn_) = (src.idx(vocab.len()), src.idx(n_nodes));
    for s in script.iter_mut() {
      let n_ops = src.urange(1, max_ops);
      let mut ops = Vec::new();
      for _ in 0..n_ops {
        let near = focus && src.chance(3, 4);
        let c = if near { fc } else { src.idx(vocab.len()) };
        let n = if near { fn_ } else { src.idx(n_nodes) };
        ops.push(match src.weighted(&[8, 2, 3, 2, 1, 1, 1, 1]) {
          0 => Op::Add(n, c),
          1 => Op::Make(c),
          2 => {
            let (d, s) = if src.flag() { (n, src.idx(n_nodes)) } else { (src.idx(n_nodes), n) };
            Op::AddAll(d, s)
          }
          3 => Op::Read(n),
          4 => Op::Private((0..src.urange(1, 2)).map(|_| src.idx(vocab.len())).collect()),
          5 => Op::MakeNode(c),
          6 => Op::Dot(n),
          _ => Op::Compare(n, src.idx(n_nodes)),
        });
      }
      s.push(ops);
    }
  }
  let initial = if src.chance(1, 3) {
    (0..src.urange(1, 6)).map(|_| (src.idx(n_nodes), src.idx(vocab.len()))).collect()
  } else {
    vec![]
  };
  let filled = if src.chance(1, 3) {
    (8 << src.below(7)) + 2 - src.idx(8)
  } else {
    0
  };
  Script {
    n_nodes,
    vocab,
    filled,
    initial,
    ops: script,
  }
}

fn run(src: &mut Src, ctx: &mut Ctx, max_rounds: usize) -> Res {
  let threads = src.urange(2, 6);
  let rounds = src.count(1, max_rounds);
  let script = script(src, threads, rounds, 3);
  let delays = src.chance(3, 4);
  let seeds: Vec<u64> = (0..threads).map(|_| src.below(1 << 30)).collect();
  ctx.show(|| script.show());
  execute(&script, How::Free { delays, seeds }, ctx)?;
  ctx.label(match threads {
    2 => "2 threads",
    3..=4 => "3-4 threads",
    _ => "5-6 threads",
  });
  ctx.label_if(delays, "with delays");
  Ok(())
}

/// How the threads run.
enum How {
  Free { delays: bool, seeds: Vec<u64> },
  /// Something each thread runs its job in.
  #[allow(dead_code)]
  In(Runner),
}

fn execute(script: &Script, how: How, ctx: &mut Ctx) -> Res {
  let threads = script.ops.len();
  let rounds = script.ops[0].len();
  let (n_nodes, vocab) = (script.n_nodes, &script.vocab);
  let owner: *mut Owner = Box::into_raw(Box::new(Owner::new()));
  // Freed below unless some thread is stuck in it.
  let owner_ref: &'static Owner = unsafe { &*owner };
  let h = owner_ref.handle();
  let nodes: Vec<Nd> = (0..n_nodes).map(|_| h.make_node()).collect();
  // Handles have to outlive the alternatives made through them.
  let handles: Vec<*mut H> = (0..threads + 1).map(|_| Box::into_raw(Box::new(owner_ref.handle()))).collect();
  let shared = Arc::new(Shared {
    h,
    nodes,
    vocab: vocab.clone(),
    clock: AtomicUsize::new(0),
  });
  for i in 0..script.filled {
    shared.h.make_leaf_alt(Kind(5), Val(1_000 + i as u32));
    shared.h.make_node();
  }
  for (n, c) in &script.initial {
    let a = shared.make(unsafe { &*handles[threads] }, *c);
    shared.nodes[*n].add_alt(&a);
  }
  let gate = Arc::new(Gate {
    n: threads,
    state: Mutex::new((0, 0)),
    cond: Condvar::new(),
    abort: AtomicBool::new(false),
    align: AtomicUsize::new(0),
  });
  let mut jobs: Vec<Box<dyn FnOnce() -> Result<Outcome, String> + Send>> = Vec::new();
  for t in 0..threads {
    let (shared, gate) = (shared.clone(), gate.clone());
    let ops = script.ops[t].clone();
    let (delays, seed, inside) = match &how {
      How::Free { delays, seeds } => (*delays, engine::mix(seeds[t], t as u64) | 1, None),
      How::In(f) => (false, 1, Some(f.clone())),
    };
    let h: &'static H = unsafe { &*handles[t] };
    jobs.push(Box::new(move || {
      let mut out = Outcome {
        events: vec![],
        sets: vec![],
      };
      let body = std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        if let Some(inside) = &inside {
          // One round, without meeting in between.
          let mut r = Ok(Vec::new());
          inside(t, &mut || r = ops[0].iter().map(|op| shared.apply(h, op)).collect::<Result<Vec<_>, _>>());
          out.events.push(r?.into_iter().flatten().collect());
          return Ok(());
        }
        for round in &ops {
          if !gate.wait() {
            break;
          }
          if delays {
            DELAY.with(|d| d.set(engine::mix(seed, out.events.len() as u64) | 1));
          }
          let mut ev = Vec::new();
          for op in round {
            pause();
            ev.extend(shared.apply(h, op)?);
          }
          DELAY.with(|d| d.set(0));
          out.events.push(ev);
          if !gate.wait() {
            break;
          }
          if t == 0 {
            let s: Result<Vec<_>, String> = shared.nodes.iter().map(|n| shared.set(n)).collect();
            out.sets.push(s?);
          }
        }
        Ok(())
      });
      let r = engine::catch_expected(body);
      DELAY.with(|d| d.set(0));
      match r {
        Ok(Ok(())) => Ok(out),
        Ok(Err(m)) => {
          gate.give_up();
          Err(m)
        }
        Err(m) => {
          gate.give_up();
          Err(format!("panic: {}", m))
        }
      }
    }));
  }
  let results = run_deadlock_checked(jobs)?;
  let mut outcomes = Vec::new();
  let mut first: Option<String> = None;
  for (t, r) in results.into_iter().enumerate() {
    match r {
      Ok(Ok(o)) => outcomes.push(o),
      Ok(Err(m)) => {
        // Threads that find the store poisoned are not the cause.
        let m = format!("thread {}: {}", t, m);
        if first.as_ref().map_or(true, |f| f.contains("Poison") && !m.contains("Poison")) {
          first = Some(m);
        }
      }
      Err(_) => first = Some(format!("thread {}: panic", t)),
    }
  }
  let verdict = match first {
    Some(m) => Err(m),
    None => engine::caught_panic("reading", || -> Res {
      if let How::In(_) = &how {
        let s: Result<Vec<_>, String> = shared.nodes.iter().map(|n| shared.set(n)).collect();
        outcomes[0].sets.push(s?);
      }
      judge(&shared, &outcomes, rounds, &script.initial, ctx)
    })
    .and_then(|r| r),
  };
  drop(outcomes);
  drop(shared);
  unsafe {
    for h in handles {
      drop(Box::from_raw(h));
    }
    drop(Box::from_raw(owner));
  }
  verdict
}

/// A rendering shows at least what was there before and at most what is there
/// afterwards.
fn rendered(sh: &Shared, root: usize, text: &str, before: &[BTreeSet<usize>], after: &[BTreeSet<usize>]) -> Res {
  let labels = |sets: &[BTreeSet<usize>]| {
    let mut seen_nodes = BTreeSet::from([root]);
    let mut seen = BTreeSet::new();
    let mut todo = vec![root];
    while let Some(n) = todo.pop() {
      for c in &sets[n] {
        if seen.insert(*c) {
          if let Content::Branch(_, kids) = &sh.vocab[*c] {
            for k in kids {
              if seen_nodes.insert(*k) {
                todo.push(*k);
              }
            }
          }
        }
      }
    }
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    for c in seen {
      let l = match &sh.vocab[c] {
        Content::Leaf(k, v) => format!("Kind{}(Val{})", k, v),
        Content::Branch(a, _) => format!("Act{}", a),
      };
      *count.entry(l).or_insert(0) += 1;
    }
    count
  };
  let d = checks::dot::parse(text).map_err(|m| format!("{}: {}", m, text))?;
  let mut shown: BTreeMap<String, usize> = BTreeMap::new();
  for (v, l) in &d.vertices {
    if d.shapes.get(v).map_or(false, |s| s == "box") {
      *shown.entry(l.clone()).or_insert(0) += 1;
    }
  }
  for (l, k) in labels(before) {
    let s = shown.get(&l).copied().unwrap_or(0);
    ensure!(s >= k, "{} alternatives {} could be reached before, {} are shown", k, l, s);
  }
  let most = labels(after);
  for (l, s) in &shown {
    let k = most.get(l).copied().unwrap_or(0);
    ensure!(*s <= k, "{} alternatives {} are shown, {} can be reached afterwards", s, l, k);
  }
  Ok(())
}

/// What the nodes held at some time, at least and at most.
struct Bounds<'a> {
  before: &'a [BTreeSet<usize>],
  events: &'a [(usize, &'a Timed)],
}

impl Bounds<'_> {
  /// What was certainly there at a time: whose addition had ended.
  fn least(&self, node: usize, at: usize) -> BTreeSet<usize> {
    let mut set = self.before[node].clone();
    for (_, (begin, end, e)) in self.events {
      match e {
        Event::Added(n, c, _) if *n == node && *end <= at => {
          set.insert(*c);
        }
        Event::AddedAll(d, s, _) if *d == node && *end <= at && s != d => set.extend(self.least(*s, *begin)),
        _ => {}
      }
    }
    set
  }

  /// What may have been there at a time, whose addition had begun, leaving one
  /// event out of account.
  fn most(&self, at: usize, without: Option<usize>) -> Vec<BTreeSet<usize>> {
    let mut sets = self.before.to_vec();
    loop {
      let mut grew = false;
      for (i, (_, (begin, end, e))) in self.events.iter().enumerate() {
        if *begin >= at || Some(i) == without {
          continue;
        }
        let (d, more) = match e {
          Event::Added(n, c, _) => (*n, BTreeSet::from([*c])),
          Event::AddedAll(d, s, _) if *end < at => (*d, self.most(*end, without)[*s].clone()),
          Event::AddedAll(d, s, _) => (*d, sets[*s].clone()),
          _ => continue,
        };
        let len = sets[d].len();
        sets[d].extend(more);
        grew |= sets[d].len() > len;
      }
      if !grew {
        return sets;
      }
    }
  }
}

/// Each event against what came before and after it in time.
fn in_time(sh: &Shared, round: usize, before: &[BTreeSet<usize>], after: &[BTreeSet<usize>], events: &[(usize, &Timed)]) -> Res {
  let b = Bounds { before, events };
  let names = |s: &BTreeSet<usize>| s.iter().map(|c| sh.vocab[*c].clone()).collect::<Vec<_>>();
  for (i, a) in after.iter().enumerate() {
    let (least, most) = (b.least(i, usize::MAX), &b.most(usize::MAX, None)[i]);
    ensure!(
      least.is_subset(a) && a.is_subset(most),
      "round {}: shared node {} holds {:?} in the end, at least {:?} and at most {:?} were added",
      round,
      i,
      names(a),
      names(&least),
      names(most)
    );
  }
  for (k, (t, (begin, end, e))) in events.iter().enumerate() {
    let who = || format!("round {}: thread {}", round, t);
    match e {
      Event::Seen(i, s) => {
        let (least, most) = (b.least(*i, *begin), &b.most(*end, None)[*i]);
        ensure!(
          least.is_subset(s) && s.is_subset(most),
          "{} reads {:?} from shared node {}, which held {:?} when it began and {:?} when it ended",
          who(),
          names(s),
          i,
          names(&least),
          names(most)
        );
      }
      Event::Shown(i, text) => {
        let least: Vec<_> = (0..before.len()).map(|n| b.least(n, *begin)).collect();
        rendered(sh, *i, text, &least, &b.most(*end, None)).map_err(|m| format!("{} renders shared node {}: {}", who(), i, m))?;
      }
      Event::Added(i, c, true) => ensure!(
        !b.least(*i, *begin).contains(c),
        "{} adds {:?} to shared node {}, where it is already, and a change is reported",
        who(),
        sh.vocab[*c],
        i
      ),
      Event::Added(i, c, false) => ensure!(
        b.most(*end, Some(k))[*i].contains(c),
        "{} adds {:?} to shared node {}, where nobody else has put it, and no change is reported",
        who(),
        sh.vocab[*c],
        i
      ),
      Event::AddedAll(d, s, true) => ensure!(
        d != s && !b.most(*end, None)[*s].is_subset(&b.least(*d, *begin)),
        "{} copies shared node {} to {}, which has all that, and a change is reported",
        who(),
        s,
        d
      ),
      Event::AddedAll(d, s, false) => ensure!(
        b.least(*s, *begin).is_subset(&b.most(*end, Some(k))[*d]),
        "{} copies shared node {} to {}, which lacks some of it, and no change is reported",
        who(),
        s,
        d
      ),
      _ => {}
    }
  }
  Ok(())
}

fn judge(sh: &Shared, outcomes: &[Outcome], rounds: usize, initial: &[(usize, usize)], ctx: &mut Ctx) -> Res {
  let n = sh.nodes.len();
  let mut before: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
  for (n, c) in initial {
    before[*n].insert(*c);
  }
  let mut contended = 0u64;
  let names = |s: &BTreeSet<usize>| s.iter().map(|c| sh.vocab[*c].clone()).collect::<Vec<_>>();
  for r in 0..rounds {
    let after = &outcomes[0].sets[r];
    let timed: Vec<(usize, &Timed)> = outcomes
      .iter()
      .enumerate()
      .flat_map(|(t, o)| o.events[r].iter().map(move |e| (t, e)))
      .collect();
    in_time(sh, r, &before, after, &timed)?;
    let events: Vec<(usize, &Event)> = timed.iter().map(|(t, e)| (*t, &e.2)).collect();
    // What may have come in, directly or through copying.
    let mut direct = vec![BTreeSet::new(); n];
    let mut copies: BTreeSet<(usize, usize)> = BTreeSet::new();
    for (_, e) in &events {
      match e {
        Event::Added(i, c, _) => {
          direct[*i].insert(*c);
        }
        Event::AddedAll(d, s, _) => {
          copies.insert((*d, *s));
        }
        _ => {}
      }
    }
    let mut most: Vec<BTreeSet<usize>> = (0..n).map(|i| &before[i] | &direct[i]).collect();
    let mut least = most.clone();
    for (d, s) in &copies {
      let x = before[*s].clone();
      least[*d].extend(x);
    }
    loop {
      let mut grew = false;
      for (d, s) in &copies {
        let x = most[*s].clone();
        let len = most[*d].len();
        most[*d].extend(x);
        grew |= most[*d].len() > len;
      }
      if !grew {
        break;
      }
    }
    for i in 0..n {
      ensure!(
        least[i].is_subset(&after[i]) && after[i].is_subset(&most[i]),
        "round {}: shared node {} held {:?}, afterwards it holds {:?}, although {:?} were added and {:?} copied",
        r,
        i,
        names(&before[i]),
        names(&after[i]),
        names(&direct[i]),
        copies
      );
      // A copy of something that nobody touches is exact.
      if copies.iter().all(|(d, s)| *d != i || (direct[*s].is_empty() && copies.iter().all(|(e, _)| e != s)) || *s == i) {
        ensure!(
          after[i] == least[i],
          "round {}: shared node {} holds {:?} instead of {:?}",
          r,
          i,
          names(&after[i]),
          names(&least[i])
        );
      }
      let fresh: BTreeSet<usize> = &after[i] - &before[i];
      // Change reports.
      let mut yes: BTreeMap<usize, usize> = BTreeMap::new();
      let mut asked: BTreeMap<usize, usize> = BTreeMap::new();
      let mut all_yes = 0;
      for (_, e) in &events {
        match e {
          Event::Added(j, c, ch) if *j == i => {
            *asked.entry(*c).or_insert(0) += 1;
            if *ch {
              *yes.entry(*c).or_insert(0) += 1;
            }
          }
          Event::AddedAll(j, s, true) if *j == i => {
            all_yes += 1;
            ensure!(
              !(&most[*s] & &fresh).is_empty(),
              "round {}: copying node {} to node {} reports a change, but nothing of it is new",
              r,
              s,
              i
            );
          }
          _ => {}
        }
      }
      for (c, k) in &asked {
        if *k > 1 && fresh.contains(c) {
          contended += 1;
        }
        let y = yes.get(c).copied().unwrap_or(0);
        let by_copy = copies.iter().any(|(d, s)| *d == i && most[*s].contains(c) && *s != i);
        let fits = match (fresh.contains(c), by_copy) {
          (false, _) => y == 0,
          (true, false) => y == 1,
          (true, true) => y <= 1,
        };
        ensure!(
          fits,
          "round {}: {} threads add {:?} to shared node {} ({}), {} of them report a change",
          r,
          k,
          sh.vocab[*c],
          i,
          if fresh.contains(c) { "new there" } else { "there before" },
          y
        );
      }
      let total: usize = yes.values().sum::<usize>() + all_yes;
      ensure!(
        total <= fresh.len() && (total > 0 || fresh.is_empty()),
        "round {}: {} alternatives are new in shared node {}, {} changes reported",
        r,
        fresh.len(),
        i,
        total
      );
    }
    ctx.label_if(
      before != *after && events.iter().any(|(_, e)| matches!(e, Event::Shown(..))),
      "rendered while the forest changes",
    );
    before = after.clone();
  }
  // Interning.
  let mut made: BTreeMap<usize, Al> = BTreeMap::new();
  let mut fresh: Vec<(&Nd, &BTreeSet<usize>)> = Vec::new();
  for o in outcomes {
    for (_, _, e) in o.events.iter().flatten() {
      match e {
        Event::Made(c, a) => {
          ensure!(sh.read(a)? == *c, "an alternative made as {:?} has become {:?}", sh.vocab[*c], sh.vocab[sh.read(a)?]);
          let first = made.entry(*c).or_insert_with(|| a.clone());
          ensure!(first == a, "{:?} made by two threads gives two alternatives", sh.vocab[*c]);
        }
        Event::Fresh(n, s) => fresh.push((n, s)),
        _ => {}
      }
    }
  }
  for (a, x) in &made {
    for (b, y) in &made {
      ensure!(a == b || x != y, "{:?} and {:?} are one alternative", sh.vocab[*a], sh.vocab[*b]);
    }
  }
  for n in sh.nodes.iter().chain(fresh.iter().map(|x| x.0)) {
    for a in n.alts() {
      let c = sh.read(&a)?;
      if let Some(x) = made.get(&c) {
        ensure!(*x == a, "a node holds another alternative {:?} than the one made", sh.vocab[c]);
      }
    }
  }
  let mut all: Vec<&Nd> = sh.nodes.iter().collect();
  for (n, s) in &fresh {
    let got = sh.set(n)?;
    ensure!(got == **s, "a thread's own node holds {:?} instead of {:?}", names(&got), names(s));
    all.push(n);
  }
  let count = all.len();
  all.sort();
  all.dedup();
  ensure!(all.len() == count, "two nodes made are the same node");
  ensure!(sh.nodes.iter().all(|x| x.handle() == sh.h), "a node has another handle");
  ctx.label_if(contended > 0, "the same new alternative is added by several threads");
  ctx.label_n("contended first additions", contended);
  if contended > 0 {
    ctx.nontrivial(&(sh.vocab.clone(), rounds, contended, fresh.len()));
  }
  Ok(())
}

/// Hands something to another thread, to be freed there.
struct Moved<P>(*mut P);
unsafe impl<P> Send for Moved<P> {}

type Nd2 = FNode<'static>;

/// Threads parse with grammars of their own into one store.
fn parses(src: &mut Src, ctx: &mut Ctx) -> Res {
  let threads = src.urange(2, 5);
  parses_in(src, ctx, threads, None)
}

type Runner = Arc<dyn Fn(usize, &mut dyn FnMut()) + Send + Sync>;

fn parses_in(src: &mut Src, ctx: &mut Ctx, threads: usize, runner: Option<Runner>) -> Res {
  let mut grams: Vec<(Gram, Vec<Vec<u16>>)> = Vec::new();
  let kinds = src.urange(1, 2);
  for _ in 0..kinds {
    let (g, _) = gen::grammar(src, Names::Distinct);
    let mut words: Vec<Vec<u16>> = Vec::new();
    for _ in 0..src.urange(1, 4) {
      if let Some(w) = gen::derived_word(src, &g, 6) {
        if w.len() <= 8 {
          words.push(if src.chance(1, 6) { gen::mutate(src, &w, g.terms) } else { w });
        }
      }
    }
    grams.push((g, words));
  }
  let which: Vec<usize> = (0..threads).map(|_| src.idx(kinds)).collect();
  let refs: Vec<Vec<Option<Option<RefForest>>>> = grams
    .iter()
    .map(|(g, ws)| ws.iter().map(|w| reference(g, w, 400)).collect())
    .collect();
  if refs.iter().flatten().any(|r| r.is_none()) {
    ctx.label("skipped: too many alternatives");
    return Ok(());
  }
  ctx.show(|| format!("{} threads with grammars {:?} parse {:?}", threads, which, grams));
  let sgs: Vec<*mut SG> = which
    .iter()
    .map(|k| wrapped(&grams[*k].0).map(|g| Box::into_raw(Box::new(g))))
    .collect::<Result<_, _>>()?;
  let owner: *mut ParseOwner = Box::into_raw(Box::new(ParseOwner::new()));
  let owner_ref: &'static ParseOwner = unsafe { &*owner };
  let gate = Arc::new(Gate {
    n: threads,
    state: Mutex::new((0, 0)),
    cond: Condvar::new(),
    abort: AtomicBool::new(false),
    align: AtomicUsize::new(0),
  });
  let mut jobs: Vec<Box<dyn FnOnce() -> Result<Vec<Option<(Forest, Nd2)>>, String> + Send>> = Vec::new();
  for t in 0..threads {
    let gate = gate.clone();
    let words = grams[which[t]].1.clone();
    // Each thread is the only one to use its grammar until it has finished.
    let sg = Moved(sgs[t]);
    let runner = runner.clone();
    jobs.push(Box::new(move || {
      let sg = &sg;
      let sg: &'static SG = unsafe { &*sg.0 };
      let h = owner_ref.handle();
      let mut out = Vec::new();
      let mut all = |gate: Option<&Gate>| -> Result<(), String> {
        for w in &words {
          if let Some(g) = gate {
            g.wait();
          }
          let root = parse(sg, &h, w, |i| i as u32).map_err(|m| format!("input {}: {}", word_str(w), m))?;
          out.push(root.map(|n| (extract(&n).0, n)));
        }
        Ok(())
      };
      match runner {
        None => {
          let r = all(Some(&gate));
          gate.give_up();
          r?;
        }
        Some(run) => {
          let mut r = Ok(());
          run(t, &mut || r = all(None));
          r?;
        }
      }
      Ok(out)
    }));
  }
  let results = run_deadlock_checked(jobs)?;
  let verdict = (|| -> Res {
    let mut roots = Vec::new();
    let mut accepted = 0;
    for (t, r) in results.into_iter().enumerate() {
      let (g, words) = &grams[which[t]];
      let got = match r {
        Ok(Ok(x)) => x,
        Ok(Err(m)) => return Err(format!("thread {} with {:?}: {}", t, g, m)),
        Err(_) => return Err(format!("thread {} with {:?}: panic", t, g)),
      };
      for ((w, x), r) in words.iter().zip(got).zip(&refs[which[t]]) {
        let fail = |m: String| format!("thread {} of {}: {:?}, input {}: {}", t, threads, g, word_str(w), m);
        match (x, r) {
          (None, Some(None)) => {}
          (Some((f, n)), Some(Some(r))) => {
            check_exact(g, w, r, &f).map_err(&fail)?;
            let again = caught_panic("reading", || extract(&n).0).map_err(&fail)?;
            ensure!(again == f, "{}", fail("the forest has changed since".to_string()));
            accepted += 1;
            roots.push(n);
          }
          (None, _) => return Err(fail("rejected, although it can be derived".to_string())),
          (Some(_), _) => return Err(fail("accepted, although it cannot be derived".to_string())),
        }
      }
    }
    let n = roots.len();
    roots.sort();
    roots.dedup();
    ensure!(roots.len() == n, "two parses have one root");
    ctx.label(if threads == 2 { "2 threads" } else { "3-5 threads" });
    if accepted > 1 {
      ctx.nontrivial(&(grams, which));
    }
    Ok(())
  })();
  unsafe {
    for g in sgs {
      drop(Box::from_raw(g));
    }
    drop(Box::from_raw(owner));
  }
  verdict
}

/// All threads make the same many things one after the other and add them to
/// one node. Whoever is behind finds everything there and catches up, so they
/// meet at the new ones.
fn lockstep(src: &mut Src, ctx: &mut Ctx) -> Res {
  let threads = src.urange(2, 8);
  let n = gen::sized(src, 600);
  let (kinds, leaves) = (src.urange(1, 4), src.urange(0, 4));
  let add = src.flag();
  let delays = src.chance(1, 2);
  // Each thread swaps neighbours now and then.
  let swaps: Vec<u64> = (0..threads).map(|_| *src.pick(&[0, 0, 16, 2])).collect();
  let seed = src.below(1 << 30);
  ctx.show(|| format!("{} threads make {} contents, swapping {:?}, adding: {}", threads, n, swaps, add));
  let owner: *mut Owner = Box::into_raw(Box::new(Owner::new()));
  let owner_ref: &'static Owner = unsafe { &*owner };
  let handles: Vec<*mut H> = (0..threads + 1).map(|_| Box::into_raw(Box::new(owner_ref.handle()))).collect();
  let h: &'static H = unsafe { &*handles[threads] };
  let target = Arc::new(h.make_node());
  let make = move |h: &'static H, i: usize, target: &Nd| -> Al {
    let (k, v) = ((i % kinds) as u32, (i / kinds) as u32);
    if i % 4 < leaves {
      h.make_leaf_alt(Kind(k), Val(v))
    } else {
      h.make_branch_alt(Act(i as u32), (0..k).map(|_| target.clone()))
    }
  };
  let gate = Arc::new(Gate {
    n: threads,
    state: Mutex::new((0, 0)),
    cond: Condvar::new(),
    abort: AtomicBool::new(false),
    align: AtomicUsize::new(0),
  });
  let mut jobs: Vec<Box<dyn FnOnce() -> (Vec<(usize, Al)>, usize) + Send>> = Vec::new();
  for t in 0..threads {
    let (gate, target) = (gate.clone(), target.clone());
    let h: &'static H = unsafe { &*handles[t] };
    let seed = engine::mix(seed, t as u64) | 1;
    let mut order: Vec<usize> = (0..n).collect();
    for i in 1..n {
      if swaps[t] > 0 && engine::mix(seed, i as u64) % swaps[t] == 0 {
        order.swap(i - 1, i);
      }
    }
    jobs.push(Box::new(move || {
      gate.wait();
      if delays {
        DELAY.with(|d| d.set(seed));
      }
      let mut made = Vec::new();
      let mut changes = 0;
      for i in order {
        let a = make(h, i, &target);
        if add {
          changes += (target.add_alt(&a) == WasChanged::Changed) as usize;
        }
        made.push((i, a));
      }
      DELAY.with(|d| d.set(0));
      (made, changes)
    }));
  }
  let results = run_deadlock_checked(jobs)?;
  let verdict = (|| -> Res {
    let mut first: Vec<Option<Al>> = vec![None; n];
    let mut changes = 0;
    for (t, r) in results.into_iter().enumerate() {
      let (made, c) = r.map_err(|_| format!("thread {} of {} panics", t, threads))?;
      changes += c;
      for (i, a) in made {
        match &first[i] {
          None => first[i] = Some(a),
          Some(f) => ensure!(*f == a, "content {} of {}: thread {} of {} got an alternative of its own", i, n, t, threads),
        }
      }
    }
    let first: Vec<Al> = first.into_iter().map(|a| a.expect("made by all")).collect();
    for (i, a) in first.iter().enumerate() {
      let (kind, value, act, kids) = match a.content() {
        NodeContent::Leaf(l) => (Some(l.kind().0), l.value().0, 0, 0),
        NodeContent::Branch(b) => {
          ensure!(b.nodes().all(|x| x == *target), "content {} of {} has another child", i, n);
          (None, 0, b.action().0, b.nodes().count() as u32)
        }
      };
      let k = (i % kinds) as u32;
      let want = if i % 4 < leaves { (Some(k), (i / kinds) as u32, 0, 0) } else { (None, 0, i as u32, k) };
      ensure!(
        (kind, value, act, kids) == want,
        "content {} of {} is {:?} instead of {:?}",
        i,
        n,
        (kind, value, act, kids),
        want
      );
    }
    let mut sorted: Vec<&Al> = first.iter().collect();
    sorted.sort();
    sorted.dedup();
    ensure!(sorted.len() == n, "{} contents give {} alternatives", n, sorted.len());
    let there: Vec<Al> = target.alts().collect();
    let want = if add { n } else { 0 };
    ensure!(there.len() == want, "{} contents were added, the node holds {}", want, there.len());
    for a in &there {
      ensure!(sorted.binary_search(&a).is_ok(), "the node holds an alternative nobody made");
    }
    ensure!(changes == want, "{} contents were added, {} changes reported", want, changes);
    // Made again, they are the same.
    for (i, a) in first.iter().enumerate() {
      ensure!(make(h, i, &target) == *a, "content {} of {}, made again afterwards, is another alternative", i, n);
    }
    Ok(())
  })();
  ctx.label_if(n >= 100, "100 contents or more");
  if n > 1 {
    ctx.nontrivial(&(threads, n, seed));
  }
  drop(target);
  unsafe {
    for h in handles {
      drop(Box::from_raw(h));
    }
    drop(Box::from_raw(owner));
  }
  verdict
}

#[cfg(any(bongo_verif, bongo_verif_sync))]
mod scheduled {
  use super::*;
  use checks::sched::{useless, Decide, Exhaust, Sched, Walk};

  /// One run of a script; the scheduler's decisions are handed back.
  fn one<D: Decide + 'static>(script: &Script, inner: bool, decide: D, ctx: &mut Ctx) -> Result<checks::sched::Summary<D>, String> {
    let sched = Sched::new(script.ops.len(), inner, decide);
    let s = sched.clone();
    let how = How::In(Arc::new(move |t, job: &mut dyn FnMut()| s.run(t, job)));
    execute(script, how, ctx)?;
    finish(sched)
  }

  fn finish<D: Decide + 'static>(mut sched: Arc<Sched<D>>) -> Result<checks::sched::Summary<D>, String> {
    // The threads let go of it as they end.
    for _ in 0..1_000_000 {
      match sched.summary() {
        Ok(s) => return Ok(s),
        Err(s) => sched = s,
      }
      std::thread::yield_now();
    }
    Err("harness: a thread holds the scheduler".to_string())
  }

  /// All schedules of a small script with at most two preemptions.
  pub fn all(src: &mut Src, ctx: &mut Ctx) -> Res {
    let threads = if src.chance(1, 5) { 3 } else { 2 };
    let script = script(src, threads, 1, 3);
    ctx.show(|| script.show());
    if useless() {
      ctx.label("skipped: the threads wait for something the scheduler does not know");
      return Ok(());
    }
    let mut decide = Exhaust::new(2);
    let (mut runs, mut switched) = (0, 0);
    loop {
      let path = format!("{:?}", decide.path());
      let done = one(&script, false, decide, ctx).map_err(|m| format!("schedule {}: {}", path, m))?;
      runs += 1;
      switched += (done.switches > 0) as u64;
      ctx.label_if(done.free, "a schedule out of control");
      match done.decide.next() {
        Some(d) if runs < 400 && !useless() => decide = d,
        Some(_) => {
          ctx.label("only the first 400 schedules");
          break;
        }
        None => {
          ctx.label("all schedules with at most two preemptions");
          break;
        }
      }
    }
    ctx.label_n("schedules", runs);
    if switched > 0 {
      ctx.nontrivial(&script);
    }
    Ok(())
  }

  /// Parsing into one store.
  pub fn parses(src: &mut Src, ctx: &mut Ctx) -> Res {
    let threads = src.urange(2, 4);
    let walk = Walk {
      state: src.below(1 << 30),
      every: *src.pick(&[1, 2, 3, 5, 10, 20]),
    };
    if useless() {
      ctx.label("skipped: the threads wait for something the scheduler does not know");
      return Ok(());
    }
    let sched = Sched::new(threads, false, walk);
    let s = sched.clone();
    let runner: Runner = Arc::new(move |t, job: &mut dyn FnMut()| s.run(t, job));
    // Some cases are dropped before anything runs.
    parses_in(src, ctx, threads, Some(runner))?;
    let done = finish(sched)?;
    ctx.label_if(done.free, "a schedule out of control");
    ctx.label_n("switches while parsing", done.switches);
    Ok(())
  }

  /// Larger scripts, switching at random, also within what is locked.
  pub fn walk(src: &mut Src, ctx: &mut Ctx) -> Res {
    let threads = src.urange(2, 5);
    let script = script(src, threads, 1, 6);
    let inner = src.flag();
    let walk = Walk {
      state: src.below(1 << 30),
      every: *src.pick(&[2, 3, 5, 10, 20]),
    };
    ctx.show(|| script.show());
    if useless() {
      ctx.label("skipped: the threads wait for something the scheduler does not know");
      return Ok(());
    }
    let done = one(&script, inner, walk, ctx)?;
    ctx.label_if(done.free, "a schedule out of control");
    ctx.label_n("switches", done.switches);
    if done.switches > 2 {
      ctx.nontrivial(&script);
    }
    Ok(())
  }
}

fn main() {
  let mut suites = Vec::new();
  #[cfg(any(bongo_verif, bongo_verif_sync))]
  suites.extend(vec![
    Suite::random("schedules", 2_000, 100_000, scheduled::all).unguided(),
    Suite::random("walks", 30_000, 1_500_000, scheduled::walk),
    Suite::random("parse-walks", 4_000, 200_000, scheduled::parses),
  ]);
  suites.extend(vec![
    Suite::random("rounds", 4_000, 200_000, |src: &mut Src, ctx: &mut Ctx| run(src, ctx, 40))
      .threads(4)
      .retries(30)
      .unguided(),
    Suite::random("short", 6_000, 300_000, |src: &mut Src, ctx: &mut Ctx| run(src, ctx, 4))
      .threads(8)
      .retries(100)
      .unguided(),
    Suite::random("parses", 4_000, 200_000, parses).threads(4).retries(30).unguided(),
    Suite::random("lockstep", 4_000, 200_000, lockstep).threads(2).retries(30).unguided(),
  ]);
  main_with(
    "C15",
    "A case is a script for 2 to 6 threads that add, copy, make, read and render what they share. Under a scheduler that lets one thread run at a time and decides who goes on at each attempt to take the store's lock, it is run with all schedules of at most two preemptions (the first 400 of them), or with a random one, whose switches may also lie in the comparisons and clones of stored values. Without the scheduler it is run in rounds that start together, with delays in those comparisons and clones. The contents of all nodes, the change reports, what readers and renderings saw and the identities of nodes and alternatives are judged. Or threads parse with grammars of their own into one store, with random schedules or without, and each forest is compared with its reference. Non-trivial: a schedule switches threads, several threads add the same new alternative to the same node in one round, or several inputs are accepted.",
    &[
      "scheduled threads switch where they take the store's lock and in the comparisons and clones of stored values; without the scheduler (and where the hook is missing) schedules are those the machine produces, and a case is repeated when it is replayed",
      "a copy from a node that is changing at the same time is judged by bounds",
      "a deadlock is reported when all unfinished threads have been blocked for 12 s without using CPU time",
    ],
    suites,
  )
}
