//! C10: analyses are computed once per context and shared.

use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::follows::Follows;
use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::{Pass, PassContext};
use checks::{built, A, G, K, N, T};
use engine::{catch_expected, caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::gen::{self, Names};
use model::{analyse, Gram};
use std::cell::RefCell;
use std::rc::Rc;

const P: usize = 8;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Step {
  /// Request another generated analysis; give up when it fails, or carry on.
  Need(usize, bool),
  /// Request bongo's nullability analysis; give up when it fails.
  Nullability,
  /// Request a (dependency-free) analysis in a context made on the spot.
  OtherContext(usize),
  Fail,
}

#[derive(Clone, Debug, Default)]
struct Plan {
  steps: Vec<Vec<Step>>,
}

#[derive(Default)]
struct World {
  plan: Plan,
  /// Which context is being asked; nested ones are counted from 1000.
  current: usize,
  nested: usize,
  next_serial: u64,
  /// (context, analysis) of each run.
  runs: Vec<(usize, usize)>,
  /// Results handed out inside runs: (context, analysis, serial).
  seen: Vec<(usize, usize, u64)>,
  /// Things that went wrong inside runs.
  wrong: Vec<String>,
}

thread_local! {
  static WORLD: RefCell<World> = RefCell::new(World::default());
}

fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
  WORLD.with(|w| f(&mut w.borrow_mut()))
}

struct An<const I: usize> {
  context: usize,
  grammar: *const G,
  serial: u64,
}

#[derive(Debug, PartialEq, Eq, Clone)]
struct Failed {
  analysis: usize,
  /// The step that failed.
  step: usize,
}

impl std::fmt::Display for Failed {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "{:?}", self)
  }
}
impl std::error::Error for Failed {}

#[derive(Debug)]
struct FailedAn<const I: usize>(Failed);
impl<const I: usize> std::fmt::Display for FailedAn<I> {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "{:?}", self.0)
  }
}
impl<const I: usize> std::error::Error for FailedAn<I> {}

type Pc<'a> = PassContext<'a, T, N, K, A>;

impl<const I: usize> Pass<T, N, K, A> for An<I> {
  type Error = FailedAn<I>;
  fn run_pass(pc: &Pc) -> Result<Self, FailedAn<I>> {
    engine::tick();
    let (context, steps) = world(|w| {
      w.runs.push((w.current, I));
      (w.current, w.plan.steps[I].clone())
    });
    for (step, s) in steps.iter().enumerate() {
      let failed = FailedAn(Failed { analysis: I, step });
      match s {
        Step::Fail => return Err(failed),
        Step::Nullability => {
          if pc.get_pass::<Nullable<N, K>>().is_err() {
            return Err(failed);
          }
        }
        Step::OtherContext(j) => {
          let inner = world(|w| {
            w.nested += 1;
            w.current = 1000 + w.nested;
            w.current
          });
          let other = PassContext::new(pc.grammar());
          let r = request(&other, *j);
          world(|w| {
            w.current = context;
            if let Ok(x) = &r {
              if x.context != inner {
                w.wrong.push(format!(
                  "a fresh context returns a result of analysis {} from another context",
                  j
                ));
              }
            }
          });
        }
        Step::Need(j, give_up) => match request(pc, *j) {
          Ok(r) => world(|w| w.seen.push((context, *j, r.serial))),
          Err(e) => {
            if e.analysis != *j {
              world(|w| w.wrong.push(format!("analysis {} reports the error {:?}", j, e)));
            }
            if *give_up {
              return Err(failed);
            }
          }
        },
      }
    }
    let serial = world(|w| {
      w.next_serial += 1;
      w.next_serial
    });
    Ok(An {
      context,
      grammar: pc.grammar(),
      serial,
    })
  }
}

struct Got {
  context: usize,
  grammar: *const G,
  serial: u64,
  rc: Rc<dyn std::any::Any>,
}

fn request_as<const I: usize>(pc: &Pc) -> Result<Got, Failed> {
  match pc.get_pass::<An<I>>() {
    Ok(r) => Ok(Got {
      context: r.context,
      grammar: r.grammar,
      serial: r.serial,
      rc: r,
    }),
    Err(e) => Err(e.0),
  }
}

fn request(pc: &Pc, i: usize) -> Result<Got, Failed> {
  match i {
    0 => request_as::<0>(pc),
    1 => request_as::<1>(pc),
    2 => request_as::<2>(pc),
    3 => request_as::<3>(pc),
    4 => request_as::<4>(pc),
    5 => request_as::<5>(pc),
    6 => request_as::<6>(pc),
    _ => request_as::<7>(pc),
  }
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Outcome {
  Good,
  Fails(usize),
  Cycle,
}

fn outcome(plan: &Plan, ambiguous: bool, i: usize, running: &mut Vec<usize>) -> Outcome {
  if running.contains(&i) {
    return Outcome::Cycle;
  }
  running.push(i);
  let mut r = Outcome::Good;
  for (k, s) in plan.steps[i].iter().enumerate() {
    match s {
      Step::Fail => r = Outcome::Fails(k),
      Step::Nullability if ambiguous => r = Outcome::Fails(k),
      Step::Nullability | Step::OtherContext(_) => {}
      Step::Need(j, give_up) => match outcome(plan, ambiguous, *j, running) {
        Outcome::Good => {}
        Outcome::Fails(_) if *give_up => r = Outcome::Fails(k),
        Outcome::Fails(_) => {}
        Outcome::Cycle => r = Outcome::Cycle,
      },
    }
    if r != Outcome::Good {
      break;
    }
  }
  running.pop();
  r
}

fn generated(src: &mut Src, ctx: &mut Ctx) -> Res {
  let n = src.urange(1, P);
  // Cycles are possible unless requests go to higher numbers only.
  let acyclic = src.chance(2, 3);
  let perm = src.permutation(n);
  let p_fail = *src.pick(&[0u64, 5, 20]);
  let leaf = n - 1;
  let mut steps: Vec<Vec<Step>> = vec![Vec::new(); P];
  for i in 0..n {
    let k = src.urange(0, 3);
    for _ in 0..k {
      let targets: Vec<usize> = if acyclic { (i + 1..n).collect() } else { (0..n).collect() };
      let s = match src.weighted(&[6, 1, 1]) {
        0 if !targets.is_empty() => Step::Need(perm[*src.pick(&targets)], src.chance(3, 4)),
        1 => Step::Nullability,
        2 if i != leaf => Step::OtherContext(perm[leaf]),
        _ => continue,
      };
      if i == leaf && acyclic {
        continue;
      }
      if i == leaf && !acyclic && matches!(s, Step::Need(..)) {
        // the dependency-free one
        continue;
      }
      steps[perm[i]].push(s);
    }
    if src.chance(p_fail, 100) {
      let at = src.idx(steps[perm[i]].len() + 1);
      steps[perm[i]].insert(at, Step::Fail);
    }
  }
  let plan = Plan { steps };
  let ga = Gram::parse('A', if src.chance(1, 4) { &["AA|a|"] } else { &["aA|"] });
  let gb = Gram::parse('A', &["Ba", "b|"]);
  let (ba, bb) = (built(&ga)?, built(&gb)?);
  let ambiguous = [analyse::empty_derivations(&ga).iter().any(|c| *c > 1), false];
  // Two contexts of one grammar, one of another.
  let contexts = [PassContext::new(&ba), PassContext::new(&ba), PassContext::new(&bb)];
  let which = [0usize, 0, 1];
  let grams: [*const G; 2] = [&ba, &bb];
  world(|w| {
    *w = World::default();
    w.plan = plan.clone();
  });
  let expected: Vec<Vec<Outcome>> = (0..2)
    .map(|g| (0..P).map(|i| outcome(&plan, ambiguous[g], i, &mut Vec::new())).collect())
    .collect();
  let len = src.urange(1, 16);
  let reqs: Vec<(usize, usize)> = (0..len).map(|_| (src.idx(3), src.idx(n))).collect();
  ctx.show(|| {
    format!(
      "{:?} (first grammar {}); requests (context, analysis) {:?}; outcomes {:?}",
      plan.steps[..n].to_vec(),
      if ambiguous[0] { "ambiguous" } else { "not ambiguous" },
      reqs,
      &expected[0][..n]
    )
  });
  let mut got: Vec<Vec<Option<Got>>> = (0..3).map(|_| (0..P).map(|_| None).collect()).collect();
  for (step, (c, i)) in reqs.iter().enumerate() {
    let what = || format!("request {} (context {}, analysis {})", step, c, i);
    world(|w| w.current = *c);
    let pc = &contexts[*c];
    ensure!(std::ptr::eq(pc.grammar(), grams[which[*c]]), "{}: grammar() is another grammar", what());
    let r = catch_expected(|| request(pc, *i));
    match (&expected[which[*c]][*i], r) {
      (Outcome::Cycle, Err(_)) => ctx.label("cycle reported"),
      (Outcome::Cycle, Ok(r)) => {
        return Err(format!(
          "{}: a dependency cycle is not reported by a panic but returns {}",
          what(),
          if r.is_ok() { "a result" } else { "an error" }
        ))
      }
      (o, Err(m)) => return Err(format!("{}: expected {:?}, but it panics: {}", what(), o, m)),
      (Outcome::Fails(k), Ok(Err(e))) => {
        ensure!(
          e == Failed { analysis: *i, step: *k },
          "{}: fails with {:?}, expected its own error at step {}",
          what(),
          e,
          k
        );
        ctx.label("failure reported");
      }
      (Outcome::Fails(k), Ok(Ok(_))) => {
        return Err(format!("{}: should fail at step {} but returns a result", what(), k))
      }
      (Outcome::Good, Ok(Err(e))) => return Err(format!("{}: fails with {:?}", what(), e)),
      (Outcome::Good, Ok(Ok(g))) => {
        ensure!(
          g.context == *c && std::ptr::eq(g.grammar, grams[which[*c]]),
          "{}: the result was computed for context {}",
          what(),
          g.context
        );
        let old = &mut got[*c][*i];
        match old {
          Some(old) => {
            ensure!(
              old.serial == g.serial && Rc::ptr_eq(&old.rc, &g.rc),
              "{}: another result than before",
              what()
            );
            ctx.label("shared result");
          }
          None => *old = Some(g),
        }
      }
    }
  }
  // Everything requested again, so that results used inside runs are compared.
  for c in 0..3 {
    world(|w| w.current = c);
    for i in 0..n {
      if expected[which[c]][i] == Outcome::Good && got[c][i].is_none() {
        let used = world(|w| w.runs.contains(&(c, i)));
        if used {
          let g = caught_panic("a later request", || request(&contexts[c], i))?
            .map_err(|e| format!("context {}: analysis {} fails later: {:?}", c, i, e))?;
          got[c][i] = Some(g);
        }
      }
    }
  }
  world(|w| -> Res {
    if let Some(m) = w.wrong.first() {
      return Err(m.clone());
    }
    for c in 0..3 {
      for i in 0..n {
        if expected[which[c]][i] == Outcome::Good {
          let runs = w.runs.iter().filter(|r| **r == (c, i)).count();
          ensure!(runs <= 1, "context {}: analysis {} is computed {} times", c, i, runs);
        }
      }
    }
    for (c, i, serial) in &w.seen {
      if *c >= 1000 {
        continue;
      }
      let g = got[*c][*i].as_ref();
      ensure!(
        g.map_or(false, |g| g.serial == *serial),
        "context {}: as a dependency, analysis {} is another result than on request",
        c,
        i
      );
    }
    Ok(())
  })?;
  if reqs.len() >= 3 && plan.steps.iter().any(|s| !s.is_empty()) {
    ctx.nontrivial(&(format!("{:?}", plan), reqs));
  }
  Ok(())
}

/// bongo's own analyses, in any order of requests.
fn own(src: &mut Src, ctx: &mut Ctx) -> Res {
  let g = if src.chance(1, 4) {
    gen::grammar(src, Names::None).0
  } else {
    gen::null_unambiguous(src, Names::None)
  };
  let ambiguous = analyse::empty_derivations(&g).iter().any(|c| *c > 1);
  let b = built(&g)?;
  let contexts = [PassContext::new(&b), PassContext::new(&b)];
  let reqs: Vec<(usize, u64)> = (0..src.urange(2, 10)).map(|_| (src.idx(2), src.below(3))).collect();
  ctx.show(|| format!("{:?}: requests (context, 0 nullable / 1 firsts / 2 follows) {:?}", g, reqs));
  ctx.label_if(ambiguous, "ambiguous");
  let mut got: Vec<Vec<Option<Rc<dyn std::any::Any>>>> = vec![vec![None; 3]; 2];
  for (step, (c, k)) in reqs.iter().enumerate() {
    let pc = &contexts[*c];
    let r: Result<Rc<dyn std::any::Any>, String> = caught_panic("a request", || match k {
      0 => pc.get_pass::<Nullable<N, K>>().map(|r| r as Rc<dyn std::any::Any>).map_err(|e| e.to_string()),
      1 => pc.get_pass::<Firsts<T, N>>().map(|r| r as Rc<dyn std::any::Any>).map_err(|e| e.to_string()),
      _ => pc.get_pass::<Follows<T, N>>().map(|r| r as Rc<dyn std::any::Any>).map_err(|e| e.to_string()),
    })
    .map_err(|m| format!("{:?}: request {} {:?}: {}", g, step, (c, k), m))?;
    match r {
      Err(e) => ensure!(ambiguous, "{:?}: request {} fails: {}", g, step, e),
      Ok(r) => {
        ensure!(!ambiguous, "{:?}: request {} succeeds although the nullability analysis cannot", g, step);
        for (oc, other) in got.iter().enumerate() {
          for (ok, o) in other.iter().enumerate() {
            if let Some(o) = o {
              let same = Rc::ptr_eq(o, &r);
              ensure!(
                same == (oc == *c && ok as u64 == *k),
                "{:?}: request {} {:?}: {} the result of {:?}",
                g,
                step,
                (c, k),
                if same { "shares" } else { "does not share" },
                (oc, ok)
              );
            }
          }
        }
        got[*c][*k as usize] = Some(r);
      }
    }
  }
  ctx.nontrivial(&(g, reqs));
  Ok(())
}

thread_local! {
  static RUNS: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) };
  static ASKED: RefCell<(usize, Vec<Vec<usize>>, Option<String>)> = const { RefCell::new((0, Vec::new(), None)) };
}

#[derive(Debug)]
struct Never;
impl std::fmt::Display for Never {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "never")
  }
}
impl std::error::Error for Never {}

struct Unit;
struct Empty;
struct Byte(#[allow(dead_code)] u8);
struct Big(#[allow(dead_code)] [u64; 512]);
struct Shared(#[allow(dead_code)] Rc<dyn std::any::Any>);
struct Of<X>(std::marker::PhantomData<X>);

/// Results of all kinds of types, some without any content.
macro_rules! kinds {
  ($($i:expr => $t:ty, $new:expr;)*) => {
    $(impl Pass<T, N, K, A> for $t {
      type Error = Never;
      fn run_pass(pc: &Pc) -> Result<Self, Never> {
        ran(pc, $i)?;
        Ok($new)
      }
    })*
    fn kind(pc: &Pc, i: usize) -> Result<Rc<dyn std::any::Any>, Never> {
      match i {
        $($i => pc.get_pass::<$t>().map(|r| r as Rc<dyn std::any::Any>),)*
        _ => unreachable!(),
      }
    }
    fn is_kind(r: &dyn std::any::Any, i: usize) -> bool {
      match i {
        $($i => r.is::<$t>(),)*
        _ => unreachable!(),
      }
    }
  };
}

const KINDS: usize = 12;
kinds! {
  0 => Unit, Unit;
  1 => Empty, Empty;
  2 => Box<Unit>, Box::new(Unit);
  3 => Byte, Byte(7);
  4 => Big, Big([3; 512]);
  5 => Of<u8>, Of(std::marker::PhantomData);
  6 => Of<Unit>, Of(std::marker::PhantomData);
  7 => Of<Rc<Unit>>, Of(std::marker::PhantomData);
  8 => Of<Box<dyn std::any::Any>>, Of(std::marker::PhantomData);
  9 => Box<Big>, Box::new(Big([4; 512]));
  10 => Shared, Shared(Rc::new(Unit));
  11 => Box<Box<Unit>>, Box::new(Box::new(Unit));
}

fn ran(pc: &Pc, i: usize) -> Result<(), Never> {
  let (c, needs) = ASKED.with(|a| {
    let a = a.borrow();
    (a.0, a.1[i].clone())
  });
  RUNS.with(|r| r.borrow_mut().push((c, i)));
  for j in needs {
    let r = kind(pc, j)?;
    if !is_kind(&*r, j) {
      ASKED.with(|a| a.borrow_mut().2 = Some(format!("analysis {} yields something else to analysis {}", j, i)));
    }
  }
  Ok(())
}

/// Analyses with results of all kinds of types.
fn types(src: &mut Src, ctx: &mut Ctx) -> Res {
  let g = gen::null_unambiguous(src, Names::None);
  let b = built(&g)?;
  // Later ones may need earlier ones.
  let order = src.permutation(KINDS);
  let mut needs = vec![Vec::new(); KINDS];
  for (k, i) in order.iter().enumerate() {
    for _ in 0..src.below(3) {
      if k > 0 {
        needs[*i].push(order[src.idx(k)]);
      }
    }
  }
  let reqs: Vec<(usize, usize)> = (0..src.urange(1, 16)).map(|_| (src.idx(2), src.idx(KINDS))).collect();
  ctx.show(|| format!("{:?}: needs {:?}, requests (context, analysis) {:?}", g, needs, reqs));
  let contexts = [PassContext::new(&b), PassContext::new(&b)];
  RUNS.with(|r| r.borrow_mut().clear());
  ASKED.with(|a| *a.borrow_mut() = (0, needs.clone(), None));
  let mut got: Vec<(usize, usize, Rc<dyn std::any::Any>)> = Vec::new();
  let mut reached = std::collections::BTreeSet::new();
  for (step, (c, i)) in reqs.iter().enumerate() {
    let fail = |m: String| format!("needs {:?}, requests {:?}, number {}: {}", needs, reqs, step, m);
    ASKED.with(|a| a.borrow_mut().0 = *c);
    let r = caught_panic("a request", || kind(&contexts[*c], *i).map_err(|e| e.to_string())).map_err(&fail)?.map_err(&fail)?;
    ensure!(is_kind(&*r, *i), "{}", fail("a result of another type".to_string()));
    for (oc, oi, o) in &got {
      let same = Rc::ptr_eq(o, &r);
      ensure!(
        same == ((oc, oi) == (c, i)),
        "{}",
        fail(format!("{} the result of {:?}", if same { "shares" } else { "does not share" }, (oc, oi)))
      );
    }
    got.push((*c, *i, r));
    let mut todo = vec![*i];
    while let Some(j) = todo.pop() {
      if reached.insert((*c, j)) {
        todo.extend(needs[j].iter().copied());
      }
    }
    if src.chance(1, 4) {
      // Nobody holds on to earlier results.
      got.clear();
    }
  }
  let mut runs = RUNS.with(|r| r.borrow().clone());
  runs.sort_unstable();
  ensure!(
    runs == reached.iter().copied().collect::<Vec<_>>(),
    "needs {:?}, requests {:?}: the analyses (context, analysis) {:?} are computed instead of {:?}",
    needs,
    reqs,
    runs,
    reached
  );
  if let Some(m) = ASKED.with(|a| a.borrow().2.clone()) {
    return Err(m);
  }
  if reqs.len() > reached.len() || runs.len() > reqs.len() {
    ctx.nontrivial(&(needs, reqs));
  }
  Ok(())
}

/// One of 256 analyses.
struct Numbered<const I: usize, const J: usize> {
  number: usize,
  context: usize,
}

thread_local! {
  static CROWD: RefCell<(usize, Vec<Vec<usize>>, Vec<(usize, usize)>, Option<String>)> =
    const { RefCell::new((0, Vec::new(), Vec::new(), None)) };
}

impl<const I: usize, const J: usize> Pass<T, N, K, A> for Numbered<I, J> {
  type Error = Never;
  fn run_pass(pc: &Pc) -> Result<Self, Never> {
    engine::tick();
    let number = 16 * I + J;
    let (context, needs) = CROWD.with(|a| {
      let mut a = a.borrow_mut();
      let c = a.0;
      a.2.push((c, number));
      (c, a.1[number].clone())
    });
    for j in needs {
      let (of, at, _) = CROWDED[j / 16][j % 16](pc)?;
      if (of, at) != (j, context) {
        let m = format!("analysis {} in context {} yields ({}, {}) to {}", j, context, of, at, number);
        CROWD.with(|a| a.borrow_mut().3 = Some(m));
      }
    }
    Ok(Numbered { number, context })
  }
}

type Asked = Result<(usize, usize, Rc<dyn std::any::Any>), Never>;

fn numbered<const I: usize, const J: usize>(pc: &Pc) -> Asked {
  pc.get_pass::<Numbered<I, J>>().map(|r| (r.number, r.context, r as Rc<dyn std::any::Any>))
}

const CROWD_SIZE: usize = 256;
const CROWDED: [[fn(&Pc) -> Asked; 16]; 16] = [
  [numbered::<0, 0>, numbered::<0, 1>, numbered::<0, 2>, numbered::<0, 3>, numbered::<0, 4>, numbered::<0, 5>, numbered::<0, 6>, numbered::<0, 7>, numbered::<0, 8>, numbered::<0, 9>, numbered::<0, 10>, numbered::<0, 11>, numbered::<0, 12>, numbered::<0, 13>, numbered::<0, 14>, numbered::<0, 15>],
  [numbered::<1, 0>, numbered::<1, 1>, numbered::<1, 2>, numbered::<1, 3>, numbered::<1, 4>, numbered::<1, 5>, numbered::<1, 6>, numbered::<1, 7>, numbered::<1, 8>, numbered::<1, 9>, numbered::<1, 10>, numbered::<1, 11>, numbered::<1, 12>, numbered::<1, 13>, numbered::<1, 14>, numbered::<1, 15>],
  [numbered::<2, 0>, numbered::<2, 1>, numbered::<2, 2>, numbered::<2, 3>, numbered::<2, 4>, numbered::<2, 5>, numbered::<2, 6>, numbered::<2, 7>, numbered::<2, 8>, numbered::<2, 9>, numbered::<2, 10>, numbered::<2, 11>, numbered::<2, 12>, numbered::<2, 13>, numbered::<2, 14>, numbered::<2, 15>],
  [numbered::<3, 0>, numbered::<3, 1>, numbered::<3, 2>, numbered::<3, 3>, numbered::<3, 4>, numbered::<3, 5>, numbered::<3, 6>, numbered::<3, 7>, numbered::<3, 8>, numbered::<3, 9>, numbered::<3, 10>, numbered::<3, 11>, numbered::<3, 12>, numbered::<3, 13>, numbered::<3, 14>, numbered::<3, 15>],
  [numbered::<4, 0>, numbered::<4, 1>, numbered::<4, 2>, numbered::<4, 3>, numbered::<4, 4>, numbered::<4, 5>, numbered::<4, 6>, numbered::<4, 7>, numbered::<4, 8>, numbered::<4, 9>, numbered::<4, 10>, numbered::<4, 11>, numbered::<4, 12>, numbered::<4, 13>, numbered::<4, 14>, numbered::<4, 15>],
  [numbered::<5, 0>, numbered::<5, 1>, numbered::<5, 2>, numbered::<5, 3>, numbered::<5, 4>, numbered::<5, 5>, numbered::<5, 6>, numbered::<5, 7>, numbered::<5, 8>, numbered::<5, 9>, numbered::<5, 10>, numbered::<5, 11>, numbered::<5, 12>, numbered::<5, 13>, numbered::<5, 14>, numbered::<5, 15>],
  [numbered::<6, 0>, numbered::<6, 1>, numbered::<6, 2>, numbered::<6, 3>, numbered::<6, 4>, numbered::<6, 5>, numbered::<6, 6>, numbered::<6, 7>, numbered::<6, 8>, numbered::<6, 9>, numbered::<6, 10>, numbered::<6, 11>, numbered::<6, 12>, numbered::<6, 13>, numbered::<6, 14>, numbered::<6, 15>],
  [numbered::<7, 0>, numbered::<7, 1>, numbered::<7, 2>, numbered::<7, 3>, numbered::<7, 4>, numbered::<7, 5>, numbered::<7, 6>, numbered::<7, 7>, numbered::<7, 8>, numbered::<7, 9>, numbered::<7, 10>, numbered::<7, 11>, numbered::<7, 12>, numbered::<7, 13>, numbered::<7, 14>, numbered::<7, 15>],
  [numbered::<8, 0>, numbered::<8, 1>, numbered::<8, 2>, numbered::<8, 3>, numbered::<8, 4>, numbered::<8, 5>, numbered::<8, 6>, numbered::<8, 7>, numbered::<8, 8>, numbered::<8, 9>, numbered::<8, 10>, numbered::<8, 11>, numbered::<8, 12>, numbered::<8, 13>, numbered::<8, 14>, numbered::<8, 15>],
  [numbered::<9, 0>, numbered::<9, 1>, numbered::<9, 2>, numbered::<9, 3>, numbered::<9, 4>, numbered::<9, 5>, numbered::<9, 6>, numbered::<9, 7>, numbered::<9, 8>, numbered::<9, 9>, numbered::<9, 10>, numbered::<9, 11>, numbered::<9, 12>, numbered::<9, 13>, numbered::<9, 14>, numbered::<9, 15>],
  [numbered::<10, 0>, numbered::<10, 1>, numbered::<10, 2>, numbered::<10, 3>, numbered::<10, 4>, numbered::<10, 5>, numbered::<10, 6>, numbered::<10, 7>, numbered::<10, 8>, numbered::<10, 9>, numbered::<10, 10>, numbered::<10, 11>, numbered::<10, 12>, numbered::<10, 13>, numbered::<10, 14>, numbered::<10, 15>],
  [numbered::<11, 0>, numbered::<11, 1>, numbered::<11, 2>, numbered::<11, 3>, numbered::<11, 4>, numbered::<11, 5>, numbered::<11, 6>, numbered::<11, 7>, numbered::<11, 8>, numbered::<11, 9>, numbered::<11, 10>, numbered::<11, 11>, numbered::<11, 12>, numbered::<11, 13>, numbered::<11, 14>, numbered::<11, 15>],
  [numbered::<12, 0>, numbered::<12, 1>, numbered::<12, 2>, numbered::<12, 3>, numbered::<12, 4>, numbered::<12, 5>, numbered::<12, 6>, numbered::<12, 7>, numbered::<12, 8>, numbered::<12, 9>, numbered::<12, 10>, numbered::<12, 11>, numbered::<12, 12>, numbered::<12, 13>, numbered::<12, 14>, numbered::<12, 15>],
  [numbered::<13, 0>, numbered::<13, 1>, numbered::<13, 2>, numbered::<13, 3>, numbered::<13, 4>, numbered::<13, 5>, numbered::<13, 6>, numbered::<13, 7>, numbered::<13, 8>, numbered::<13, 9>, numbered::<13, 10>, numbered::<13, 11>, numbered::<13, 12>, numbered::<13, 13>, numbered::<13, 14>, numbered::<13, 15>],
  [numbered::<14, 0>, numbered::<14, 1>, numbered::<14, 2>, numbered::<14, 3>, numbered::<14, 4>, numbered::<14, 5>, numbered::<14, 6>, numbered::<14, 7>, numbered::<14, 8>, numbered::<14, 9>, numbered::<14, 10>, numbered::<14, 11>, numbered::<14, 12>, numbered::<14, 13>, numbered::<14, 14>, numbered::<14, 15>],
  [numbered::<15, 0>, numbered::<15, 1>, numbered::<15, 2>, numbered::<15, 3>, numbered::<15, 4>, numbered::<15, 5>, numbered::<15, 6>, numbered::<15, 7>, numbered::<15, 8>, numbered::<15, 9>, numbered::<15, 10>, numbered::<15, 11>, numbered::<15, 12>, numbered::<15, 13>, numbered::<15, 14>, numbered::<15, 15>],
];

/// Hundreds of analyses in one context; long chains of dependencies.
fn crowd(src: &mut Src, ctx: &mut Ctx) -> Res {
  let g = Gram::parse('A', &["aA|"]);
  let b = built(&g)?;
  let n = gen::edgy(src, 2, CROWD_SIZE);
  let perm = src.permutation(CROWD_SIZE);
  let mut needs = vec![Vec::new(); CROWD_SIZE];
  let shape = *src.pick(&["none", "chain", "fan", "tree", "random"]);
  for i in 0..n {
    match shape {
      "chain" if i + 1 < n => needs[perm[i]].push(perm[i + 1]),
      "fan" if i == 0 => needs[perm[0]] = perm[1..n].to_vec(),
      "tree" => needs[perm[i]] = (2 * i + 1..2 * i + 3).filter(|j| *j < n).map(|j| perm[j]).collect(),
      "random" if i + 1 < n => {
        for _ in 0..src.below(4) {
          needs[perm[i]].push(perm[src.urange(i + 1, n - 1)]);
        }
      }
      _ => {}
    }
  }
  let back = src.chance(1, 4);
  if back {
    let (i, j) = (src.idx(n), src.idx(n));
    needs[perm[i.max(j)]].push(perm[i.min(j)]);
  }
  // Those from which a cycle can be reached.
  let mut state = vec![0u8; CROWD_SIZE];
  fn circular(i: usize, needs: &[Vec<usize>], state: &mut [u8]) -> bool {
    match state[i] {
      0 => {
        state[i] = 1;
        let bad = needs[i].iter().any(|j| circular(*j, needs, state));
        state[i] = if bad { 3 } else { 2 };
        bad
      }
      2 => false,
      _ => true,
    }
  }
  for i in 0..CROWD_SIZE {
    circular(i, &needs, &mut state);
  }
  let rounds = if src.flag() { perm[..n].iter().chain(&perm[..n]).copied().collect::<Vec<_>>() } else {
    (0..src.urange(1, 2 * n)).map(|_| perm[src.idx(n)]).collect()
  };
  let reqs: Vec<(usize, usize)> = rounds.into_iter().map(|i| (src.idx(2), i)).collect();
  ctx.show(|| checks::short(format!("{} analyses, {}, needs {:?}, requests {:?}", n, shape, needs, reqs)));
  ctx.label(shape);
  let contexts = [PassContext::new(&b), PassContext::new(&b)];
  CROWD.with(|a| *a.borrow_mut() = (0, needs.clone(), Vec::new(), None));
  let mut got: Vec<Vec<Option<Rc<dyn std::any::Any>>>> = vec![vec![None; CROWD_SIZE]; 2];
  for (step, (c, i)) in reqs.iter().enumerate() {
    let fail = |m: String| checks::short(format!("{} analyses, {}, request {} (context {}, analysis {}): {}; needs {:?}", n, shape, step, c, i, m, needs));
    CROWD.with(|a| a.borrow_mut().0 = *c);
    let r = catch_expected(|| CROWDED[i / 16][i % 16](&contexts[*c]));
    if state[*i] == 3 {
      ctx.label("cycle reported");
      ensure!(r.is_err(), "{}", fail("a dependency cycle is not reported by a panic".to_string()));
      continue;
    }
    let (of, at, r) = match r {
      Ok(Ok(r)) => r,
      Ok(Err(e)) => return Err(fail(format!("fails with {}", e))),
      Err(m) => return Err(fail(format!("panics: {}", m))),
    };
    ensure!((of, at) == (*i, *c), "{}", fail(format!("the result of analysis {} in context {}", of, at)));
    match &got[*c][*i] {
      Some(o) => ensure!(Rc::ptr_eq(o, &r), "{}", fail("another result than before".to_string())),
      None => got[*c][*i] = Some(r),
    }
  }
  let (runs, wrong) = CROWD.with(|a| {
    let a = a.borrow();
    (a.2.clone(), a.3.clone())
  });
  if let Some(m) = wrong {
    return Err(checks::short(m));
  }
  let mut once = std::collections::BTreeSet::new();
  for (c, i) in runs {
    ensure!(
      state[i] == 3 || once.insert((c, i)),
      "{}",
      checks::short(format!("{} analyses, {}: analysis {} is computed more than once in context {}; needs {:?}, requests {:?}", n, shape, i, c, needs, reqs))
    );
  }
  if n > 12 {
    ctx.nontrivial(&(needs, reqs));
  }
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("generated", 750_000, 6_000_000, generated),
    Suite::random("own-analyses", 150_000, 1_200_000, own),
    Suite::random("types", 150_000, 1_200_000, types),
    Suite::random("crowd", 60_000, 1_000_000, crowd),
  ];
  main_with(
    "C10",
    "A case is a dependency graph between up to eight generated analyses (with failures, tolerated failures, cycles, nested contexts and a dependency on bongo's own nullability analysis) and a sequence of requests in three contexts; or a sequence of requests for bongo's own analyses, or for analyses whose results are of twelve types (several without content), or for up to 256 analyses in chains, fans, trees and random graphs with or without a cycle. Non-trivial: at least three requests and some dependency, or some analysis is asked for again or as a dependency.",
    &["an analysis that fails may be attempted again on each request"],
    suites,
  )
}
