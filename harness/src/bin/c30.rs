//! C30: parses are independent of each other and of declaration details.

use checks::parse::{check_exact, extract, parse, reference, Complete, FNode, Handle, Owner};
use checks::{wrapped, K, SG, T, V};
use engine::{caught_panic, ensure, main_with, Ctx, Res, Src, Suite};
use model::forest::{Alt, Forest, RefForest};
use model::gen::{self, Names};
use model::{word_str, Gram, Sym};
use std::cell::Cell;
use std::collections::BTreeMap;

/// The same grammar with other names and in another order. Returns the new
/// number of each terminal.
fn variant(src: &mut Src, g: &Gram) -> (Gram, Vec<u16>) {
  let nts: Vec<u16> = if src.flag() { src.permutation(g.n()) } else { (0..g.n()).collect() }
    .into_iter()
    .map(|i| i as u16)
    .collect();
  // Room for other names altogether.
  let k = g.terms as usize;
  let terms: Vec<u16> = if src.flag() { src.permutation(k + 2) } else { (0..k + 2).collect() }
    .into_iter()
    .take(k)
    .map(|i| i as u16)
    .collect();
  let mut rules = vec![Vec::new(); g.n()];
  for (h, r) in g.rules.iter().enumerate() {
    let order = if src.flag() { src.permutation(r.len()) } else { (0..r.len()).collect() };
    rules[nts[h] as usize] = order
      .into_iter()
      .map(|i| {
        let mut p = r[i].clone();
        for e in &mut p.elems {
          e.sym = match e.sym {
            Sym::T(t) => Sym::T(terms[t as usize]),
            Sym::N(n) => Sym::N(nts[n as usize]),
          };
        }
        p
      })
      .collect();
  }
  let decl = src.permutation(g.n()).into_iter().map(|i| i as u16).collect();
  let top = terms.iter().max().map_or(0, |t| t + 1).max(g.terms);
  (Gram { start: nts[g.start as usize], terms: top, rules, decl }, terms)
}

/// All nodes below one, by identity, with their alternatives in order of
/// content.
type Snap<'a> = BTreeMap<FNode<'a>, Vec<(u16, Vec<FNode<'a>>, Option<(u16, u32)>)>>;

fn snap<'a>(f: &Forest, nodes: &[FNode<'a>]) -> Snap<'a> {
  f.nodes
    .iter()
    .zip(nodes)
    .map(|(alts, n)| {
      let mut v: Vec<_> = alts
        .iter()
        .map(|a| match a {
          Alt::Leaf { kind, value } => (0, vec![], Some((*kind, *value))),
          Alt::Branch { key, kids } => (*key, kids.iter().map(|k| nodes[*k].clone()).collect(), None),
        })
        .collect();
      v.sort();
      (n.clone(), v)
    })
    .collect()
}

struct Parsed<'a> {
  store: usize,
  gram: usize,
  word: usize,
  root: FNode<'a>,
  snap: Snap<'a>,
  forest: Forest,
}

/// Values of the tokens of word `w`: their positions, as the reference has
/// them, so that leaves of different parses coincide.
fn value(i: usize) -> u32 {
  i as u32
}

fn check(src: &mut Src, ctx: &mut Ctx, g: &Gram, words: &[Vec<u16>], max_ops: usize) -> Res {
  let mut grams = vec![(g.clone(), (0..g.terms).collect::<Vec<u16>>())];
  // An equal grammar, and others with other names.
  grams.push(grams[0].clone());
  for _ in 0..src.urange(0, 2) {
    let v = variant(src, g);
    grams.push(v);
  }
  // An unrelated one.
  let unrelated = grams.len();
  let (u, _) = gen::grammar(src, Names::None);
  let uterms = (0..g.terms).map(|t| t % u.terms.max(1)).collect();
  grams.push((u, uterms));
  let sgs: Vec<SG> = grams.iter().map(|(g, _)| wrapped(g)).collect::<Result<_, _>>()?;
  let owners: Vec<Owner> = (0..src.urange(1, 3)).map(|_| Owner::new()).collect();
  let handles: Vec<Handle> = owners.iter().map(|o| o.handle()).collect();
  // References.
  let mut refs: BTreeMap<(usize, usize), Option<Option<RefForest>>> = BTreeMap::new();
  let mut done: Vec<Parsed> = Vec::new();
  let mut log = String::new();
  let (mut shared, mut accepted, mut extra) = (false, 0, 0);
  let r = (|| -> Res {
    for _ in 0..src.count(2, max_ops) {
      let s = src.idx(owners.len());
      if src.chance(1, 5) {
        // Additions elsewhere in the same store.
        extra += 1;
        let h = &handles[s];
        log += &format!("additions to store {}; ", s);
        caught_panic("adding nodes", || {
          let leaf = h.make_leaf_node(T(src.below(3) as u16), V(src.below(4) as u32));
          let n = h.make_node();
          let mut kids = vec![leaf, n.clone()];
          if let Some(p) = done.iter().rev().find(|p| p.store == s) {
            kids.push(p.root.clone());
            // A new node that takes over the alternatives of a parse.
            n.add_all(&p.root);
          }
          let k = src.idx(kids.len() + 1);
          n.add_alt(&h.make_branch_alt(K(src.below(4) as u16), kids[..k].to_vec()));
          let b = h.make_branch_node(K(src.below(4) as u16), kids);
          b.add_alt(&h.make_leaf_alt(T(0), V(0)));
        })?;
      } else {
        let (k, w) = (src.idx(grams.len()), src.idx(words.len()));
        let (g, terms) = &grams[k];
        let word: Vec<u16> = words[w].iter().map(|t| terms[*t as usize]).collect();
        let r = refs.entry((k, w)).or_insert_with(|| reference(g, &word, 2000));
        let r = match r {
          None => {
            ctx.label("skipped: too many alternatives");
            continue;
          }
          Some(r) => r,
        };
        log += &format!("grammar {} parses {} in store {}; ", k, word_str(&word), s);
        let root = parse(&sgs[k], &handles[s], &word, value)?;
        match (&root, &r) {
          (None, None) => {}
          (Some(_), None) => return Err("accepted, but it is not in the language".to_string()),
          (None, Some(_)) => return Err("rejected, but it is in the language".to_string()),
          (Some(root), Some(r)) => {
            accepted += 1;
            let (f, nodes) = caught_panic("reading the forest", || extract(root))?;
            if let Complete::Unsettled = check_exact(g, &word, r, &f)? {
              ctx.label("settled by counts only");
            }
            shared |= done.iter().any(|d| d.store == s && d.gram != unrelated);
            // Against earlier parses of the same word by the same grammar or
            // a renamed one: numbers of trees by size.
            if let Some(d) = done.iter().find(|d| d.word == w && d.gram != unrelated && k != unrelated) {
              let (a, b) = (d.forest.shape().sizes(30), f.shape().sizes(30));
              ensure!(a == b, "numbers of trees by size are {:?}, in an earlier parse they were {:?}", b, a);
            }
            let snap = snap(&f, &nodes);
            done.push(Parsed { store: s, gram: k, word: w, root: root.clone(), snap, forest: f });
          }
        }
      }
      // Earlier forests.
      for (i, d) in done.iter().enumerate() {
        let (f, nodes) = caught_panic("reading an earlier forest", || extract(&d.root))?;
        if snap(&f, &nodes) != d.snap {
          // Its nodes have changed; have its trees?
          ctx.label("an earlier forest's nodes changed");
          let (g, terms) = &grams[d.gram];
          let word: Vec<u16> = words[d.word].iter().map(|t| terms[*t as usize]).collect();
          let r = reference(g, &word, 2000).and_then(|r| r).expect("computed before");
          check_exact(g, &word, &r, &f).map_err(|m| format!("the forest of parse {} was changed: {}", i, m))?;
        }
      }
    }
    Ok(())
  })();
  r.map_err(|m| {
    let gs: Vec<String> = grams.iter().map(|g| format!("{:?}", g.0)).collect();
    format!("{}\ngrammars {}\nafter {}", m, gs.join("\n  "), log)
  })?;
  ctx.show(|| format!("{:?}: {}", grams.iter().map(|g| &g.0).collect::<Vec<_>>(), log));
  ctx.label_if(accepted > 0, "an accepted word");
  ctx.label_if(extra > 0 && accepted > 0, "additions elsewhere");
  ctx.label_if(shared, "several parses in one store");
  if shared && accepted >= 3 {
    ctx.nontrivial(&log);
  }
  Ok(())
}

fn random(src: &mut Src, ctx: &mut Ctx) -> Res {
  let (g, label) = gen::grammar(src, Names::None);
  ctx.label(label);
  let mut words: Vec<Vec<u16>> = Vec::new();
  for _ in 0..3 {
    let target = src.urange(0, 6);
    if let Some(w) = gen::derived_word(src, &g, target) {
      if w.len() <= 8 {
        words.push(w);
      }
    }
  }
  if words.is_empty() || src.chance(1, 4) {
    let n = src.idx(5);
    words.push((0..n).map(|_| src.below(g.terms.max(1) as u64) as u16).collect());
  }
  check(src, ctx, &g, &words, 10)
}

fn ambiguous(src: &mut Src, ctx: &mut Ctx) -> Res {
  const G: &[&[&str]] = &[&["AA|a"], &["AbA|a|"], &["BB", "BB|a"], &["BCD", "aB|", "aC|", "aD|"], &["AaB|B", "BaA|a"]];
  let g = Gram::parse('A', *src.pick(G));
  let n = src.urange(1, 3);
  let words: Vec<Vec<u16>> = (0..n)
    .filter_map(|_| {
      let t = src.urange(1, 7);
      gen::derived_word(src, &g, t)
    })
    .filter(|w| w.len() <= 9)
    .collect();
  if words.is_empty() {
    return Ok(());
  }
  check(src, ctx, &g, &words, 14)
}

thread_local! {
  static LOGGED: Cell<u64> = const { Cell::new(0) };
}

struct Logger;

impl log::Log for Logger {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, r: &log::Record) {
    // What is logged is looked at, and thrown away.
    let text = format!("{} {}", r.target(), r.args());
    LOGGED.with(|c| c.set(c.get() + !text.is_empty() as u64));
  }
  fn flush(&self) {}
}

/// The same with a logger that wants everything.
fn logged(src: &mut Src, ctx: &mut Ctx) -> Res {
  static LOGGER: Logger = Logger;
  static START: std::sync::Once = std::sync::Once::new();
  START.call_once(|| {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
  });
  LOGGED.with(|c| c.set(0));
  if src.flag() {
    random(src, ctx)?;
  } else {
    ambiguous(src, ctx)?;
  }
  ctx.label_if(LOGGED.with(|c| c.get()) > 0, "something is logged");
  Ok(())
}

fn main() {
  let suites = vec![
    Suite::random("random", 60_000, 2_000_000, random),
    Suite::random("ambiguous", 10_000, 300_000, ambiguous),
    // Last, since logging stays on.
    Suite::random("logged", 8_000, 250_000, logged),
  ];
  main_with(
    "C30",
    "A case is a grammar, an equal one, renamed and reordered ones and an unrelated one, words, one to three stores, and a sequence of parses and of additions to the stores; each forest is compared with the reference forest of its grammar and word, and with those of earlier parses of the word, and all earlier forests are read again after every step. Non-trivial: three or more accepting parses, several of them in one store.",
    &["words of at most 9 tokens"],
    suites,
  )
}
