//! Reading DOT and comparing graphs.

use std::collections::BTreeMap;

#[derive(Debug, PartialEq, Clone)]
enum Tok {
  Id(String),
  Str(String),
  Arrow,
  Sym(char),
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  let mut out = Vec::new();
  while i < c.len() {
    match c[i] {
      x if x.is_whitespace() => i += 1,
      '/' if c.get(i + 1) == Some(&'/') => {
        while i < c.len() && c[i] != '\n' {
          i += 1;
        }
      }
      '-' if c.get(i + 1) == Some(&'>') => {
        out.push(Tok::Arrow);
        i += 2;
      }
      '"' => {
        let mut t = String::new();
        i += 1;
        loop {
          match c.get(i) {
            None => return Err("unterminated string".to_string()),
            Some('"') => break,
            Some('\\') => {
              t.push('\\');
              match c.get(i + 1) {
                None => return Err("unterminated string".to_string()),
                Some(x) => t.push(*x),
              }
              i += 2;
            }
            Some(x) => {
              t.push(*x);
              i += 1;
            }
          }
        }
        i += 1;
        out.push(Tok::Str(t));
      }
      x if x.is_alphanumeric() || x == '_' || x == '.' || x == '-' => {
        let mut t = String::new();
        while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.') || i < c.len() && c[i] == '-' && t.is_empty() {
          t.push(c[i]);
          i += 1;
        }
        out.push(Tok::Id(t));
      }
      x => {
        out.push(Tok::Sym(x));
        i += 1;
      }
    }
  }
  Ok(out)
}

/// Undoes `char::escape_default`.
pub fn unescape(s: &str) -> String {
  let c: Vec<char> = s.chars().collect();
  let mut out = String::new();
  let mut i = 0;
  while i < c.len() {
    if c[i] != '\\' || i + 1 >= c.len() {
      out.push(c[i]);
      i += 1;
      continue;
    }
    match c[i + 1] {
      'n' => out.push('\n'),
      't' => out.push('\t'),
      'r' => out.push('\r'),
      'u' if c.get(i + 2) == Some(&'{') => {
        let end = (i..c.len()).find(|k| c[*k] == '}');
        let hex: String = c[i + 3..end.unwrap_or(i + 3)].iter().collect();
        if let (Some(end), Some(ch)) = (end, u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32)) {
          out.push(ch);
          i = end + 1;
          continue;
        }
        out.push('u');
      }
      x => out.push(x),
    }
    i += 2;
  }
  out
}

#[derive(Default, Debug)]
pub struct Dot {
  /// Vertex name to its label, as written in the file.
  pub vertices: BTreeMap<String, String>,
  pub shapes: BTreeMap<String, String>,
  pub edges: Vec<(String, String)>,
}

fn attrs(t: &[Tok], i: &mut usize) -> Result<Vec<(String, String)>, String> {
  let mut out = Vec::new();
  while t.get(*i) == Some(&Tok::Sym('[')) {
    *i += 1;
    loop {
      match t.get(*i) {
        Some(Tok::Sym(']')) => {
          *i += 1;
          break;
        }
        Some(Tok::Sym(',')) | Some(Tok::Sym(';')) => *i += 1,
        Some(Tok::Id(k)) | Some(Tok::Str(k)) => {
          if t.get(*i + 1) != Some(&Tok::Sym('=')) {
            return Err(format!("attribute {} without a value", k));
          }
          match t.get(*i + 2) {
            Some(Tok::Id(v)) | Some(Tok::Str(v)) => out.push((k.clone(), v.clone())),
            x => return Err(format!("attribute {} has the value {:?}", k, x)),
          }
          *i += 3;
        }
        x => return Err(format!("unexpected {:?} in attributes", x)),
      }
    }
  }
  Ok(out)
}

pub fn parse(s: &str) -> Result<Dot, String> {
  let t = lex(s)?;
  let mut i = 0;
  if t.get(i) != Some(&Tok::Id("digraph".to_string())) {
    return Err("not a digraph".to_string());
  }
  i += 1;
  if let Some(Tok::Id(_)) | Some(Tok::Str(_)) = t.get(i) {
    i += 1;
  }
  if t.get(i) != Some(&Tok::Sym('{')) {
    return Err(format!("expected {{, found {:?}", t.get(i)));
  }
  i += 1;
  let mut d = Dot::default();
  loop {
    match t.get(i) {
      Some(Tok::Sym('}')) => {
        i += 1;
        break;
      }
      Some(Tok::Sym(';')) => i += 1,
      Some(Tok::Id(a)) | Some(Tok::Str(a)) => {
        i += 1;
        if ["node", "edge", "graph"].contains(&a.as_str()) {
          attrs(&t, &mut i)?;
        } else if t.get(i) == Some(&Tok::Sym('=')) {
          i += 2;
        } else if t.get(i) == Some(&Tok::Arrow) {
          let b = match t.get(i + 1) {
            Some(Tok::Id(b)) | Some(Tok::Str(b)) => b.clone(),
            x => return Err(format!("edge to {:?}", x)),
          };
          i += 2;
          attrs(&t, &mut i)?;
          d.edges.push((a.clone(), b));
        } else {
          let at = attrs(&t, &mut i)?;
          let get = |k: &str| at.iter().rev().find(|x| x.0 == k).map(|x| x.1.clone());
          let label = get("label").unwrap_or_else(|| a.clone());
          if let Some(old) = d.vertices.insert(a.clone(), label.clone()) {
            if old != label {
              return Err(format!("vertex {} has two labels", a));
            }
          }
          if let Some(s) = get("shape") {
            d.shapes.insert(a.clone(), s);
          }
        }
      }
      x => return Err(format!("unexpected {:?}", x)),
    }
  }
  if i != t.len() {
    return Err("something follows the graph".to_string());
  }
  for (a, b) in d.edges.clone() {
    for v in [a, b] {
      d.vertices.entry(v.clone()).or_insert(v);
    }
  }
  Ok(d)
}

/// Vertices with colours and directed edges (with repetitions).
#[derive(Default, Clone)]
pub struct Graph {
  pub colour: Vec<String>,
  pub edges: Vec<(usize, usize)>,
}

impl Graph {
  /// Colours refined by neighbourhoods, `rounds` times.
  fn refined(&self, rounds: usize) -> Vec<u64> {
    let mut c: Vec<u64> = self.colour.iter().map(|s| engine::hash_str(s)).collect();
    for _ in 0..rounds {
      let mut out = vec![Vec::new(); c.len()];
      let mut inn = vec![Vec::new(); c.len()];
      for (a, b) in &self.edges {
        out[*a].push(c[*b]);
        inn[*b].push(c[*a]);
      }
      c = (0..c.len())
        .map(|i| {
          out[i].sort_unstable();
          inn[i].sort_unstable();
          let mut h = engine::mix(c[i], 1);
          for x in &out[i] {
            h = engine::mix(h, *x);
          }
          h = engine::mix(h, 2);
          for x in &inn[i] {
            h = engine::mix(h, *x);
          }
          h
        })
        .collect();
    }
    c
  }

  /// Says what differs. (Graphs that colour refinement cannot tell apart pass
  /// as equal.)
  pub fn differs(&self, want: &Graph) -> Option<String> {
    let sorted = |v: &[String]| {
      let mut v = v.to_vec();
      v.sort();
      v
    };
    let (a, b) = (sorted(&self.colour), sorted(&want.colour));
    if a != b {
      let extra: Vec<_> = multiset_minus(&a, &b);
      let missing: Vec<_> = multiset_minus(&b, &a);
      return Some(format!("vertices too many {:?}, missing {:?}", extra, missing));
    }
    if self.edges.len() != want.edges.len() {
      return Some(format!("{} edges instead of {}", self.edges.len(), want.edges.len()));
    }
    let rounds = match self.colour.len() {
      n if n > 20_000 => 24,
      n => 8 + (n as f64).sqrt() as usize,
    };
    let (mut x, mut y) = (self.refined(rounds), want.refined(rounds));
    x.sort_unstable();
    y.sort_unstable();
    if x != y {
      return Some("edges between other vertices".to_string());
    }
    None
  }
}

fn multiset_minus(a: &[String], b: &[String]) -> Vec<String> {
  let mut count: BTreeMap<&String, i64> = BTreeMap::new();
  for x in b {
    *count.entry(x).or_insert(0) += 1;
  }
  let mut out = Vec::new();
  for x in a {
    let c = count.entry(x).or_insert(0);
    if *c > 0 {
      *c -= 1;
    } else {
      out.push(x.clone());
    }
  }
  out.truncate(8);
  out
}
