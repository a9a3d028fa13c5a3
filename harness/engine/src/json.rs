//! Just enough JSON for evidence and replay files.

pub fn esc(s: &str) -> String {
  let mut out = String::with_capacity(s.len() + 2);
  out.push('"');
  for c in s.chars() {
    match c {
      '"' => out.push_str("\\\""),
      '\\' => out.push_str("\\\\"),
      '\n' => out.push_str("\\n"),
      '\r' => out.push_str("\\r"),
      '\t' => out.push_str("\\t"),
      c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
      c => out.push(c),
    }
  }
  out.push('"');
  out
}

pub fn arr<T>(items: &[T], f: impl Fn(&T) -> String) -> String {
  let v: Vec<String> = items.iter().map(f).collect();
  format!("[{}]", v.join(","))
}

/// Extracts the raw text of a string field (no nested objects expected before).
pub fn get_string(doc: &str, field: &str) -> Option<String> {
  let pat = format!("\"{}\":", field);
  let start = doc.find(&pat)? + pat.len();
  let rest = doc[start..].trim_start();
  let rest = rest.strip_prefix('"')?;
  let mut out = String::new();
  let mut it = rest.chars();
  while let Some(c) = it.next() {
    match c {
      '"' => return Some(out),
      '\\' => match it.next()? {
        'n' => out.push('\n'),
        'r' => out.push('\r'),
        't' => out.push('\t'),
        'u' => {
          let h: String = it.by_ref().take(4).collect();
          out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
        }
        c => out.push(c),
      },
      c => out.push(c),
    }
  }
  None
}

pub fn get_u64_array(doc: &str, field: &str) -> Option<Vec<u64>> {
  let pat = format!("\"{}\":", field);
  let start = doc.find(&pat)? + pat.len();
  let rest = doc[start..].trim_start();
  let rest = rest.strip_prefix('[')?;
  let end = rest.find(']')?;
  rest[..end]
    .split(',')
    .map(|s| s.trim())
    .filter(|s| !s.is_empty())
    .map(|s| s.parse().ok())
    .collect()
}
