//! Literals of Rust, after the Rust reference.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RLit {
  /// `b"..."`
  Bytes(Vec<u8>),
  /// `"..."`, in UTF-8
  Str(Vec<u8>),
  Char(u32),
  Num(i128, Vec<u8>),
}

fn hex(c: u8) -> Option<u32> {
  match c {
    b'0'..=b'9' => Some((c - b'0') as u32),
    b'a'..=b'f' => Some((c - b'a') as u32 + 10),
    b'A'..=b'F' => Some((c - b'A') as u32 + 10),
    _ => None,
  }
}

/// Characters up to the quote; numeric escapes give bytes in byte strings and characters otherwise.
fn quoted(b: &[u8], quote: u8, bytes: bool) -> Option<Vec<u32>> {
  let mut out = vec![];
  let mut i = 0;
  loop {
    let c = *b.get(i)?;
    i += 1;
    if c == quote {
      return (i == b.len()).then_some(out);
    }
    if c == b'\\' {
      let e = *b.get(i)?;
      i += 1;
      out.push(match e {
        b'n' => 10,
        b'r' => 13,
        b't' => 9,
        b'0' => 0,
        b'\\' | b'\'' | b'"' => e as u32,
        b'x' => {
          let v = hex(*b.get(i)?)? * 16 + hex(*b.get(i + 1)?)?;
          i += 2;
          if !bytes && v > 0x7f {
            return None;
          }
          v
        },
        b'u' if !bytes => {
          if *b.get(i)? != b'{' {
            return None;
          }
          i += 1;
          let mut v = 0;
          let mut n = 0;
          while *b.get(i)? != b'}' {
            v = v * 16 + hex(b[i])?;
            i += 1;
            n += 1;
          }
          i += 1;
          if n == 0 || n > 6 || char::from_u32(v).is_none() {
            return None;
          }
          v
        },
        _ => return None,
      });
      continue;
    }
    if c < 0x80 {
      if matches!(c, b'\n' | b'\r' | b'\t') && quote == b'\'' {
        return None;
      }
      out.push(c as u32);
      continue;
    }
    if bytes {
      return None;
    }
    // UTF-8
    let (n, mut v) = match c {
      0xc0..=0xdf => (1, c as u32 & 0x1f),
      0xe0..=0xef => (2, c as u32 & 0xf),
      _ => (3, c as u32 & 7),
    };
    for _ in 0..n {
      v = v << 6 | (*b.get(i)? as u32 & 0x3f);
      i += 1;
    }
    out.push(v);
  }
}

pub fn read(b: &[u8]) -> Option<RLit> {
  if let Some(r) = b.strip_prefix(b"b\"") {
    return Some(RLit::Bytes(quoted(r, b'"', true)?.into_iter().map(|c| c as u8).collect()));
  }
  if let Some(r) = b.strip_prefix(b"\"") {
    let mut s = vec![];
    for c in quoted(r, b'"', false)? {
      super::lit::push_utf8(c, &mut s);
    }
    return Some(RLit::Str(s));
  }
  if let Some(r) = b.strip_prefix(b"b'") {
    let v = quoted(r, b'\'', true)?;
    return (v.len() == 1).then(|| RLit::Num(v[0] as i128, b"u8".to_vec()));
  }
  if let Some(r) = b.strip_prefix(b"'") {
    let v = quoted(r, b'\'', false)?;
    return (v.len() == 1).then(|| RLit::Char(v[0]));
  }
  let mut v = 0i128;
  let mut i = 0;
  while i < b.len() && b[i].is_ascii_digit() {
    v = v * 10 + (b[i] - b'0') as i128;
    i += 1;
  }
  (i > 0).then(|| RLit::Num(v, b[i..].to_vec()))
}
