//! Character and string literals (C23 6.4.4.5, 6.4.5).

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Prefix {
  None,
  U8,
  U16,
  U32,
  Wide,
}

/// One element of a literal: a numeric escape (a code unit) or a character.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Item {
  Num(u32),
  Chr(u32),
  /// Outside of what the standard gives a value to (out-of-range escapes, surrogates).
  Odd,
}

fn hex(c: u32) -> Option<u32> {
  if (0x30..=0x39).contains(&c) {
    Some(c - 0x30)
  } else if (0x41..=0x46).contains(&c) {
    Some(c - 0x41 + 10)
  } else if (0x61..=0x66).contains(&c) {
    Some(c - 0x61 + 10)
  } else {
    None
  }
}

pub fn split_prefix(s: &str) -> (Prefix, &str) {
  let b = s.as_bytes();
  if b.len() >= 2 && b[0] == b'u' && b[1] == b'8' {
    return (Prefix::U8, &s[2..]);
  }
  match b.first() {
    Some(b'u') => (Prefix::U16, &s[1..]),
    Some(b'U') => (Prefix::U32, &s[1..]),
    Some(b'L') => (Prefix::Wide, &s[1..]),
    _ => (Prefix::None, s),
  }
}

/// The elements between the quotes, or `None` if `s` is not a complete quoted sequence.
pub fn quoted(s: &str, quote: u8) -> Option<Vec<Item>> {
  let mut it: Vec<u32> = Vec::new();
  for c in s.chars() {
    it.push(c as u32);
  }
  let q = quote as u32;
  if it.len() < 2 || it[0] != q {
    return None;
  }
  let mut out = Vec::new();
  let mut i = 1;
  loop {
    let c = *it.get(i)?;
    i += 1;
    if c == q {
      return if i == it.len() { Some(out) } else { None };
    }
    if c == 10 {
      return None;
    }
    if c != 0x5c {
      out.push(Item::Chr(c));
      continue;
    }
    let e = *it.get(i)?;
    i += 1;
    let simple = match e {
      0x61 => Some(7),
      0x62 => Some(8),
      0x65 => Some(0x1b),
      0x66 => Some(0xc),
      0x6e => Some(10),
      0x72 => Some(13),
      0x74 => Some(9),
      0x76 => Some(11),
      0x5c | 0x27 | 0x22 | 0x3f => Some(e),
      _ => None,
    };
    if let Some(v) = simple {
      out.push(Item::Chr(v));
      continue;
    }
    if (0x30..=0x37).contains(&e) {
      let mut v = e - 0x30;
      let mut n = 1;
      while n < 3 {
        match it.get(i) {
          Some(d) if (0x30..=0x37).contains(d) => {
            v = v * 8 + (d - 0x30);
            i += 1;
            n += 1;
          },
          _ => break,
        }
      }
      out.push(Item::Num(v));
      continue;
    }
    if e == 0x78 {
      let mut v = 0u64;
      let mut n = 0;
      while let Some(d) = it.get(i).copied().and_then(hex) {
        if n < 9 {
          v = v * 16 + d as u64;
        }
        i += 1;
        n += 1;
      }
      if n == 0 {
        return None;
      }
      out.push(if n <= 8 { Item::Num(v as u32) } else { Item::Odd });
      continue;
    }
    if e == 0x75 || e == 0x55 {
      let n = if e == 0x75 { 4 } else { 8 };
      let mut v = 0u32;
      for _ in 0..n {
        let d = it.get(i).copied().and_then(hex)?;
        v = v << 4 | d;
        i += 1;
      }
      out.push(if v > 0x10ffff || (0xd800..=0xdfff).contains(&v) { Item::Odd } else { Item::Chr(v) });
      continue;
    }
    return None;
  }
}

pub fn push_utf8(c: u32, out: &mut Vec<u8>) {
  if c < 0x80 {
    out.push(c as u8);
  } else if c < 0x800 {
    out.push(0xc0 | (c >> 6) as u8);
    out.push(0x80 | (c & 63) as u8);
  } else if c < 0x10000 {
    out.push(0xe0 | (c >> 12) as u8);
    out.push(0x80 | (c >> 6 & 63) as u8);
    out.push(0x80 | (c & 63) as u8);
  } else {
    out.push(0xf0 | (c >> 18) as u8);
    out.push(0x80 | (c >> 12 & 63) as u8);
    out.push(0x80 | (c >> 6 & 63) as u8);
    out.push(0x80 | (c & 63) as u8);
  }
}

/// Code units of a literal with 8-bit elements.
pub fn bytes(items: &[Item]) -> Option<Vec<u8>> {
  let mut r = vec![];
  for i in items {
    match *i {
      Item::Num(v) if v <= 0xff => r.push(v as u8),
      Item::Chr(c) => push_utf8(c, &mut r),
      _ => return None,
    }
  }
  Some(r)
}

/// Code units of a literal with 16-bit elements.
pub fn words(items: &[Item]) -> Option<Vec<u16>> {
  let mut r = vec![];
  for i in items {
    match *i {
      Item::Num(v) if v <= 0xffff => r.push(v as u16),
      Item::Chr(c) if c < 0x10000 => r.push(c as u16),
      Item::Chr(c) => {
        let d = c - 0x10000;
        r.push(0xd800 + (d >> 10) as u16);
        r.push(0xdc00 + (d & 0x3ff) as u16);
      },
      _ => return None,
    }
  }
  Some(r)
}

/// Code units of a literal with 32-bit elements.
pub fn dwords(items: &[Item]) -> Option<Vec<u32>> {
  let mut r = vec![];
  for i in items {
    match *i {
      Item::Num(v) => r.push(v),
      Item::Chr(c) => r.push(c),
      Item::Odd => return None,
    }
  }
  Some(r)
}
