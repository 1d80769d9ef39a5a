//! String literals.
#![no_main]
use cmacro::{Expr, Identifier, Lit, LitString, MacroToken, VarMacro};
use cmacro_harness::refs::lit::{bytes, dwords, push_utf8, quoted, split_prefix, words, Item, Prefix};
use cmacro_harness::{entries, sym};

fn utf8(c: u32, out: &mut Vec<u8>) {
  push_utf8(c, out)
}

/// The code units of a parsed string agree with the reference.
fn same(lit: &LitString, p: Prefix, items: &[Item]) -> bool {
  match (p, lit) {
    (Prefix::None, LitString::Ordinary(b)) => bytes(items).map_or(true, |w| w[..] == b[..]),
    (Prefix::U8, LitString::Utf8(s)) => bytes(items).map_or(true, |w| w[..] == *s.as_bytes()),
    (Prefix::U16, LitString::Utf16(s)) => match words(items) {
      None => true,
      Some(w) => {
        let mut i = 0;
        for u in s.encode_utf16() {
          if i >= w.len() || w[i] != u {
            return false;
          }
          i += 1;
        }
        i == w.len()
      },
    },
    (Prefix::U32, LitString::Utf32(s)) => match dwords(items) {
      None => true,
      Some(w) => {
        let mut u = vec![];
        for c in w {
          utf8(c, &mut u);
        }
        u[..] == *s.as_bytes()
      },
    },
    (Prefix::Wide, LitString::Wide(v)) => dwords(items).map_or(true, |w| w[..] == v[..]),
    _ => false,
  }
}

/// Whether the literal has a value for every element and that value is a valid sequence of characters
/// (the parser may reject UTF literals which are not).
fn plain(p: Prefix, items: &[Item]) -> bool {
  items.iter().all(|i| match *i {
    Item::Chr(_) => true,
    Item::Num(v) => match p {
      Prefix::None => v <= 0xff,
      Prefix::U8 => v <= 0x7f,
      Prefix::U16 | Prefix::U32 => v < 0xd800,
      Prefix::Wide => true,
    },
    Item::Odd => false,
  })
}

fn check(text: &str) {
  if sym::verbose() {
    sym::note(&format!("text {text:?} -> {:?}", LitString::try_from(text)));
  }
  let (p, rest) = split_prefix(text);
  let want = quoted(rest, b'"');
  match LitString::try_from(text) {
    Ok(lit) => {
      let Some(items) = want else {
        sym::check(false, 1);
        return;
      };
      sym::cover(1 + p as u32);
      sym::check(same(&lit, p, &items), 2);
    },
    Err(_) => {
      sym::cover(7);
      sym::check(!want.map_or(false, |i| plain(p, &i)), 3);
    },
  }
}

/// Any ASCII text.
#[no_mangle]
pub extern "C" fn str_free() {
  let mut b = [0u8; 6];
  let n = sym::fork(7);
  sym::ascii(&mut b[..n]);
  check(std::str::from_utf8(&b[..n]).unwrap());
}

/// One element of a string, of any kind.
fn unit(kind: usize, out: &mut Vec<u8>) {
  match kind {
    0 => out.push(sym::range(0, 127) as u8),
    1 => {
      out.push(b'\\');
      out.push(sym::range(0, 127) as u8);
    },
    2 => {
      out.push(b'\\');
      for _ in 0..1 + sym::fork(3) {
        out.push(sym::range(b'0' as usize, b'7' as usize) as u8);
      }
    },
    3 => {
      out.extend_from_slice(b"\\x");
      let n = 1 + sym::fork(5);
      for i in 0..n {
        out.push(match (i + n) % 3 {
          0 => sym::range(b'0' as usize, b'9' as usize) as u8,
          1 => sym::range(b'a' as usize, b'f' as usize) as u8,
          _ => sym::range(b'A' as usize, b'F' as usize) as u8,
        });
      }
    },
    4 => {
      // universal character names of all UTF-8 lengths
      out.extend_from_slice([&b"\\u00"[..], b"\\u07", b"\\ud7", b"\\uFf", b"\\U0001F4", b"\\U0010ff"][sym::fork(6)]);
      out.push(b'9');
      out.push(sym::range(b'a' as usize, b'f' as usize) as u8);
    },
    5 => {
      out.push([0xc2, 0xdf][sym::fork(2)]);
      out.push(sym::range(0x80, 0xbf) as u8);
    },
    6 => {
      out.extend_from_slice([b"\xe1\x80", b"\xef\xbf"][sym::fork(2)]);
      out.push(sym::range(0x80, 0xbf) as u8);
    },
    _ => {
      out.extend_from_slice(b"\xf0\x9f\x8d");
      out.push(sym::range(0x80, 0xbf) as u8);
    },
  }
}

const PREFIX: [&[u8]; 5] = [b"", b"u8", b"u", b"U", b"L"];

/// Two elements of any kinds in every kind of string.
#[no_mangle]
pub extern "C" fn str_two() {
  let mut t = Vec::with_capacity(64);
  t.extend_from_slice(PREFIX[sym::fork(5)]);
  t.push(b'"');
  let a = sym::fork(9);
  if a < 8 {
    unit(a, &mut t);
    unit(sym::fork(8), &mut t);
  }
  t.push(b'"');
  check(std::str::from_utf8(&t).unwrap());
}

/// Three elements: an escape or a character outside ASCII between others.
#[no_mangle]
pub extern "C" fn str_three() {
  let mut t = Vec::with_capacity(64);
  t.extend_from_slice(PREFIX[sym::fork(5)]);
  t.push(b'"');
  let mid = sym::fork(5);
  let first = sym::fork(2);
  if first == 0 {
    t.push(sym::range(b'a' as usize, b'z' as usize) as u8);
  } else {
    t.extend_from_slice(b"\\n");
  }
  match mid {
    0 => t.extend_from_slice("é".as_bytes()),
    1 => t.extend_from_slice(b"\\u00e9"),
    2 => {
      t.push(b'\\');
      t.push(sym::range(b'0' as usize, b'7' as usize) as u8);
    },
    3 => {
      t.extend_from_slice(b"\\x4");
      t.push(sym::range(b'0' as usize, b'9' as usize) as u8);
    },
    _ => t.extend_from_slice("🍌".as_bytes()),
  }
  for _ in 0..2 {
    t.push(sym::range(0x20, 0x7e) as u8);
  }
  t.push(b'"');
  check(std::str::from_utf8(&t).unwrap());
}

/// Adjacent strings.
#[no_mangle]
pub extern "C" fn str_adjacent() {
  let p = [Prefix::None, Prefix::U8, Prefix::U16, Prefix::U32, Prefix::Wide];
  let n = 2 + sym::fork(2);
  let first = sym::fork(5);
  let mut kinds = [first; 3];
  let mut separate = [false; 3];
  for i in 1..n {
    match sym::fork(3) {
      0 => {},
      1 => kinds[i] = 0,
      _ => {
        // prefix as a token of its own
        separate[i] = true;
        kinds[i] = 0;
      },
    }
  }
  let mut all = vec![];
  let mut texts: Vec<Vec<u8>> = vec![];
  for k in kinds.iter().take(n) {
    let mut t = Vec::with_capacity(16);
    t.extend_from_slice(PREFIX[*k]);
    t.push(b'"');
    match sym::fork(4) {
      0 => {},
      1 => {
        let c = sym::range(b'a' as usize, b'z' as usize) as u8;
        t.push(c);
        all.push(Item::Chr(c as u32));
      },
      2 => {
        let c = sym::range(b'0' as usize, b'7' as usize) as u8;
        t.push(b'\\');
        t.push(c);
        all.push(Item::Num((c - b'0') as u32));
      },
      _ => {
        t.extend_from_slice("é".as_bytes());
        all.push(Item::Chr(0xe9));
      },
    }
    t.push(b'"');
    texts.push(t);
  }
  let mut toks = vec![];
  for i in 0..n {
    if separate[i] && first > 0 {
      toks.push(MacroToken::from(Identifier::try_from(["", "u8", "u", "U", "L"][first]).unwrap()));
    }
    let s = std::str::from_utf8(&texts[i]).unwrap();
    toks.push(MacroToken::from(Lit::try_from(s).unwrap()));
  }
  if sym::verbose() {
    sym::note(&format!("tokens {toks:?}"));
  }
  match VarMacro::parse("X", &toks) {
    Ok(m) => {
      sym::cover(1);
      if let Some(Expr::Literal(Lit::String(s))) = m.value() {
        sym::cover(2);
        sym::check(same(s, p[first], &all), 4);
      } else {
        sym::check(false, 5);
      }
    },
    Err(_) => sym::check(false, 6),
  }
}

entries![str_free, str_two, str_three, str_adjacent];
