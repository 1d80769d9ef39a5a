//! Character literals.
#![no_main]
use cmacro::LitChar;
use cmacro_harness::refs::lit::{quoted, split_prefix, Item, Prefix};
use cmacro_harness::{entries, sym};

fn check(text: &str) {
  if sym::verbose() {
    sym::note(&format!("text {text:?} -> {:?}", LitChar::try_from(text)));
  }
  let (p, rest) = split_prefix(text);
  let want = quoted(rest, b'\'').filter(|i| i.len() == 1).map(|i| i[0]);
  match LitChar::try_from(text) {
    Ok(lit) => {
      let Some(item) = want else {
        sym::check(false, 1);
        return;
      };
      let (v, numeric) = match item {
        Item::Num(v) => (v, true),
        Item::Chr(v) => (v, false),
        // not given a value by the standard
        Item::Odd => return,
      };
      sym::cover(1 + p as u32);
      let _ = numeric;
      match (p, lit) {
        (Prefix::None, LitChar::Ordinary(c)) => {
          sym::check(c as u32 == v, 2);
          sym::obs(c as u64);
        },
        (Prefix::U8, LitChar::Utf8(c)) => {
          sym::check(c as u32 == v, 2);
        },
        (Prefix::U16, LitChar::Utf16(c)) => {
          sym::check(c as u32 == v, 2);
        },
        (Prefix::U32, LitChar::Utf32(c)) => {
          sym::check(c == v, 2);
        },
        (Prefix::Wide, LitChar::Wide(c)) => {
          sym::check(c == v, 2);
        },
        _ => sym::check(false, 3),
      }
    },
    Err(_) => {
      sym::cover(7);
      // Every single character which fits the type has to be accepted.
      let fits = match (want, p) {
        (None | Some(Item::Odd), _) => false,
        (Some(Item::Num(v) | Item::Chr(v)), Prefix::None) => v <= 0xff,
        (Some(Item::Num(v) | Item::Chr(v)), Prefix::U8) => v <= 0x7f,
        (Some(Item::Num(v) | Item::Chr(v)), Prefix::U16) => v <= 0xffff,
        (Some(Item::Num(_) | Item::Chr(_)), Prefix::U32 | Prefix::Wide) => true,
      };
      sym::check(!fits, 4);
    },
  }
}

/// Any ASCII text.
#[no_mangle]
pub extern "C" fn char_free() {
  let mut b = [0u8; 5];
  let n = sym::fork(6);
  sym::ascii(&mut b[..n]);
  check(std::str::from_utf8(&b[..n]).unwrap());
}

fn prefixed(content: &[u8], f: fn(&str)) {
  let mut t = Vec::with_capacity(32);
  t.extend_from_slice([&b""[..], b"u8", b"u", b"U", b"L"][sym::fork(5)]);
  t.push(b'\'');
  t.extend_from_slice(content);
  t.push(b'\'');
  f(std::str::from_utf8(&t).unwrap());
}

/// `\` followed by any ASCII text, in quotes, with every prefix.
#[no_mangle]
pub extern "C" fn char_escape() {
  let mut b = [0u8; 5];
  b[0] = b'\\';
  let n = 1 + sym::fork(5);
  sym::ascii(&mut b[1..n]);
  prefixed(&b[..n], check);
}

/// Universal character names: digits of all three kinds in every position, one free character.
#[no_mangle]
pub extern "C" fn char_ucn() {
  let mut b = [0u8; 10];
  b[0] = b'\\';
  let long = sym::fork(2);
  let n = if long == 1 {
    b[1] = b'U';
    b[2] = b'0';
    b[3] = b'0';
    b[4] = [b'0', b'1', b'f', b'g'][sym::fork(4)];
    10
  } else {
    b[1] = b'u';
    6
  };
  let k = 2 + 3 * long;
  let rot = sym::fork(3);
  let free = k + sym::fork(n - k + 1);
  for i in k..n {
    b[i] = if i == free {
      sym::range(0, 127) as u8
    } else {
      match (i + rot) % 3 {
        0 => sym::range(b'0' as usize, b'9' as usize) as u8,
        1 => sym::range(b'a' as usize, b'f' as usize) as u8,
        _ => sym::range(b'A' as usize, b'F' as usize) as u8,
      }
    };
  }
  prefixed(&b[..n], check);
}

/// Hexadecimal escapes of up to nine digits.
#[no_mangle]
pub extern "C" fn char_hex() {
  let mut b = [0u8; 11];
  b[0] = b'\\';
  b[1] = b'x';
  let n = 2 + sym::fork(10);
  for x in &mut b[2..n] {
    *x = sym::range(b'0' as usize, b'9' as usize) as u8;
    if n < 8 && sym::fork(2) == 1 {
      sym::assume(*x <= b'5');
      *x += b'a' - b'0';
    }
  }
  prefixed(&b[..n], check);
}

/// One character outside ASCII, unescaped.
#[no_mangle]
pub extern "C" fn char_unicode() {
  let mut b = [0u8; 4];
  let n = match sym::fork(3) {
    0 => {
      b[0] = sym::range(0xc2, 0xdf) as u8;
      2
    },
    1 => {
      b[0] = sym::range(0xe1, 0xec) as u8;
      3
    },
    _ => {
      b[0] = sym::range(0xf1, 0xf3) as u8;
      4
    },
  };
  for x in &mut b[1..n] {
    *x = sym::range(0x80, 0xbf) as u8;
  }
  prefixed(&b[..n], check);
}

entries![char_free, char_escape, char_ucn, char_hex, char_unicode];
