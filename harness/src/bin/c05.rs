//! Identifiers.
#![no_main]
use cmacro::{FnMacro, Identifier, IdentifierContinue, MacroSet, MacroToken, VarMacro};
use cmacro_harness::pp::text;
use cmacro_harness::{entries, sym};

fn hex(c: u8) -> Option<u32> {
  match c {
    b'0'..=b'9' => Some((c - b'0') as u32),
    b'a'..=b'f' => Some((c - b'a') as u32 + 10),
    b'A'..=b'F' => Some((c - b'A') as u32 + 10),
    _ => None,
  }
}

/// Reference: the characters which the text denotes, if they make up an identifier.
/// `start`: whether the first one has to be able to start an identifier.
fn reference(s: &str, start: bool) -> Option<String> {
  let mut out = String::new();
  let b = s.as_bytes();
  let mut i = 0;
  while i < b.len() {
    let c = if b[i] == b'\\' {
      let n = match b.get(i + 1) {
        Some(b'u') => 4,
        Some(b'U') => 8,
        _ => return None,
      };
      let mut v = 0u32;
      for k in 0..n {
        v = (v << 4) | hex(*b.get(i + 2 + k)?)?;
      }
      i += 2 + n;
      char::from_u32(v)?
    } else {
      let c = s[i..].chars().next()?;
      i += c.len_utf8();
      c
    };
    let first = out.is_empty() && start;
    let ok = if (c as u32) < 128 {
      c == '_' || c.is_ascii_alphabetic() || (!first && c.is_ascii_digit())
    } else if first {
      unicode_ident::is_xid_start(c)
    } else {
      unicode_ident::is_xid_continue(c)
    };
    if !ok {
      return None;
    }
    out.push(c);
  }
  if out.is_empty() {
    None
  } else {
    Some(out)
  }
}

fn check(s: &str) {
  if sym::verbose() {
    sym::note(&format!("{s:?}: {:?} {:?} want {:?}", Identifier::try_from(s), IdentifierContinue::try_from(s), reference(s, true)));
  }
  let (want, got) = (reference(s, true), Identifier::try_from(s));
  sym::check(got.is_ok() == want.is_some(), if got.is_ok() { 1 } else { 2 });
  if let (Some(w), Ok(g)) = (&want, &got) {
    sym::cover(1);
    sym::check(w == g.as_str(), 3);
  } else {
    sym::cover(2);
  }
  let (want, got) = (reference(s, false), IdentifierContinue::try_from(s));
  sym::check(got.is_ok() == want.is_some(), if got.is_ok() { 4 } else { 5 });
  if let (Some(w), Ok(g)) = (&want, &got) {
    sym::cover(3);
    sym::check(w == g.as_str(), 6);
  }
}

/// Every ASCII text.
#[no_mangle]
pub extern "C" fn id_free() {
  let mut b = [0u8; 5];
  let n = sym::fork(6);
  sym::ascii(&mut b[..n]);
  check(text(&b[..n]));
}

/// Every value, a path of its own for each: the tables of characters are only looked up with concrete ones.
fn any(lo: usize, hi: usize) -> usize {
  sym::concrete(sym::range(lo, hi))
}

/// One character of every encoded length, alone, at the start and within.
#[no_mangle]
pub extern "C" fn id_unicode() {
  let mut t = Vec::with_capacity(16);
  t.extend_from_slice([&b""[..], b"a", b"_", b"1"][sym::fork(4)]);
  let len = 2 + sym::fork(3);
  let mut c = [0u8; 4];
  match len {
    2 => c[0] = any(0xc2, 0xdf) as u8,
    3 => {
      c[0] = any(0xe0, 0xef) as u8;
      c[1] = any(0x80, 0xbf) as u8;
      sym::assume(c[0] != 0xe0 || c[1] >= 0xa0);
      sym::assume(c[0] != 0xed || c[1] <= 0x9f);
    },
    _ => {
      c[0] = any(0xf0, 0xf4) as u8;
      c[1] = any(0x80, 0xbf) as u8;
      c[2] = [0x80, 0x8d, 0xbf][sym::fork(3)];
      sym::assume(c[0] != 0xf0 || c[1] >= 0x90);
      sym::assume(c[0] != 0xf4 || c[1] <= 0x8f);
    },
  }
  if len == 3 {
    c[2] = any(0x80, 0xbf) as u8;
  } else if len == 4 {
    c[3] = [0x80, 0x9c, 0xa7, 0xbf][sym::fork(4)];
  } else {
    c[1] = any(0x80, 0xbf) as u8;
  }
  t.extend_from_slice(&c[..len]);
  t.extend_from_slice([&b""[..], b"b"][sym::fork(2)]);
  check(text(&t));
}

/// Every character beyond the basic multilingual plane, at the start and within.
#[no_mangle]
pub extern "C" fn id_astral() {
  let mut t = Vec::with_capacity(16);
  t.extend_from_slice([&b""[..], b"a"][sym::fork(2)]);
  let a = any(0xf0, 0xf4);
  let b = any(0x80, 0xbf);
  sym::assume((a != 0xf0 || b >= 0x90) && (a != 0xf4 || b <= 0x8f));
  t.extend_from_slice(&[a as u8, b as u8, any(0x80, 0xbf) as u8, any(0x80, 0xbf) as u8]);
  check(text(&t));
}

/// Universal character names, at the start and within, with free digits in any position and of any number.
#[no_mangle]
pub extern "C" fn id_ucn() {
  let mut t = Vec::with_capacity(32);
  t.extend_from_slice(["", "a", "é", "\\u00e9"][sym::fork(4)].as_bytes());
  let digits: &mut [u8] = &mut [0; 8];
  let n = if sym::fork(2) == 0 {
    t.extend_from_slice(b"\\u");
    digits[..4].copy_from_slice([b"00e9", b"0041", b"d800", b"3042", b"0030"][sym::fork(5)]);
    4
  } else {
    t.extend_from_slice(b"\\U");
    digits.copy_from_slice([b"00010400", b"0000005f", b"0000dfff", b"00110000", b"000000aa"][sym::fork(5)]);
    8
  };
  let pos = sym::fork(8);
  sym::assume(pos < n);
  // The tables of characters are only looked up with concrete ones.
  digits[pos] = sym::concrete(sym::range(0, 127)) as u8;
  let n = n - sym::fork(2);
  t.extend_from_slice(&digits[..n]);
  let mut last = [0u8; 1];
  if sym::fork(2) == 1 {
    sym::ascii(&mut last);
    t.extend_from_slice(&last);
  }
  check(text(&t));
}

/// Names of macros and of their parameters.
#[no_mangle]
pub extern "C" fn names() {
  let mut b = [0u8; 3];
  let n = sym::fork(4);
  sym::ascii(&mut b[..n]);
  let mut t = b[..n].to_vec();
  t.extend_from_slice(["", "é", "·"][sym::fork(3)].as_bytes());
  let s = text(&t);
  if sym::verbose() {
    sym::note(&format!("{s:?}"));
  }
  let want = reference(s, true);
  let one = [MacroToken::from(cmacro::Lit::from(1))];
  let plain = want.is_some() && !t.contains(&b'\\');
  sym::cover(1 + plain as u32);
  let v = VarMacro::parse(s, &one);
  sym::check(v.is_ok() == plain, 7);
  let f = FnMacro::parse(s, &[], &one);
  sym::check(f.is_ok() == plain, 7);
  if let (Ok(v), Ok(f)) = (v, f) {
    sym::check(v.name() == s && f.name() == s, 8);
  }
  // A parameter is an identifier.
  let mut m = MacroSet::new();
  m.define_fn_macro("f", [s], ["x", s]);
  let got = m.expand_fn_macro("f");
  match (&want, got) {
    (Some(w), Ok((a, b))) if s != "__VA_ARGS__" => {
      sym::check(a.len() == 1 && matches!(&a[0], MacroToken::Identifier(i) if i.as_str() == &w[..]), 9);
      let n = b.len();
      sym::check(n == 2, 9);
      if s != "x" && plain {
        sym::check(matches!(b[1], MacroToken::Arg(_)), 9);
      }
    },
    (Some(_), _) => sym::check(false, 9),
    (None, Ok(_)) => sym::check(s == "..." || s.starts_with("//"), 10),
    (None, Err(_)) => {},
  }
}

entries![id_astral, id_free, id_unicode, id_ucn, names];
