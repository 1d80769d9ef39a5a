//! Floating-point literals.
#![no_main]
use cmacro::{Lit, LitFloat, MacroToken, VarMacro};
use cmacro_harness::{entries, sym};

/// Reference: the C grammar of decimal floating constants.  Length of the number and the suffix.
fn grammar(s: &[u8]) -> Option<(usize, u8)> {
  let mut i = 0;
  let mut before = 0;
  while i < s.len() && s[i].is_ascii_digit() {
    i += 1;
    before += 1;
  }
  let mut after = 0;
  let mut dot = false;
  if i < s.len() && s[i] == b'.' {
    dot = true;
    i += 1;
    while i < s.len() && s[i].is_ascii_digit() {
      i += 1;
      after += 1;
    }
  }
  if before + after == 0 {
    return None;
  }
  let mut exp = false;
  if i < s.len() && (s[i] == b'e' || s[i] == b'E') {
    exp = true;
    i += 1;
    if i < s.len() && (s[i] == b'+' || s[i] == b'-') {
      i += 1;
    }
    let st = i;
    while i < s.len() && s[i].is_ascii_digit() {
      i += 1;
    }
    if st == i {
      return None;
    }
  }
  if !dot && !exp {
    return None;
  }
  match s.len() - i {
    0 => Some((i, 0)),
    1 => match s[i] {
      b'f' | b'F' => Some((i, b'f')),
      b'l' | b'L' => Some((i, b'l')),
      _ => None,
    },
    _ => None,
  }
}

fn check(text: &str, render: bool) {
  if sym::verbose() {
    sym::note(&format!("text {text:?} -> {:?}", LitFloat::try_from(text)));
  }
  let want = grammar(text.as_bytes());
  let got = LitFloat::try_from(text);
  sym::check(got.is_ok() == want.is_some(), if got.is_ok() { 1 } else { 2 });
  let (Ok(lit), Some((n, suffix))) = (got, want) else {
    sym::cover(4);
    return;
  };
  let number = &text[..n];
  match (suffix, lit) {
    (0, LitFloat::Double(v)) => {
      sym::cover(1);
      sym::check(v.to_bits() == number.parse::<f64>().unwrap().to_bits(), 3);
    },
    (b'f', LitFloat::Float(v)) => {
      sym::cover(2);
      sym::check(v.to_bits() == number.parse::<f32>().unwrap().to_bits(), 3);
    },
    (b'l', LitFloat::LongDouble(v)) => {
      sym::cover(3);
      sym::check(v.to_bits() == number.parse::<f64>().unwrap().to_bits(), 3);
    },
    _ => sym::check(false, 4),
  }
  if render {
    // The generated constant denotes the same number.
    let mut m = VarMacro::parse("X", &[MacroToken::from(Lit::Float(lit))]).unwrap();
    let (t, _) = m.generate(()).unwrap();
    let t = t.to_string();
    if sym::verbose() {
      sym::note(&format!("generated {t}"));
    }
    let inf = |v: f64| if v.is_infinite() { Some(v > 0.0) } else { None };
    match lit {
      LitFloat::Float(v) => match inf(v as f64) {
        Some(_) => {
          sym::cover(5);
          sym::check(t == "f32 :: INFINITY", 5)
        },
        None => sym::check(t.contains('.') && t.parse::<f32>().map_or(false, |x| x.to_bits() == v.to_bits()), 5),
      },
      LitFloat::Double(v) | LitFloat::LongDouble(v) => match inf(v) {
        Some(_) => {
          sym::cover(6);
          sym::check(t == "f64 :: INFINITY", 5)
        },
        None => sym::check(t.contains('.') && t.parse::<f64>().map_or(false, |x| x.to_bits() == v.to_bits()), 5),
      },
    }
  }
}

/// Any ASCII text.
#[no_mangle]
pub extern "C" fn float_free() {
  let mut b = [0u8; 5];
  let n = sym::fork(6);
  sym::ascii(&mut b[..n]);
  check(std::str::from_utf8(&b[..n]).unwrap(), false);
}

fn digits(n: usize, t: &mut Vec<u8>) {
  for _ in 0..n {
    t.push(sym::range(b'0' as usize, b'9' as usize) as u8);
  }
}

/// Every form of the grammar with up to three free digits.
#[no_mangle]
pub extern "C" fn float_forms() {
  let mut t = Vec::with_capacity(32);
  match sym::fork(5) {
    0 => {
      digits(2, &mut t);
      t.push(b'.');
    },
    1 => {
      t.push(b'.');
      digits(2, &mut t);
    },
    2 => {
      digits(1, &mut t);
      t.push(b'.');
      digits(1, &mut t);
    },
    3 => {
      digits(1, &mut t);
      t.extend_from_slice(b"2.50");
      digits(1, &mut t);
    },
    _ => digits(2, &mut t),
  }
  match sym::fork(6) {
    0 => {},
    1 => {
      t.push(b'e');
      digits(1, &mut t);
    },
    2 => {
      t.extend_from_slice(b"E+");
      digits(1, &mut t);
    },
    3 => {
      t.extend_from_slice(b"e-");
      digits(1, &mut t);
    },
    4 => t.extend_from_slice(b"e-310"),
    _ => t.extend_from_slice(b"E309"),
  }
  t.extend_from_slice([&b""[..], b"f", b"F", b"l", b"L", b"fl", b"u"][sym::fork(7)]);
  check(std::str::from_utf8(&t).unwrap(), false);
}

/// Generated text of numbers over the whole range of exponents.
#[no_mangle]
pub extern "C" fn float_render() {
  let mut t = Vec::with_capacity(32);
  digits(1, &mut t);
  t.extend_from_slice([&b"."[..], b".1", b".0000001", b".3333333333333333", b"99999999.5"][sym::fork(5)]);
  digits(1, &mut t);
  t.extend_from_slice([&b""[..], b"e9", b"e-9", b"e22", b"e38", b"e39", b"e308", b"e309", b"e-40", b"e-46", b"e-320", b"e-330"][sym::fork(12)]);
  t.extend_from_slice([&b""[..], b"f", b"L"][sym::fork(3)]);
  check(std::str::from_utf8(&t).unwrap(), true);
}

/// Numbers next to the middle between two floats or two doubles, where rounding is decided.
#[no_mangle]
pub extern "C" fn float_midpoint() {
  let mut t = Vec::with_capacity(96);
  t.extend_from_slice(
    [
      // 1 + 2^-24, 2^24 + 1, the same for doubles, largest float and double plus half a step, half the smallest ones.
      &b"1.000000059604644775390625"[..],
      b"16777217.",
      b"1.00000000000000011102230246251565404236316680908203125",
      b"9007199254740993.",
      b"340282356779733661637539395458142568447.",
      b"0.00000000000000000000000000000000000000000000070064923216240853546186479164495806564013097093825788587853",
    ][sym::fork(6)],
  );
  match sym::fork(3) {
    0 => {},
    1 => digits(2, &mut t),
    _ => {
      t.extend_from_slice(b"00000000000000");
      digits(2, &mut t);
    },
  }
  t.extend_from_slice([&b""[..], b"f", b"L"][sym::fork(3)]);
  check(std::str::from_utf8(&t).unwrap(), true);
}

/// A character outside ASCII in a literal.
#[no_mangle]
pub extern "C" fn float_unicode() {
  let b = ["1.5", "1e5", ".5f"][sym::fork(3)];
  let pos = sym::fork(4);
  let c = ["０", "٣", "é", "．", "ｅ", "−"][sym::fork(6)];
  let mut t = b[..pos].as_bytes().to_vec();
  t.extend_from_slice(c.as_bytes());
  t.extend_from_slice(&b.as_bytes()[pos..]);
  check(std::str::from_utf8(&t).unwrap(), false);
}

entries![float_midpoint, float_free, float_forms, float_render, float_unicode];
