//! Integer literals.
#![no_main]
use cmacro::{BuiltInType, LitInt};
use cmacro_harness::{entries, sym};

/// Reference: the C grammar of integer constants (with the suffixes of C23/C++23 and binary constants).
fn reference(s: &[u8]) -> Option<(i128, Option<BuiltInType>)> {
  let low = |c: u8| if c.is_ascii_uppercase() { c + 32 } else { c };
  let (base, start) = if s.len() >= 2 && s[0] == b'0' {
    match low(s[1]) {
      b'x' => (16u32, 2),
      b'b' => (2, 2),
      _ => (8, 0),
    }
  } else {
    (10, 0)
  };
  let mut i = start;
  let mut v: i128 = 0;
  while i < s.len() {
    let c = low(s[i]);
    let d = if c.is_ascii_digit() {
      (c - b'0') as u32
    } else if base == 16 && (b'a'..=b'f').contains(&c) {
      (c - b'a') as u32 + 10
    } else {
      break;
    };
    if d >= base {
      return None;
    }
    v = v.checked_mul(base as i128)?.checked_add(d as i128)?;
    i += 1;
  }
  if i == start {
    return None;
  }
  let t = match &s[i..] {
    b"" => None,
    b"u" | b"U" => Some(BuiltInType::UInt),
    b"l" | b"L" => Some(BuiltInType::Long),
    b"ll" | b"LL" => Some(BuiltInType::LongLong),
    b"z" | b"Z" => Some(BuiltInType::SSizeT),
    b"ul" | b"uL" | b"Ul" | b"UL" | b"lu" | b"lU" | b"Lu" | b"LU" => Some(BuiltInType::ULong),
    b"ull" | b"uLL" | b"Ull" | b"ULL" | b"llu" | b"llU" | b"LLu" | b"LLU" => Some(BuiltInType::ULongLong),
    b"uz" | b"uZ" | b"Uz" | b"UZ" | b"zu" | b"zU" | b"Zu" | b"ZU" => Some(BuiltInType::SizeT),
    _ => return None,
  };
  Some((v, t))
}

fn one(s: &[u8]) {
  let Ok(text) = std::str::from_utf8(s) else { return };
  if sym::verbose() {
    sym::note(&format!("text {text:?}"));
  }
  let want = reference(s);
  match LitInt::try_from(text) {
    Ok(lit) => {
      sym::cover(3 + lit.suffix.is_some() as u32);
      let Some((v, t)) = want else {
        sym::check(false, 1);
        return;
      };
      sym::cover(1);
      sym::check(lit.value == v, 2);
      sym::check(lit.suffix == t, 3);
    },
    Err(_) => {
      sym::cover(2);
      sym::check(want.is_none(), 4);
    },
  }
}

#[no_mangle]
pub extern "C" fn int_free() {
  let mut b = [0u8; 5];
  let n = sym::fork(6);
  sym::ascii(&mut b[..n]);
  one(&b[..n]);
}

/// Digits of every base in every length up to the range of the value, with every suffix.
#[no_mangle]
pub extern "C" fn int_digits() {
  let mut t = Vec::with_capacity(160);
  let (prefix, base, max): (&[u8], usize, usize) =
    [(&b""[..], 10, 20), (b"0x", 16, 18), (b"0X", 16, 4), (b"0b", 2, 66), (b"0B", 2, 4), (b"0", 8, 24)][sym::fork(6)];
  t.extend_from_slice(prefix);
  let n = 1 + sym::fork(max);
  let rot = if base == 16 { sym::fork(3) } else { 0 };
  for i in 0..n {
    t.push(if base == 2 && i >= 4 && i + 3 < n {
      b'1' as usize - (i & 1)
    } else if base == 16 {
      match (i + rot) % 3 {
        0 => sym::range(b'0' as usize, b'9' as usize),
        1 => sym::range(b'a' as usize, b'f' as usize),
        _ => sym::range(b'A' as usize, b'F' as usize),
      }
    } else {
      sym::range(b'0' as usize, b'0' as usize + base - 1)
    } as u8);
  }
  t.extend_from_slice(SUFFIX[if n == 1 || n == max { sym::fork(SUFFIX.len()) } else { sym::fork(2) }]);
  one(&t);
}

const SUFFIX: [&[u8]; 30] = [
  b"", b"uLL", b"u", b"U", b"l", b"L", b"ll", b"LL", b"z", b"Z", b"ul", b"uL", b"Ul", b"UL", b"lu", b"lU", b"Lu", b"LU", b"ull",
  b"Ull", b"ULL", b"llu", b"llU", b"LLu", b"LLU", b"uz", b"Zu", b"lL", b"ulu", b"lll",
];

/// Around the largest value: more digits than fit are rejected, not truncated.
#[no_mangle]
pub extern "C" fn int_overflow() {
  let texts: [&[u8]; 8] = [
    b"170141183460469231731687303715884105727",
    b"9999999999999999999999999999999999999",
    b"0x7fffffffffffffffffffffffffffffff",
    b"0xffffffffffffffffffffffffffffffff",
    b"01777777777777777777777777777777777777777777",
    b"0b1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111",
    b"18446744073709551615",
    b"0x8000000000000000",
  ];
  let k = sym::fork(8);
  let mut t = texts[k].to_vec();
  // one digit replaced, one digit inserted at the end or not
  let first = if k >= 2 && k <= 7 && k != 6 { if k == 4 { 1 } else { 2 } } else { 0 };
  let n = t.len();
  let pos = [first, n - 1, n / 2][sym::fork(3)];
  t[pos] = sym::range(0x30, 0x39) as u8;
  if sym::fork(2) == 1 {
    t.push(sym::range(0x30, 0x39) as u8);
  }
  if sym::fork(2) == 1 {
    t.extend_from_slice(b"uLL");
  }
  one(&t);
}

/// A character outside ASCII anywhere in a short literal.
#[no_mangle]
pub extern "C" fn int_unicode() {
  let base: [&str; 4] = ["12", "0xaF", "017", "0b1u"];
  let b = base[sym::fork(4)];
  let pos = sym::fork(5);
  sym::assume(pos <= b.len());
  // fullwidth digit, Arabic digit, letters whose case folding is ASCII, characters with an ASCII digit as low byte
  let c = ["０", "٣", "K", "ſ", "İ", "é", "ı", "𝟙"][sym::fork(8)];
  let mut t = b[..pos].as_bytes().to_vec();
  t.extend_from_slice(c.as_bytes());
  t.extend_from_slice(&b.as_bytes()[pos..]);
  one(&t);
}

entries![int_free, int_digits, int_overflow, int_unicode];
