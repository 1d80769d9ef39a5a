//! Constant integer expressions have the value they have in C.
#![no_main]
use cmacro::{BinaryOp, BuiltInType, Expr, Identifier, Lit, LitInt, MacroToken, Punctuation, UnaryOp, VarMacro};
use cmacro_harness::{entries, sym};

/// An integer of C: value, bits, signedness.
#[derive(Clone, Copy)]
struct C {
  v: i128,
  bits: u32,
  rank: u32,
  signed: bool,
}

impl C {
  fn max(&self) -> i128 {
    (1i128 << (self.bits - self.signed as u32)) - 1
  }
  fn min(&self) -> i128 {
    if self.signed {
      -(1i128 << (self.bits - 1))
    } else {
      0
    }
  }
  fn fits(&self) -> bool {
    self.v >= self.min() && self.v <= self.max()
  }
  fn int(v: bool) -> Self {
    C { v: v as i128, bits: 32, rank: 0, signed: true }
  }
  fn reduced(self, w: &mut Went) -> Self {
    let fits = self.fits();
    if self.signed || !w.wrap {
      sym::assume(fits);
      self
    } else {
      w.wrapped |= !fits;
      self.with(self.v & self.max())
    }
  }
  fn with(self, v: i128) -> Self {
    C { v, ..self }
  }
}

/// What happened on the way.
#[derive(Clone, Copy)]
struct Went {
  /// arithmetic modulo a power of two is allowed,
  wrap: bool,
  /// and took place
  wrapped: bool,
}

const NO_WRAP: Went = Went { wrap: false, wrapped: false };

const SUFFIX: [(Option<BuiltInType>, u32, u32, bool); 9] = [
  (None, 32, 0, true),
  (Some(BuiltInType::UInt), 32, 0, false),
  (Some(BuiltInType::Long), 64, 1, true),
  (Some(BuiltInType::ULong), 64, 1, false),
  (Some(BuiltInType::LongLong), 64, 2, true),
  (Some(BuiltInType::ULongLong), 64, 2, false),
  (Some(BuiltInType::SSizeT), 64, 1, true),
  (Some(BuiltInType::SizeT), 64, 1, false),
  (None, 64, 1, true),
];

/// A literal of C of at most `of` bits.
fn literal(kinds: usize, of: u32) -> (MacroToken<'static>, C) {
  // literals without suffix are `int` or `long`
  let (suffix, bits, rank, signed) = SUFFIX[sym::fork(kinds)];
  let v = if of <= 32 { sym::any_u32() as u64 & ((1 << of) - 1) } else { sym::any_u64() } as i128;
  let c = C { v, bits, rank, signed };
  sym::assume(c.fits());
  if kinds == 9 && suffix.is_none() && rank == 1 {
    sym::assume(v > i32::MAX as i128);
  }
  if sym::verbose() {
    sym::note(&format!("literal {} {:?}", v, suffix));
  }
  (MacroToken::Lit(Lit::Int(LitInt { value: v, suffix })), c)
}

fn convert(x: C, to: C, w: &mut Went) -> C {
  let y = to.with(x.v);
  y.reduced(w)
}

fn promote(a: C, b: C, w: &mut Went) -> (C, C) {
  // the usual arithmetic conversions
  let to = if a.rank > b.rank || (a.rank == b.rank && !a.signed) { a } else { b };
  let other = if a.rank > b.rank || (a.rank == b.rank && !a.signed) { b } else { a };
  let to = if to.signed && !other.signed && to.bits <= other.bits { C { signed: false, ..to } } else { to };
  (convert(a, to, w), convert(b, to, w))
}

fn finish(c: C, w: &mut Went) -> C {
  c.reduced(w)
}

const OPS: [&str; 10] = ["+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"];

fn binary(op: usize, a: C, b: C, w: &mut Went) -> C {
  if op == 5 || op == 6 {
    sym::assume(b.v >= 0 && b.v < a.bits as i128);
    let n = b.v as u32 & 63;
    if op == 6 {
      return a.with(a.v >> n);
    }
    sym::assume(!a.signed || a.v >= 0);
    return finish(a.with(a.v << n), w);
  }
  let (a, b) = promote(a, b, w);
  let v = match op {
    0 => a.v + b.v,
    1 => a.v - b.v,
    2 => a.v.wrapping_mul(b.v),
    3 | 4 => {
      sym::assume(b.v != 0);
      sym::assume(!(a.signed && b.v == -1 && a.v == a.min()));
      return a.with(if op == 3 { a.v / b.v } else { a.v % b.v });
    },
    7 => a.v & b.v,
    8 => a.v ^ b.v,
    _ => a.v | b.v,
  };
  finish(a.with(v), w)
}

fn unary(op: usize, a: C, w: &mut Went) -> C {
  match op {
    0 => finish(a.with(-a.v), w),
    1 => a,
    2 => C::int(a.v == 0),
    _ => finish(a.with(!a.v), w),
  }
}

const UNARY: [&str; 4] = ["-", "+", "!", "~"];

/// The value of what is left of an expression.
fn value(e: &Expr) -> Option<i128> {
  Some(match e {
    Expr::Literal(Lit::Int(i)) => i.value,
    Expr::Unary(u) => {
      let v = value(&u.expr)?;
      match u.op {
        UnaryOp::Minus => v.checked_neg()?,
        UnaryOp::Plus => v,
        UnaryOp::Comp => !v,
        UnaryOp::Not => (v == 0) as i128,
        _ => return None,
      }
    },
    Expr::Binary(b) => {
      let (l, r) = (value(&b.lhs)?, value(&b.rhs)?);
      match b.op {
        BinaryOp::Add => l.checked_add(r)?,
        BinaryOp::Sub => l.checked_sub(r)?,
        BinaryOp::Mul => l.checked_mul(r)?,
        BinaryOp::Div if r != 0 => l.checked_div(r)?,
        BinaryOp::Rem if r != 0 => l.checked_rem(r)?,
        BinaryOp::Shl if r >= 0 && r < 64 => l << r,
        BinaryOp::Shr if r >= 0 && r < 64 => l >> r,
        BinaryOp::BitAnd => l & r,
        BinaryOp::BitOr => l | r,
        BinaryOp::BitXor => l ^ r,
        BinaryOp::Eq => (l == r) as i128,
        BinaryOp::Neq => (l != r) as i128,
        _ => return None,
      }
    },
    _ => return None,
  })
}

fn p(s: &'static str) -> MacroToken<'static> {
  MacroToken::Punctuation(Punctuation::try_from(s).unwrap())
}


fn decide(toks: &[MacroToken], want: C, w: Went) {
  if w.wrapped {
    // unsigned arithmetic wraps around
    sym::known(1);
  }
  sym::opaque_digits(true);
  let Ok(mut m) = VarMacro::parse("V", toks) else {
    sym::check(false, 1);
    return;
  };
  let Ok((ts, _)) = m.generate(()) else {
    sym::check(false, 2);
    return;
  };
  if sym::verbose() {
    sym::note(&format!("generated {}, in C {}", ts, want.v));
  }
  let v = m.value().and_then(value);
  sym::check(v.is_some(), 3);
  sym::check(v == Some(want.v), 4);
  sym::cover(1);
}

/// Any operator, any two literals.
#[no_mangle]
pub extern "C" fn two() {
  let op = sym::fork(10);
  let (a, x) = literal(9, [64, 16][(op == 3 || op == 4) as usize]);
  let (b, y) = literal(9, [64, 12][(op >= 2 && op <= 4) as usize]);
  let mut w = NO_WRAP;
  let c = binary(op, x, y, &mut w);
  decide(&[a, p(OPS[op]), b], c, w);
}

/// Unsigned arithmetic which wraps around.
#[no_mangle]
pub extern "C" fn wraps() {
  let op = sym::fork(2);
  let (a, x) = literal(2, 12);
  let (b, y) = literal(2, 12);
  let mut w = Went { wrap: true, wrapped: false };
  let c = binary(op, x, y, &mut w);
  decide(&[a, p(OPS[op]), b], c, w);
}

/// Prefix operators on operands and on results.
#[no_mangle]
pub extern "C" fn prefixed() {
  let op = sym::fork(10);
  let (l, r, o) = (sym::fork(5), sym::fork(5), sym::fork(5));
  sym::assume((l == 4) as u8 + (r == 4) as u8 + (o == 4) as u8 >= 1);
  let (a, mut x) = literal(2, [64, 7][(op >= 2 && op <= 4) as usize]);
  let (b, mut y) = literal(2, [64, 4][(op >= 2 && op <= 4) as usize]);
  let mut w = NO_WRAP;
  let mut t = vec![];
  if o < 4 {
    t.extend([p(UNARY[o]), p("(")]);
  }
  if l < 4 {
    t.push(p(UNARY[l]));
    x = unary(l, x, &mut w);
  }
  t.extend([a, p(OPS[op])]);
  if r < 4 {
    t.push(p(UNARY[r]));
    y = unary(r, y, &mut w);
  }
  t.push(b);
  let mut c = binary(op, x, y, &mut w);
  if o < 4 {
    t.push(p(")"));
    c = unary(o, c, &mut w);
  }
  decide(&t, c, w);
}

/// Two operators, either way.
fn three(kinds: usize) {
  let (o1, o2) = (sym::fork(10), sym::fork(10));
  let left = sym::fork(2) == 0;
  // dividing differences is too hard
  sym::assume(if left { !(o1 == 1 && (o2 == 3 || o2 == 4)) } else { !(o2 == 1 && (o1 == 3 || o1 == 4)) });
  let hard = |o| o >= 2 && o <= 4;
  let bits = if hard(o1) || hard(o2) { 7 } else { 20 };
  let (a, x) = literal(kinds, bits);
  let (b, y) = literal(kinds, bits.min(8) - 3);
  let (c, z) = literal(kinds, bits.min(8) - 3);
  let mut w = NO_WRAP;
  let v = if left {
    let l = binary(o1, x, y, &mut w);
    binary(o2, l, z, &mut w)
  } else {
    let r = binary(o2, y, z, &mut w);
    binary(o1, x, r, &mut w)
  };
  let t = if left { vec![p("("), a, p(OPS[o1]), b, p(")"), p(OPS[o2]), c] } else { vec![a, p(OPS[o1]), p("("), b, p(OPS[o2]), c, p(")")] };
  decide(&t, v, w);
}

#[no_mangle]
pub extern "C" fn three_ints() {
  three(1)
}

#[no_mangle]
pub extern "C" fn three_deep() {
  three(3)
}

/// A division by zero has no value.
#[no_mangle]
pub extern "C" fn by_zero() {
  let op = 3 + sym::fork(2);
  let (a, _) = literal(9, 64);
  let zero = match sym::fork(3) {
    0 => vec![MacroToken::Lit(Lit::from(0))],
    1 => vec![p("("), MacroToken::Lit(Lit::from(1)), p("-"), MacroToken::Lit(Lit::from(1)), p(")")],
    _ => vec![p("-"), MacroToken::Lit(Lit::from(0))],
  };
  let mut t = vec![a, p(OPS[op])];
  t.extend(zero);
  sym::opaque_digits(true);
  if let Ok(mut m) = VarMacro::parse("V", &t) {
    if m.generate(()).is_ok() {
      sym::check(m.value().and_then(value).is_none(), 8);
    }
  }
  sym::cover(1);
}

fn digits(v: i128) -> Vec<u8> {
  v.to_string().into_bytes()
}

fn text(m: &mut VarMacro) -> Option<Vec<u8>> {
  let (ts, _) = m.generate(()).ok()?;
  if sym::verbose() {
    sym::note(&format!("generated {}", ts));
  }
  Some(ts.to_string().into_bytes().into_iter().filter(|b| *b != b' ').collect())
}

/// A number is written as it is.
#[no_mangle]
pub extern "C" fn written() {
  let v = sym::any_i128();
  let lit = MacroToken::Lit(Lit::Int(LitInt { value: v, suffix: SUFFIX[sym::fork(8)].0 }));
  let mut m = VarMacro::parse("V", &[lit]).unwrap();
  let t = text(&mut m);
  sym::check(t == Some(digits(v)), 5);
  sym::cover(1);
}

const INTS: [(&str, u32, bool); 8] = [
  ("i8", 8, true),
  ("u8", 8, false),
  ("i16", 16, true),
  ("u16", 16, false),
  ("i32", 32, true),
  ("u32", 32, false),
  ("i64", 64, true),
  ("u64", 64, false),
];

const TYPES: [(&[&str], &str); 8] = [
  (&["unsigned", "char"], "c_uchar"),
  (&["signed", "char"], "c_schar"),
  (&["short"], "c_short"),
  (&["unsigned", "int"], "c_uint"),
  (&["int"], "c_int"),
  (&["unsigned", "long"], "c_ulong"),
  (&["float"], "f32"),
  (&["double"], "f64"),
];

/// In a cast, a number has a type which it fits.
#[no_mangle]
pub extern "C" fn casted() {
  let (ty, rust) = TYPES[sym::fork(8)];
  let size = sym::fork(4);
  let v = match size {
    0 => sym::range(0, 255) as i128,
    1 => sym::any_u32() as u16 as i128,
    2 => sym::any_u32() as i128,
    _ => sym::any_u64() as i128,
  };
  let negative = sym::fork(2) == 1;
  // numbers which are this large
  sym::assume(size == 0 || v >= 1 << ((4 << size) - negative as u32));
  let v = if negative { -v } else { v };
  let lit = MacroToken::Lit(Lit::Int(LitInt { value: v, suffix: None }));
  let mut t = vec![p("(")];
  t.extend(ty.iter().map(|s| MacroToken::Identifier(Identifier::try_from(*s).unwrap())));
  t.extend([p(")"), lit]);
  if sym::verbose() {
    sym::note(&format!("literal ({}) {}", ty.join(" "), v));
  }
  let mut m = VarMacro::parse("V", &t).unwrap();
  let Some(t) = text(&mut m) else {
    sym::check(false, 2);
    return;
  };
  let d = digits(v);
  let starts = t.len() > d.len() && t[..d.len()] == d[..];
  sym::check(starts, 5);
  if !starts {
    return;
  }
  let rest = &t[d.len()..];
  let Some(rest) = rest.strip_suffix(rust.as_bytes()) else {
    sym::check(false, 6);
    return;
  };
  let Some(suffix) = rest.strip_suffix(b"as") else {
    sym::check(false, 6);
    return;
  };
  let fits = match INTS.iter().find(|(s, ..)| s.as_bytes() == suffix) {
    Some((_, bits, true)) => v >= -(1 << (bits - 1)) && v < 1 << (bits - 1),
    Some((_, bits, false)) => v >= 0 && v < 1 << bits,
    // not an unsuffixed number, which `as` would have to fit
    None => suffix == b"i128",
  };
  sym::check(fits, 7);
  sym::cover(1);
}

entries![two, wraps, by_zero, written, casted, prefixed, three_ints, three_deep];
