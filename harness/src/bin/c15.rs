//! Constant floating expressions have the value they have in C.
#![no_main]
use cmacro::{BinaryOp, BuiltInType, Expr, Identifier, Lit, LitFloat, LitInt, MacroToken, Punctuation, Type, UnaryOp, VarMacro};
use cmacro_harness::{entries, sym};

/// A number of C.
#[derive(Clone, Copy, Debug)]
enum V {
  I(i128),
  F(f32),
  D(f64),
  L(f64),
}
use V::*;

impl V {
  fn rank(self) -> u8 {
    match self {
      I(_) => 0,
      F(_) => 1,
      D(_) => 2,
      L(_) => 3,
    }
  }
  /// The rounding of C when a number gets a floating type.
  fn to(self, rank: u8) -> V {
    match (rank, self) {
      (1, I(v)) => F(v as f32),
      (1, F(v)) => F(v),
      (1, D(v) | L(v)) => F(v as f32),
      (r, v) => {
        let v = match v {
          I(v) => v as f64,
          F(v) => v as f64,
          D(v) | L(v) => v,
        };
        if r == 2 {
          D(v)
        } else {
          L(v)
        }
      },
    }
  }
  fn is_zero(self) -> bool {
    match self {
      I(v) => v == 0,
      F(v) => v == 0.0,
      D(v) | L(v) => v == 0.0,
    }
  }
  /// The same number; types of the same size are not told apart.
  fn is(self, o: V) -> bool {
    match (self, o) {
      (I(a), I(b)) => a == b,
      (F(a), F(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
      (D(a) | L(a), D(b) | L(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
      _ => false,
    }
  }
}

fn p(s: &'static str) -> MacroToken<'static> {
  MacroToken::Punctuation(Punctuation::try_from(s).unwrap())
}

fn id(s: &'static str) -> MacroToken<'static> {
  MacroToken::Identifier(Identifier::try_from(s).unwrap())
}

const SUFFIX: [Option<BuiltInType>; 5] =
  [None, Some(BuiltInType::UInt), Some(BuiltInType::Long), Some(BuiltInType::ULong), Some(BuiltInType::ULongLong)];

/// Numbers which literals have.
fn float() -> f32 {
  let x = f32::from_bits(sym::any_u32());
  sym::assume(x.to_bits() <= f32::INFINITY.to_bits());
  x
}

fn double() -> f64 {
  let x = f64::from_bits(sym::any_u64());
  sym::assume(x.to_bits() <= f64::INFINITY.to_bits());
  x
}

fn literal(kind: usize, suffixes: bool) -> (MacroToken<'static>, V) {
  let (lit, v) = match kind {
    1 => {
      let x = float();
      (Lit::Float(LitFloat::Float(x)), F(x))
    },
    2 => {
      let x = double();
      (Lit::Float(LitFloat::Double(x)), D(x))
    },
    3 => {
      let x = double();
      (Lit::Float(LitFloat::LongDouble(x)), L(x))
    },
    _ => {
      let suffix = SUFFIX[if suffixes { sym::fork(5) } else { 0 }];
      let x = sym::any_u64() as i128;
      (Lit::Int(LitInt { value: x, suffix }), I(x))
    },
  };
  if sym::verbose() {
    sym::note(&format!("literal {lit:?}"));
  }
  (MacroToken::Lit(lit), v)
}

const OPS: [&str; 10] = ["+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">="];

/// An operator of C.  Comparisons of constants are not evaluated, so there is no need to.
fn binary(op: usize, a: V, b: V) -> V {
  let rank = a.rank().max(b.rank());
  macro_rules! op {
    ($k:ident, $x:ident, $y:ident) => {
      match op {
        0 => $k($x + $y),
        1 => $k($x - $y),
        2 => $k($x * $y),
        3 => $k($x / $y),
        4 => I(($x == $y) as i128),
        5 => I(($x != $y) as i128),
        6 => I(($x < $y) as i128),
        7 => I(($x > $y) as i128),
        8 => I(($x <= $y) as i128),
        _ => I(($x >= $y) as i128),
      }
    };
  }
  match (a.to(rank), b.to(rank)) {
    (F(x), F(y)) => op!(F, x, y),
    (D(x), D(y)) => op!(D, x, y),
    (L(x), L(y)) => op!(L, x, y),
    _ => unreachable!(),
  }
}

fn negative(v: V) -> V {
  match v {
    I(v) => I(-v),
    F(v) => F(-v),
    D(v) => D(-v),
    L(v) => L(-v),
  }
}

fn rank_of(ty: &Type) -> Option<u8> {
  match ty {
    Type::BuiltIn(BuiltInType::Float) => Some(1),
    Type::BuiltIn(BuiltInType::Double | BuiltInType::LongDouble) => Some(2),
    Type::BuiltIn(_) => Some(0),
    Type::Qualified { ty, .. } => rank_of(ty),
    _ => None,
  }
}

/// The number which is left, as Rust understands it.  `None` if it would not compile, or if a
/// literal would have another type, and so another value, than the one it was made for.
fn value(e: &Expr) -> Option<V> {
  Some(match e {
    Expr::Literal(Lit::Int(i)) => I(i.value),
    Expr::Literal(Lit::Float(LitFloat::Float(x))) => F(*x),
    Expr::Literal(Lit::Float(LitFloat::Double(x) | LitFloat::LongDouble(x))) => D(*x),
    Expr::Cast(c) => {
      let v = value(&c.expr)?;
      match (rank_of(&c.ty)?, v) {
        (0, I(v)) => I(v),
        // cuts off the fraction, see `casts`
        (0, _) => return None,
        (r, v) => v.to(r),
      }
    },
    Expr::Unary(u) => {
      let v = value(&u.expr)?;
      match u.op {
        UnaryOp::Minus => negative(v),
        UnaryOp::Plus => v,
        UnaryOp::Not => I(v.is_zero() as i128),
        _ => return None,
      }
    },
    Expr::Ternary(t) => {
      let c = value(&t.condition)?;
      let (a, b) = (value(&t.if_branch)?, value(&t.else_branch)?);
      if a.rank().min(2) != b.rank().min(2) {
        return None;
      }
      if c.is_zero() {
        b
      } else {
        a
      }
    },
    Expr::Binary(b) => {
      let op = match b.op {
        BinaryOp::Add => 0,
        BinaryOp::Sub => 1,
        BinaryOp::Mul => 2,
        BinaryOp::Div => 3,
        BinaryOp::Eq => 4,
        BinaryOp::Neq => 5,
        BinaryOp::Lt => 6,
        BinaryOp::Gt => 7,
        BinaryOp::Lte => 8,
        BinaryOp::Gte => 9,
        _ => return None,
      };
      let (l, r) = (value(&b.lhs)?, value(&b.rhs)?);
      if l.rank() != r.rank() {
        return None;
      }
      if let (I(x), I(y)) = (l, r) {
        match op {
          4 => I((x == y) as i128),
          5 => I((x != y) as i128),
          _ => return None,
        }
      } else {
        binary(op, l, r)
      }
    },
    _ => return None,
  })
}

fn generate(toks: &[MacroToken]) -> Option<(Option<V>, String, String)> {
  sym::opaque_digits(true);
  let mut m = VarMacro::parse("V", toks).ok()?;
  let (ts, ty) = m.generate(()).ok()?;
  let t = ts.to_string();
  let ty = ty.map(|t| t.to_string()).unwrap_or_default();
  if sym::verbose() {
    sym::note(&format!("generated {t} : {ty}"));
  }
  Some((m.value().and_then(value), t, ty))
}

fn decide(toks: &[MacroToken], want: V) {
  if sym::verbose() {
    sym::note(&format!("in C {want:?}"));
  }
  let Some((got, _, ty)) = generate(toks) else {
    sym::check(false, 1);
    return;
  };
  sym::check(got.is_some(), 2);
  let Some(got) = got else { return };
  sym::check(got.is(want), 3);
  let name = match want {
    I(_) => return sym::cover(2),
    F(_) => "f32",
    _ => "f64",
  };
  sym::check(ty == name, 4);
  sym::cover(1);
}

/// Literals of two types, at least one of which is a floating one.
fn kinds() -> (usize, usize) {
  match sym::fork(15) {
    k @ 0..=11 => (k / 4 + 1, k % 4),
    k => (0, k - 11),
  }
}

/// Sums and differences.
#[no_mangle]
pub extern "C" fn sums() {
  let op = sym::fork(2);
  let (k, l) = kinds();
  let (a, x) = literal(k, true);
  let (b, y) = literal(l, true);
  decide(&[a, p(OPS[op]), b], binary(op, x, y));
}

/// Products and quotients.
#[no_mangle]
pub extern "C" fn products() {
  let op = 2 + sym::fork(2);
  let (k, l) = kinds();
  let (a, x) = literal(k, true);
  let (b, y) = literal(l, true);
  decide(&[a, p(OPS[op]), b], binary(op, x, y));
}

/// Comparisons.
#[no_mangle]
pub extern "C" fn comparisons() {
  let op = 4 + sym::fork(6);
  let (k, l) = kinds();
  let (a, x) = literal(k, true);
  let (b, y) = literal(l, true);
  decide(&[a, p(OPS[op]), b], binary(op, x, y));
}

/// Prefix operators.
fn prefixes(kinds: (usize, usize), ops: &[usize]) {
  let (k, l) = kinds;
  let (o1, o2, o3) = (sym::fork(3), sym::fork(3), sym::fork(4));
  sym::assume(o1 + o2 + o3 > 0);
  let op = ops[sym::fork(ops.len())];
  let (a, x) = literal(k, false);
  let (b, y) = literal(l, false);
  let mut t = vec![];
  let prefix = |t: &mut Vec<_>, o: usize, v: V| match o {
    0 => v,
    1 => {
      t.push(p("-"));
      negative(v)
    },
    2 => {
      t.push(p("+"));
      v
    },
    _ => {
      t.push(p("!"));
      I(v.is_zero() as i128)
    },
  };
  let mut inner = vec![];
  let x = prefix(&mut inner, o1, x);
  inner.extend([a, p(OPS[op])]);
  let y = prefix(&mut inner, o2, y);
  inner.push(b);
  let v = prefix(&mut t, o3, binary(op, x, y));
  t.push(p("("));
  t.extend(inner);
  t.push(p(")"));
  decide(&t, v);
}

#[no_mangle]
pub extern "C" fn prefixed() {
  prefixes([(1, 0), (0, 2), (1, 2), (2, 2)][sym::fork(4)], &[0, 3]);
}

#[no_mangle]
pub extern "C" fn prefixed_deep() {
  prefixes(kinds(), &[0, 1, 2, 3]);
}

/// Two operators.
fn nested(ops: &[usize], k: [usize; 3]) {
  let (o1, o2) = (ops[sym::fork(ops.len())], ops[sym::fork(ops.len())]);
  let left = sym::fork(2) == 0;
  // integers among themselves are another matter
  sym::assume(if left { k[0] + k[1] > 0 } else { k[1] + k[2] > 0 });
  let [(a, x), (b, y), (c, z)] = k.map(|k| literal(k, false));
  if left {
    decide(&[p("("), a, p(OPS[o1]), b, p(")"), p(OPS[o2]), c], binary(o2, binary(o1, x, y), z));
  } else {
    decide(&[a, p(OPS[o1]), p("("), b, p(OPS[o2]), c, p(")")], binary(o1, x, binary(o2, y, z)));
  }
}

#[no_mangle]
pub extern "C" fn three() {
  nested(&[1, 2], [[1, 1, 2], [0, 1, 2], [2, 0, 0], [1, 1, 0], [2, 1, 1], [0, 2, 1]][sym::fork(6)]);
}

#[no_mangle]
pub extern "C" fn three_deep() {
  nested(&[0, 1, 2, 3], [sym::fork(4), sym::fork(4), sym::fork(4)]);
}

const TYPES: [(&[&str], &str, u8); 9] = [
  (&["float"], "f32", 1),
  (&["double"], "f64", 2),
  (&["long", "double"], "f64", 3),
  (&["const", "double"], "f64", 2),
  (&["int"], "c_int", 0),
  (&["unsigned"], "c_uint", 0),
  (&["unsigned", "char"], "c_uchar", 0),
  (&["long"], "c_long", 0),
  (&["short", "int"], "c_short", 0),
];

fn cast(ty: &[&'static str]) -> Vec<MacroToken<'static>> {
  let mut t = vec![p("(")];
  t.extend(ty.iter().map(|s| id(s)));
  t.push(p(")"));
  t
}

/// Casts of literals.
#[no_mangle]
pub extern "C" fn casts() {
  let (ty, rust, rank) = TYPES[sym::fork(9)];
  let k = sym::fork(4);
  sym::assume(k > 0 || rank > 0);
  let minus = sym::fork(2) == 1;
  let (a, v) = literal(k, true);
  let v = if minus { negative(v) } else { v };
  let mut t = cast(ty);
  if minus {
    t.push(p("-"));
  }
  t.push(a);
  if rank > 0 {
    decide(&t, v.to(rank));
  }
  let Some((_, text, ty)) = generate(&t) else {
    sym::check(false, 1);
    return;
  };
  // Without a suffix, the literal is an `f64`.
  let Some((lit, to)) = text.split_once(" as ") else {
    sym::check(false, 5);
    return;
  };
  sym::check(to == rust && ty == rust, 5);
  let special = lit.ends_with("INFINITY") && lit.starts_with(if k == 1 { "f32 ::" } else { "f64 ::" });
  match k {
    0 => (),
    1 => sym::check(special || lit.ends_with("f32"), 6),
    _ => sym::check(special || !lit.ends_with("f32"), 6),
  }
  sym::cover(3);
}

fn with_cast(ops: &[usize], ty: &[&'static str], (a, x): (MacroToken<'static>, V), (b, y): (MacroToken<'static>, V)) {
  let op = ops[sym::fork(ops.len())];
  let mut t = cast(ty);
  t.push(a);
  let v = if sym::fork(2) == 1 {
    t.insert(0, p(OPS[op]));
    t.insert(0, b);
    binary(op, y, x)
  } else {
    t.extend([p(OPS[op]), b]);
    binary(op, x, y)
  };
  decide(&t, v);
}

/// Operands which are casts to floating types.
fn float_casts(ops: &[usize]) {
  let (ty, _, rank) = TYPES[sym::fork(3)];
  let (a, x) = literal(sym::fork(4), false);
  with_cast(ops, ty, (a, x.to(rank)), literal(sym::fork(4), false));
}

#[no_mangle]
pub extern "C" fn cast_operands() {
  float_casts(&[1, 4]);
}

#[no_mangle]
pub extern "C" fn cast_operands_deep() {
  float_casts(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
}

/// An integer of a known type and a floating literal.
fn integer_casts(ops: &[usize]) {
  let (ty, _, _) = TYPES[4 + sym::fork(5)];
  with_cast(ops, ty, literal(0, false), literal(1 + sym::fork(3), false));
}

#[no_mangle]
pub extern "C" fn cast_integers() {
  integer_casts(&[0, 6]);
}

#[no_mangle]
pub extern "C" fn cast_integers_deep() {
  integer_casts(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
}

/// The conditional operator: the type does not depend on the condition.
#[no_mangle]
pub extern "C" fn conditional() {
  let (k, l) = kinds();
  let c = sym::fork(3);
  let (a, x) = literal(k, true);
  let (b, y) = literal(l, true);
  let rank = x.rank().max(y.rank());
  let cond = match c {
    0 => vec![MacroToken::Lit(Lit::from(0))],
    1 => vec![MacroToken::Lit(Lit::from(1))],
    _ => vec![p("("), MacroToken::Lit(Lit::from(1)), p("=="), MacroToken::Lit(Lit::from(2)), p(")")],
  };
  let mut t = cond;
  t.extend([p("?"), a, p(":"), b]);
  decide(&t, if c == 1 { x } else { y }.to(rank));
}

entries![
  sums, products, comparisons, prefixed, prefixed_deep, three, three_deep, casts, cast_operands, cast_operands_deep, cast_integers,
  cast_integers_deep, conditional
];
