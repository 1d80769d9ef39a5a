//! Expression trees shared by the C and the Rust reader.
//!
//! Both readers normalise to C's view: what C leaves to the reader (`!x` is `x == 0`, `p[i]` is `*(p + i)`,
//! `p->f` is `(*p).f`, `x` as a condition is `x != 0`, constant operands) looks the same in both trees.

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum N {
  Leaf(Vec<u8>),
  Int(i128),
  Op(&'static str, Vec<N>),
}

pub fn leaf(b: &[u8]) -> N {
  N::Leaf(b.to_vec())
}

/// Whether an expression has a truth value in Rust.
pub fn boolish(n: &N) -> bool {
  match n {
    N::Op(op, k) => match *op {
      "<" | "<=" | ">" | ">=" | "==" | "!=" | "&&" | "||" => true,
      "&" | "|" | "^" => boolish(&k[0]) || boolish(&k[1]),
      "?:" => boolish(&k[1]) || boolish(&k[2]),
      "=" | "," => boolish(&k[1]),
      _ => false,
    },
    N::Leaf(b) => b == b"true" || b == b"false",
    N::Int(_) => false,
  }
}

pub fn bin(op: &'static str, l: N, r: N) -> N {
  if let (N::Int(a), N::Int(b)) = (&l, &r) {
    let (a, b) = (*a, *b);
    let small = |x: i128| x >= 0 && x < 32;
    let v = match op {
      "+" => a.checked_add(b),
      "-" => a.checked_sub(b),
      "*" => a.checked_mul(b),
      "/" if b != 0 => a.checked_div(b),
      "%" if b != 0 => a.checked_rem(b),
      "<<" if small(b) => Some(a << b),
      ">>" if small(b) => Some(a >> b),
      "&" => Some(a & b),
      "|" => Some(a | b),
      "^" => Some(a ^ b),
      _ => None,
    };
    if let Some(v) = v {
      return N::Int(v);
    }
  }
  N::Op(op, vec![l, r])
}

/// The value of a comparison of constants is known.
pub fn settle(n: N) -> N {
  if let N::Op(op, k) = &n {
    if let [N::Int(a), N::Int(b)] = k[..] {
      let v = match *op {
        "<" => a < b,
        "<=" => a <= b,
        ">" => a > b,
        ">=" => a >= b,
        "==" => a == b,
        "!=" => a != b,
        _ => return n,
      };
      return N::Int(v as i128);
    }
  }
  n
}

/// `!x`
pub fn not(x: N) -> N {
  N::Op("==", vec![x, N::Int(0)])
}

/// A condition, `x` or `x != 0`.
pub fn cond(x: N) -> N {
  match x {
    N::Op("!=", mut k) if k[1] == N::Int(0) => k.swap_remove(0),
    x => x,
  }
}

pub fn un(op: &'static str, x: N) -> N {
  match (op, &x) {
    ("-", N::Int(i)) => N::Int(-*i),
    ("~", N::Int(i)) => N::Int(!*i),
    ("+", N::Leaf(_) | N::Op("u*" | ".", _)) => N::Op("u+", vec![x]),
    ("+", _) => x,
    ("u*", N::Op("u&", k)) => k[0].clone(),
    _ => N::Op(op, vec![x]),
  }
}

/// Constant comparisons anywhere count as their value.
pub fn settled(n: N) -> N {
  match n {
    N::Op(op, k) => {
      let mut k: Vec<N> = k.into_iter().map(settled).collect();
      match (op, k.len()) {
        // only remembered as it is no place
        ("u+", 1) => k.remove(0),
        ("-", 1) => un("-", k.remove(0)),
        ("~", 1) => un("~", k.remove(0)),
        ("?:", _) => {
          let c = cond(k.remove(0));
          k.insert(0, c);
          N::Op(op, k)
        },
        (_, 2) => {
          let r = k.pop().unwrap();
          let l = k.pop().unwrap();
          // x = x + y
          if op == "=" && !effects(&l) {
            if let N::Op(o, j) = &r {
              if let (Some(o), true) = (assigning(o), j.len() == 2 && j[0] == l) {
                return N::Op(o, vec![l, j[1].clone()]);
              }
            }
          }
          settle(bin(op, l, r))
        },
        _ => N::Op(op, k),
      }
    },
    n => n,
  }
}

impl N {
  /// Whether some part of an expression satisfies a condition.
  pub fn any(&self, f: &dyn Fn(&N) -> bool) -> bool {
    f(self)
      || match self {
        N::Op(_, k) => k.iter().any(|n| n.any(f)),
        _ => false,
      }
  }
  pub fn is(&self, op: &str) -> bool {
    matches!(self, N::Op(o, _) if *o == op)
  }
}

/// Constant operations which are undefined in C.
pub fn undefined(n: &N) -> bool {
  n.any(&|n| match n {
    N::Op("/" | "%", k) => k[1] == N::Int(0),
    N::Op("<<" | ">>", k) if k.len() == 2 => matches!(k[1], N::Int(i) if i < 0 || i > 31),
    _ => false,
  })
}

/// Assignments and addresses need something that has an address.
pub fn constraints(n: &N) -> bool {
  !n.any(&|n| match n {
    N::Op("p++" | "p--" | "u&" | "=" | "+=" | "-=" | "*=" | "/=" | "%=" | "<<=" | ">>=" | "&=" | "^=" | "|=", k) => {
      !matches!(&k[0], N::Leaf(_) | N::Op("u*" | "v*" | ".", _))
    },
    _ => false,
  })
}

/// Arithmetic with truth values, which Rust does not have.
fn mixed(n: &N) -> bool {
  match n {
    N::Op("-" | "+" | "*" | "/" | "%" | "<<" | ">>" | "~" | "&" | "|" | "^" | "?:" | "=", k) => k.iter().any(|n| boolish(n) || mixed(n)),
    N::Op("p++" | "p--" | "+=" | "-=" | "u*", k) => mixed(&k[0]),
    _ => false,
  }
}

/// Arithmetic with truth values whose result is taken for a truth value or complemented.
pub fn truth_as_number(n: &N) -> bool {
  n.any(&|n| match n {
    N::Op("==", k) if k[1] == N::Int(0) => mixed(&k[0]) && !boolish(&k[0]),
    N::Op("?:", k) => mixed(&k[0]) && !boolish(&k[0]),
    N::Op("~", k) => boolish(&k[0]) || mixed(&k[0]),
    _ => false,
  })
}

/// The assignment which applies an operator.
pub fn assigning(op: &str) -> Option<&'static str> {
  const OPS: [&str; 10] = ["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="];
  OPS.into_iter().find(|o| &o[..o.len() - 1] == op)
}

/// Whether it matters how often an expression is evaluated.
pub fn effects(n: &N) -> bool {
  n.any(&|n| match n {
    N::Op(op, _) => matches!(
      *op,
      "p++" | "p--" | "=" | "+=" | "-=" | "*=" | "/=" | "%=" | "<<=" | ">>=" | "&=" | "^=" | "|=" | "call" | "block" | "let"
    ),
    _ => false,
  })
}
