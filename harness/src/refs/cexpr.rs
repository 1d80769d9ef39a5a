//! Reader for C expressions (C11 6.5), without `&&`, `||` and `,` and with looser left sides of assignments.
use super::tree::{bin, cond, leaf, not, un, N};

/// Names which denote types.
pub type IsType = fn(&[u8]) -> bool;

pub struct C<'a> {
  toks: &'a [&'a [u8]],
  pos: usize,
  is_type: IsType,
  /// Parenthesised names before what can be the right side of a binary operator as well as an operand.
  pub ambiguous: bool,
  /// A parenthesised name which is no type before a call.
  pub call_name: bool,
  /// Casts to names which are no known types.
  pub cast_name: bool,
}

type R = Result<N, ()>;

const BIN: [(&[u8], &str, u8); 16] = [
  (b"*", "*", 10),
  (b"/", "/", 10),
  (b"%", "%", 10),
  (b"+", "+", 9),
  (b"-", "-", 9),
  (b"<<", "<<", 8),
  (b">>", ">>", 8),
  (b"<", "<", 7),
  (b"<=", "<=", 7),
  (b">", ">", 7),
  (b">=", ">=", 7),
  (b"==", "==", 6),
  (b"!=", "!=", 6),
  (b"&", "&", 5),
  (b"^", "^", 4),
  (b"|", "|", 3),
];

const ASSIGN: [(&[u8], &str); 11] = [
  (b"=", "="),
  (b"+=", "+="),
  (b"-=", "-="),
  (b"*=", "*="),
  (b"/=", "/="),
  (b"%=", "%="),
  (b"<<=", "<<="),
  (b">>=", ">>="),
  (b"&=", "&="),
  (b"^=", "^="),
  (b"|=", "|="),
];

fn is_name(t: &[u8]) -> bool {
  t.first().map_or(false, |c| c.is_ascii_alphabetic() || *c == b'_')
}

impl<'a> C<'a> {
  pub fn new(toks: &'a [&'a [u8]], is_type: IsType) -> Self {
    Self { toks, pos: 0, is_type, ambiguous: false, call_name: false, cast_name: false }
  }
  /// The whole input as one expression.
  pub fn all(&mut self) -> R {
    let n = self.expr()?;
    if self.pos == self.toks.len() {
      Ok(volatile(n))
    } else {
      Err(())
    }
  }
  fn at(&self, i: usize) -> &'a [u8] {
    self.toks.get(self.pos + i).copied().unwrap_or(b"")
  }
  fn is(&self, t: &[u8]) -> bool {
    self.at(0) == t
  }
  fn eat(&mut self, t: &[u8]) -> bool {
    let y = self.is(t);
    self.pos += y as usize;
    y
  }
  fn want(&mut self, t: &[u8]) -> Result<(), ()> {
    if self.eat(t) {
      Ok(())
    } else {
      Err(())
    }
  }

  pub fn expr(&mut self) -> R {
    let l = self.ternary()?;
    for (t, op) in ASSIGN {
      if self.is(t) {
        self.pos += 1;
        let r = self.expr()?;
        return Ok(N::Op(op, vec![l, r]));
      }
    }
    Ok(l)
  }

  fn ternary(&mut self) -> R {
    let c = self.binary(1)?;
    if self.eat(b"?") {
      let a = self.expr()?;
      self.want(b":")?;
      let b = self.ternary()?;
      return Ok(N::Op("?:", vec![cond(c), a, b]));
    }
    Ok(c)
  }

  fn binary(&mut self, min: u8) -> R {
    let mut l = self.unary()?;
    loop {
      let t = self.at(0);
      if t.is_empty() {
        return Ok(l);
      }
      let Some((_, op, p)) = BIN.iter().find(|b| b.0 == t) else { return Ok(l) };
      if *p < min {
        return Ok(l);
      }
      self.pos += 1;
      let r = self.binary(*p + 1)?;
      l = bin(op, l, r);
    }
  }

  /// `( type )`, and whether it is a pointer to something volatile
  fn type_name(&mut self) -> Option<(N, bool)> {
    if !self.is(b"(") {
      return None;
    }
    let mut i = 1;
    let mut words: Vec<&[u8]> = vec![];
    let known = |t: &[u8]| (self.is_type)(t);
    let mut all_known = true;
    while is_name(self.at(i)) {
      all_known &= known(self.at(i));
      words.push(self.at(i));
      i += 1;
    }
    if words.is_empty() || (words.len() > 1 && !all_known) {
      return None;
    }
    let mut ty = vec![];
    let mut volatile = false;
    for w in &words {
      match *w {
        b"volatile" => volatile = true,
        // the kind of pointer is not compared
        b"const" => (),
        b"int" => ty.extend_from_slice(b"c_int"),
        b"char" => ty.extend_from_slice(b"c_char"),
        w => ty.extend_from_slice(w),
      }
    }
    let stars = i;
    while self.at(i) == b"*" {
      ty.push(b'*');
      i += 1;
    }
    volatile &= i == stars + 1;
    if self.at(i) != b")" {
      return None;
    }
    let next = self.at(i + 1);
    let operand = is_name(next) || next.first().map_or(false, |c| c.is_ascii_digit() || matches!(c, b'(' | b'!' | b'~' | b'"' | b'\''));
    if !all_known {
      let pointer = i > stars;
      let cast = match next {
        b"+" | b"-" | b"*" | b"&" => {
          if !pointer {
            self.ambiguous = true;
          }
          pointer
        },
        b"++" | b"--" => {
          let after = self.at(i + 2);
          pointer || is_name(after) || after.first().map_or(false, |c| c.is_ascii_digit() || matches!(c, b'(' | b'!' | b'~'))
        },
        b"(" => {
          self.call_name = true;
          true
        },
        _ => operand,
      };
      if !cast {
        return None;
      }
      self.cast_name = true;
    }
    self.pos += i + 1;
    Some((N::Leaf(ty), volatile))
  }

  fn unary(&mut self) -> R {
    if let Some((ty, volatile)) = self.type_name() {
      let x = self.unary()?;
      return Ok(N::Op(if volatile { "castv" } else { "cast" }, vec![ty, x]));
    }
    let t = self.at(0);
    self.pos += 1;
    Ok(match t {
      b"+" => un("+", self.unary()?),
      b"-" => un("-", self.unary()?),
      b"~" => un("~", self.unary()?),
      b"!" => not(self.unary()?),
      b"*" => un("u*", self.unary()?),
      b"&" => un("u&", self.unary()?),
      b"++" => N::Op("+=", vec![self.unary()?, N::Int(1)]),
      b"--" => N::Op("-=", vec![self.unary()?, N::Int(1)]),
      b"sizeof" => {
        let ty = self.type_name().ok_or(())?;
        N::Op("sizeof", vec![ty.0])
      },
      _ => {
        self.pos -= 1;
        return self.postfix();
      },
    })
  }

  fn postfix(&mut self) -> R {
    let t = self.at(0);
    self.pos += 1;
    let mut n = if t == b"(" {
      let n = self.expr()?;
      self.want(b")")?;
      n
    } else if t.is_empty() {
      return Err(());
    } else if is_name(t) {
      leaf(t)
    } else if t[0].is_ascii_digit() {
      let mut v = 0i128;
      for c in t {
        v = v * 10 + (*c - b'0') as i128;
      }
      N::Int(v)
    } else {
      return Err(());
    };
    loop {
      let t = self.at(0);
      self.pos += 1;
      n = match t {
        b"[" => {
          let i = self.expr()?;
          self.want(b"]")?;
          un("u*", bin("+", n, i))
        },
        b"(" => {
          let mut k = vec![n];
          if !self.eat(b")") {
            loop {
              k.push(self.expr()?);
              if self.eat(b")") {
                break;
              }
              self.want(b",")?;
            }
          }
          N::Op("call", k)
        },
        b"." | b"->" => {
          let f = self.at(0);
          if !is_name(f) {
            return Err(());
          }
          self.pos += 1;
          let n = if t == b"->" { un("u*", n) } else { n };
          N::Op(".", vec![n, leaf(f)])
        },
        b"++" => N::Op("p++", vec![n]),
        b"--" => N::Op("p--", vec![n]),
        _ => {
          self.pos -= 1;
          return Ok(n);
        },
      };
    }
  }
}

/// Whether an expression points to something volatile, and whether it is something volatile.
fn is_volatile(n: &N) -> (bool, bool) {
  match n {
    N::Op("castv", _) => (true, false),
    N::Op("+" | "-", k) if k.len() == 2 => (is_volatile(&k[0]).0 || is_volatile(&k[1]).0, false),
    N::Op("p++" | "p--" | "+=" | "-=", k) => (is_volatile(&k[0]).0, false),
    N::Op("u&", k) => (is_volatile(&k[0]).1, false),
    N::Op("u*", k) => (false, is_volatile(&k[0]).0),
    N::Op(".", k) => (false, is_volatile(&k[0]).1),
    _ => (false, false),
  }
}

/// Volatile accesses become `v*`.
fn volatile(n: N) -> N {
  /// Taking an address is no access.
  fn place(n: N) -> N {
    match n {
      N::Op("u*", k) => N::Op("u*", k.into_iter().map(volatile).collect()),
      N::Op(".", mut k) => {
        let f = k.pop().unwrap();
        N::Op(".", vec![place(k.pop().unwrap()), f])
      },
      n => volatile(n),
    }
  }
  let v = is_volatile(&n).1;
  match n {
    N::Op("u&", mut k) => N::Op("u&", vec![place(k.remove(0))]),
    N::Op(op, k) => {
      let op = match op {
        "u*" if v => "v*",
        "castv" => "cast",
        op => op,
      };
      N::Op(op, k.into_iter().map(volatile).collect())
    },
    n => n,
  }
}
