//! Reader for the Rust expressions of generated code, after the grammar of the Rust reference.
use super::tree::{assigning, bin, boolish, cond, effects, leaf, not, un, N};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum T {
  Name(Vec<u8>),
  Punct(Vec<u8>),
  Lit(Vec<u8>),
  Group(u8, Vec<T>),
}

/// Tokens, with the punctuation characters joined as Rust's lexer joins them.
pub fn tokens(s: TokenStream) -> Vec<T> {
  const OPS: [&[u8]; 23] = [
    b"<<=", b">>=", b"...", b"->", b"=>", b"::", b"<<", b">>", b"<=", b">=", b"==", b"!=", b"&&", b"||", b"*=", b"/=", b"%=", b"+=",
    b"-=", b"&=", b"^=", b"|=", b"..",
  ];
  let mut out = vec![];
  let mut run: Vec<u8> = vec![];
  let flush = |run: &mut Vec<u8>, out: &mut Vec<T>| {
    let mut i = 0;
    while i < run.len() {
      let op = OPS.iter().find(|o| run[i..].starts_with(o)).map_or(1, |o| o.len());
      out.push(T::Punct(run[i..i + op].to_vec()));
      i += op;
    }
    run.clear();
  };
  for t in s {
    match t {
      TokenTree::Punct(p) => {
        run.push(p.as_char() as u8);
        if p.spacing() == Spacing::Joint {
          continue;
        }
        flush(&mut run, &mut out);
      },
      t => {
        flush(&mut run, &mut out);
        out.push(match t {
          TokenTree::Group(g) => T::Group(
            match g.delimiter() {
              Delimiter::Parenthesis => b'(',
              Delimiter::Brace => b'{',
              Delimiter::Bracket => b'[',
              Delimiter::None => b' ',
            },
            tokens(g.stream()),
          ),
          TokenTree::Ident(i) => T::Name(i.to_string().into_bytes()),
          TokenTree::Literal(l) => T::Lit(l.to_string().into_bytes()),
          TokenTree::Punct(_) => unreachable!(),
        });
      },
    }
  }
  flush(&mut run, &mut out);
  out
}

pub fn show(t: &[T]) -> String {
  let mut s = String::new();
  for t in t {
    match t {
      T::Name(n) | T::Punct(n) | T::Lit(n) => s.push_str(&String::from_utf8_lossy(n)),
      T::Group(d, k) => {
        s.push(*d as char);
        s.push_str(&show(k));
        s.push(match d {
          b'(' => ')',
          b'{' => '}',
          b'[' => ']',
          _ => ' ',
        });
      },
    }
    s.push(' ');
  }
  s
}

/// The rest of a rule is not Rust, or not in the part of it which generated code needs.
type R = Result<N, &'static str>;

pub struct P<'a> {
  t: &'a [T],
  pos: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum S {
  Let(Vec<u8>, N),
  Expr(N),
}

/// An expression which makes up a whole token sequence in expression position.
pub fn expr(t: &[T]) -> R {
  let mut p = P { t, pos: 0 };
  let n = p.expr(0)?;
  if p.pos == t.len() {
    Ok(n)
  } else {
    Err("tokens after an expression")
  }
}

/// The content of a block.
pub fn block(t: &[T]) -> R {
  let mut p = P { t, pos: 0 };
  let mut stmts: Vec<S> = vec![];
  let mut tail = None;
  while p.pos < t.len() {
    if tail.is_some() {
      return Err("expression without semicolon before another statement");
    }
    if p.eat(b";") {
      continue;
    }
    if p.eat_name(b"let") {
      p.eat_name(b"mut");
      let name = match p.next() {
        Some(T::Name(n)) => n.clone(),
        _ => return Err("let without name"),
      };
      if !p.eat(b"=") {
        return Err("let without value");
      }
      let n = p.expr(0)?;
      if !p.eat(b";") {
        return Err("let without semicolon");
      }
      stmts.push(S::Let(name, n));
      continue;
    }
    let blocklike = match p.peek() {
      Some(T::Group(b'{', _)) => true,
      Some(T::Name(n)) => n == b"if" || n == b"loop" || n == b"while" || n == b"unsafe",
      _ => false,
    };
    let n = if blocklike {
      let n = p.primary()?;
      // a statement ends here unless a method is called on it
      if p.is(b".") {
        let n = p.postfix(n)?;
        p.infix(n, 0)?
      } else {
        if p.pos < t.len() && !p.is(b";") {
          stmts.push(S::Expr(n));
          continue;
        }
        n
      }
    } else {
      p.expr(0)?
    };
    if p.eat(b";") {
      stmts.push(S::Expr(n));
    } else {
      tail = Some(n);
    }
  }
  Ok(meaning(stmts, tail))
}

/// How often a variable is used.
fn uses(n: &N, v: &[u8]) -> usize {
  match n {
    N::Leaf(l) => (l == v) as usize,
    N::Op("?:", k) if k[1..].iter().any(|n| uses(n, v) > 0) => 2,
    N::Op(_, k) => k.iter().map(|n| uses(n, v)).sum(),
    N::Int(_) => 0,
  }
}

fn substitute(n: N, v: &[u8], x: &N) -> N {
  match n {
    N::Leaf(l) if l == v => x.clone(),
    N::Op(op, k) => {
      let mut k: Vec<N> = k.into_iter().map(|n| substitute(n, v, x)).collect();
      match (op, k.len()) {
        ("u*", 1) => un(op, k.remove(0)),
        ("v*", 1) => volatile(k.remove(0)),
        ("cast", 2) if matches!(&k[1], N::Op("cast", j) if j[0] == k[0]) => k.remove(1),
        _ => N::Op(op, k),
      }
    },
    n => n,
  }
}

/// Whether an expression is the result of a volatile read or a part of it.
fn temporary(n: &N) -> bool {
  match n {
    N::Op("v*", _) => true,
    N::Op(".", k) => temporary(&k[0]),
    _ => false,
  }
}

/// What is behind a pointer, accessed as volatile.
fn volatile(p: N) -> N {
  fn go(n: N) -> N {
    match n {
      N::Op(".", mut k) => {
        let f = k.pop().unwrap();
        N::Op(".", vec![go(k.pop().unwrap()), f])
      },
      N::Op("u*", k) => N::Op("v*", k),
      n => N::Op("v*", vec![N::Op("u&", vec![n])]),
    }
  }
  match p {
    N::Op("u&", mut k) => go(k.remove(0)),
    N::Op("p+", k) => N::Op("v*", vec![pair("+", k)]),
    N::Op("p-", k) => N::Op("v*", vec![pair("-", k)]),
    p => N::Op("v*", vec![p]),
  }
}

/// The C operation for which a block stands.
fn meaning(stmts: Vec<S>, tail: Option<N>) -> N {
  // a variable for something which is needed once
  if let ([S::Let(v, x)], Some(t)) = (&stmts[..], &tail) {
    if v != b"_" && uses(t, v) == 1 && *t != N::Leaf(v.clone()) {
      return substitute(t.clone(), v, x);
    }
  }
  let add = |n: &N, x: &N, op: &str| match n {
    // write_volatile(p, v + 1)
    N::Op("=", k) if temporary(&k[0]) => {
      let (o, v) = if op == "p+" { ("+", 1) } else { ("-", 1) };
      k[0] == *x && matches!((&k[1], &stmts[0]), (N::Op(m, a), S::Let(n, _)) if *m == o && a[0] == N::Leaf(n.clone()) && a[1] == N::Int(v))
    },
    // x = x.add(1)
    N::Op("=", k) => matches!(&k[1], N::Op(m, a) if *m == op && a[0] == *x && a[1] == N::Int(1)) && k[0] == *x,
    N::Op("+=", k) => op == "p+" && k[0] == *x && k[1] == N::Int(1),
    N::Op("-=", k) => op == "p-" && k[0] == *x && k[1] == N::Int(1),
    _ => false,
  };
  match (&stmts[..], &tail) {
    ([], Some(t)) => return t.clone(),
    // { let v = x; write_volatile(p, v); v }
    ([S::Let(v, x), S::Expr(N::Op("=", k))], Some(N::Leaf(t)))
      if v == t && k[1] == N::Leaf(v.clone()) && temporary(&k[0]) && !effects(&k[0]) =>
    {
      if let N::Op(o, j) = x {
        if let (Some(o), true) = (assigning(o), j.len() == 2 && j[0] == k[0]) {
          return N::Op(o, vec![j[0].clone(), j[1].clone()]);
        }
      }
      return N::Op("=", vec![k[0].clone(), x.clone()]);
    },
    ([S::Let(v, x), S::Expr(a)], Some(N::Leaf(t))) if v == t && v != b"_" && !effects(x) => {
      if add(a, x, "p+") {
        return N::Op("p++", vec![x.clone()]);
      }
      if add(a, x, "p-") {
        return N::Op("p--", vec![x.clone()]);
      }
    },
    ([S::Let(v, x)], None) if v == b"_" => return N::Op("void", vec![x.clone()]),
    ([S::Expr(a)], Some(t)) if !effects(t) => {
      if add(a, t, "p+") {
        return N::Op("+=", vec![t.clone(), N::Int(1)]);
      }
      if add(a, t, "p-") {
        return N::Op("-=", vec![t.clone(), N::Int(1)]);
      }
      if let N::Op("=" | "+=" | "-=" | "*=" | "/=" | "%=" | "<<=" | ">>=" | "&=" | "^=" | "|=", k) = a {
        if k[0] == *t {
          return a.clone();
        }
      }
    },
    _ => (),
  }
  let mut k: Vec<N> = stmts
    .into_iter()
    .map(|s| match s {
      S::Let(v, n) => N::Op("let", vec![N::Leaf(v), n]),
      S::Expr(n) => n,
    })
    .collect();
  match tail {
    Some(t) => k.push(t),
    None => k.push(N::Op("()", vec![])),
  }
  N::Op("block", k)
}

/// Keywords which are no expressions, path segments or blocks.
const KEYWORDS: [&[u8]; 47] = [
  b"as", b"const", b"crate", b"else", b"enum", b"extern", b"fn", b"for", b"impl", b"in", b"let", b"loop", b"match", b"mod", b"move", b"mut",
  b"pub", b"ref", b"return", b"self", b"Self", b"static", b"struct", b"super", b"trait", b"type", b"unsafe", b"use", b"where", b"while",
  b"async", b"await", b"dyn", b"abstract", b"become", b"box", b"do", b"final", b"macro", b"override", b"priv", b"typeof", b"unsized",
  b"virtual", b"yield", b"try", b"_",
];

const BIN: [(&[u8], &str, u8); 29] = [
  (b"*", "*", 20),
  (b"/", "/", 20),
  (b"%", "%", 20),
  (b"+", "+", 18),
  (b"-", "-", 18),
  (b"<<", "<<", 16),
  (b">>", ">>", 16),
  (b"&", "&", 14),
  (b"^", "^", 12),
  (b"|", "|", 10),
  (b"==", "==", 8),
  (b"!=", "!=", 8),
  (b"<", "<", 8),
  (b">", ">", 8),
  (b"<=", "<=", 8),
  (b">=", ">=", 8),
  (b"&&", "&&", 6),
  (b"||", "||", 4),
  (b"=", "=", 2),
  (b"+=", "+=", 2),
  (b"-=", "-=", 2),
  (b"*=", "*=", 2),
  (b"/=", "/=", 2),
  (b"%=", "%=", 2),
  (b"&=", "&=", 2),
  (b"|=", "|=", 2),
  (b"^=", "^=", 2),
  (b"<<=", "<<=", 2),
  (b">>=", ">>=", 2),
];

impl<'a> P<'a> {
  pub fn new(t: &'a [T]) -> Self {
    P { t, pos: 0 }
  }
  pub fn peek(&self) -> Option<&'a T> {
    self.t.get(self.pos)
  }
  pub fn next(&mut self) -> Option<&'a T> {
    let t = self.t.get(self.pos);
    self.pos += t.is_some() as usize;
    t
  }
  fn is(&self, p: &[u8]) -> bool {
    matches!(self.peek(), Some(T::Punct(x)) if x == p)
  }
  pub fn eat(&mut self, p: &[u8]) -> bool {
    let y = self.is(p);
    self.pos += y as usize;
    y
  }
  pub fn eat_name(&mut self, n: &[u8]) -> bool {
    let y = matches!(self.peek(), Some(T::Name(x)) if x == n);
    self.pos += y as usize;
    y
  }

  pub fn expr(&mut self, min: u8) -> R {
    let l = self.unary()?;
    self.infix(l, min)
  }

  fn infix(&mut self, mut l: N, min: u8) -> R {
    loop {
      if min <= 22 && self.eat_name(b"as") {
        let (ty, path) = self.ty()?;
        if path && (self.is(b"<") || self.is(b"<<")) {
          return Err("`<` after a cast starts generic arguments");
        }
        if !ty.starts_with(b"_*") {
          l = N::Op("cast", vec![N::Leaf(ty), l]);
        }
        continue;
      }
      let Some(T::Punct(p)) = self.peek() else { return Ok(l) };
      let Some((_, op, prec)) = BIN.iter().find(|b| b.0 == &p[..]) else { return Ok(l) };
      if *prec < min {
        return Ok(l);
      }
      self.pos += 1;
      match prec {
        2 => {
          if temporary(&l) {
            return Err("assignment to a temporary");
          }
          let r = self.expr(2)?;
          l = N::Op(op, vec![l, r]);
        },
        8 => {
          let r = self.expr(9)?;
          if let Some(T::Punct(p)) = self.peek() {
            if BIN.iter().any(|b| b.0 == &p[..] && b.2 == 8) {
              return Err("chained comparison");
            }
          }
          l = N::Op(op, vec![l, r]);
        },
        _ => {
          let r = self.expr(prec + 1)?;
          l = bin(op, l, r);
        },
      }
    }
  }

  fn unary(&mut self) -> R {
    if self.eat(b"-") {
      let x = self.unary()?;
      return Ok(un("-", x));
    }
    if self.eat(b"*") {
      let x = self.unary()?;
      // *p.add(i)
      return Ok(match x {
        N::Op("p+", k) => N::Op("u*", vec![pair("+", k)]),
        N::Op("p-", k) => N::Op("u*", vec![pair("-", k)]),
        x => un("u*", x),
      });
    }
    if self.eat(b"!") {
      let x = self.unary()?;
      return Ok(if boolish(&x) { not(x) } else { un("~", x) });
    }
    let x = self.primary()?;
    self.postfix(x)
  }

  /// A type, and whether it ends with a path.
  pub fn ty(&mut self) -> Result<(Vec<u8>, bool), &'static str> {
    if self.eat(b"*") {
      let m: &[u8] = if self.eat_name(b"mut") {
        b"*"
      } else if self.eat_name(b"const") {
        b"*"
      } else {
        return Err("pointer type without mut or const");
      };
      let (mut t, p) = self.ty()?;
      t.extend_from_slice(m);
      return Ok((t, p));
    }
    if self.eat(b"$") {
      return match self.next() {
        Some(T::Name(n)) => Ok((n.clone(), false)),
        _ => Err("type"),
      };
    }
    let mut out = vec![];
    loop {
      match self.next() {
        Some(T::Name(n)) => out.extend_from_slice(n),
        _ => return Err("type"),
      }
      if self.eat(b"::") {
        out.extend_from_slice(b"::");
        continue;
      }
      return Ok((out, true));
    }
  }

  fn args(t: &[T]) -> Result<Vec<N>, &'static str> {
    let mut p = P { t, pos: 0 };
    let mut k = vec![];
    while p.pos < t.len() {
      k.push(p.expr(0)?);
      if p.pos < t.len() && !p.eat(b",") {
        return Err("arguments");
      }
    }
    Ok(k)
  }

  fn postfix(&mut self, mut n: N) -> R {
    loop {
      if self.eat(b".") {
        let Some(T::Name(f)) = self.next() else {
          // a field named by a macro argument
          if let (Some(T::Punct(d)), Some(T::Name(f))) = (self.t.get(self.pos.wrapping_sub(1)), self.peek()) {
            if d == b"$" {
              self.pos += 1;
              n = N::Op(".", vec![n, leaf(f)]);
              continue;
            }
          }
          return Err("field");
        };
        if let Some(T::Group(b'(', a)) = self.peek() {
          self.pos += 1;
          let mut k = Self::args(a)?;
          n = match (&f[..], k.len()) {
            (b"add", 1) => N::Op("p+", vec![n, k.remove(0)]),
            (b"sub", 1) => N::Op("p-", vec![n, k.remove(0)]),
            (b"into", 0) => N::Op("into", vec![n]),
            _ => return Err("method"),
          };
        } else {
          n = N::Op(".", vec![n, leaf(f)]);
        }
        continue;
      }
      if let Some(T::Group(b'(', a)) = self.peek() {
        self.pos += 1;
        let mut k = vec![n];
        for a in Self::args(a)? {
          k.push(match a {
            N::Op("into", mut x) => x.remove(0),
            a => a,
          });
        }
        n = N::Op("call", k);
        continue;
      }
      return Ok(n);
    }
  }

  fn primary(&mut self) -> R {
    match self.next() {
      Some(T::Group(b'(', t)) => {
        let mut p = P { t, pos: 0 };
        let n = p.expr(0)?;
        if p.pos != t.len() {
          return Err("tokens after an expression in parentheses");
        }
        Ok(n)
      },
      Some(T::Group(b'{', t)) => block(t),
      Some(T::Punct(p)) if p == b"$" => match self.next() {
        Some(T::Name(n)) => Ok(leaf(n)),
        _ => Err("macro variable"),
      },
      Some(T::Lit(l)) => number(l),
      Some(T::Name(n)) if n == b"if" => {
        let c = self.expr(0)?;
        if !boolish(&c) {
          return Err("condition without truth value");
        }
        let Some(T::Group(b'{', a)) = self.next() else { return Err("if without block") };
        let a = block(a)?;
        let b = if self.eat_name(b"else") {
          match self.peek() {
            Some(T::Group(b'{', t)) => {
              self.pos += 1;
              block(t)?
            },
            Some(T::Name(n)) if n == b"if" => self.primary()?,
            _ => return Err("else"),
          }
        } else {
          N::Op("()", vec![])
        };
        Ok(N::Op("?:", vec![cond(c), a, b]))
      },
      Some(T::Name(n)) => {
        if KEYWORDS.contains(&&n[..]) {
          return Err("keyword");
        }
        let mut path = n.strip_prefix(b"r#").unwrap_or(n).to_vec();
        while self.eat(b"::") {
          if self.eat(b"<") {
            let (t, _) = self.ty()?;
            if !self.eat(b">") {
              return Err("generic arguments");
            }
            if path.ends_with(b"size_of") {
              if let Some(T::Group(b'(', a)) = self.next() {
                if a.is_empty() {
                  return Ok(N::Op("sizeof", vec![N::Leaf(t)]));
                }
              }
            }
            return Err("generic arguments");
          }
          match self.next() {
            Some(T::Name(n)) => {
              path.extend_from_slice(b"::");
              path.extend_from_slice(n);
            },
            _ => return Err("path"),
          }
        }
        if self.is(b"!") {
          if let Some(T::Group(_, a)) = self.t.get(self.pos + 1) {
            self.pos += 2;
            return match &path[..] {
              b"ptr::addr_of_mut" => {
                let x = expr(a)?;
                if temporary(&x) {
                  return Err("address of a temporary");
                }
                Ok(un("u&", x))
              },
              _ => Err("macro"),
            };
          }
        }
        if path == b"ptr::read_volatile" || path == b"ptr::write_volatile" {
          if let Some(T::Group(b'(', a)) = self.peek() {
            self.pos += 1;
            let mut k = Self::args(a)?;
            if k.len() == 1 && path == b"ptr::read_volatile" {
              return Ok(volatile(k.remove(0)));
            }
            if k.len() == 2 && path == b"ptr::write_volatile" {
              let x = k.pop().unwrap();
              return Ok(N::Op("=", vec![volatile(k.pop().unwrap()), x]));
            }
          }
          return Err("volatile access");
        }
        if path == b"ptr::null_mut" || path == b"ptr::null" {
          if let Some(T::Group(b'(', a)) = self.peek() {
            if a.is_empty() {
              self.pos += 1;
              return Ok(leaf(b"null"));
            }
          }
        }
        Ok(N::Leaf(path))
      },
      Some(_) => Err("no expression"),
      None => Err("missing expression"),
    }
  }
}

fn pair(op: &'static str, mut k: Vec<N>) -> N {
  let r = k.pop().unwrap();
  let l = k.pop().unwrap();
  bin(op, l, r)
}

fn number(l: &[u8]) -> R {
  let mut v = 0i128;
  let mut i = 0;
  let neg = l.first() == Some(&b'-');
  i += neg as usize;
  let start = i;
  while i < l.len() && l[i].is_ascii_digit() {
    v = v * 10 + (l[i] - b'0') as i128;
    i += 1;
  }
  let rest = &l[i..];
  if i == start || rest.first().map_or(false, |c| *c == b'.' || *c == b'e' || *c == b'f') {
    return Ok(leaf(l));
  }
  Ok(N::Int(if neg { -v } else { v }))
}

/// The body of a generated item.
pub enum Item {
  /// `macro_rules!`
  Macro(Vec<T>),
  /// `extern "C" fn`
  Fn(Vec<T>),
}

pub fn item(t: &[T]) -> Option<Item> {
  let at = t.iter().position(|x| matches!(x, T::Name(n) if n == b"macro_rules" || n == b"fn"))?;
  let T::Name(n) = &t[at] else { return None };
  let is_macro = n == b"macro_rules";
  let group = t[at..].iter().find_map(|x| match x {
    T::Group(b'{', k) => Some(k),
    _ => None,
  })?;
  if !is_macro {
    return Some(Item::Fn(group.clone()));
  }
  // ( pattern ) => { body } ;
  match group.get(2)? {
    T::Group(b'{', k) => Some(Item::Macro(k.clone())),
    _ => None,
  }
}
