//! Statements of C and of generated Rust code.
use super::cexpr::C;
use super::rexpr::{P, T};
use super::tree::{cond, settled, N};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum St {
  Expr(N),
  /// static, type, name, value
  Decl(bool, Vec<u8>, Vec<u8>, N),
  Block(Vec<St>),
  If(N, Vec<St>, Vec<St>),
  DoWhile(Vec<St>, N),
  Break,
  Continue,
  Return(Option<N>),
}

impl St {
  /// Whether a statement may leave what is around it.
  pub fn jumps(&self, in_loop: bool) -> bool {
    match self {
      St::Expr(_) | St::Decl(..) => false,
      St::Block(b) => b.iter().any(|s| s.jumps(in_loop)),
      St::If(_, a, b) => a.iter().chain(b).any(|s| s.jumps(in_loop)),
      St::DoWhile(b, _) => b.iter().any(|s| s.jumps(true)),
      St::Break => !in_loop,
      St::Continue | St::Return(_) => true,
    }
  }
}

pub const KEYWORDS: [&[u8]; 34] = [
  b"auto", b"break", b"case", b"char", b"const", b"continue", b"default", b"do", b"double", b"else", b"enum", b"extern", b"float", b"for",
  b"goto", b"if", b"inline", b"int", b"long", b"register", b"return", b"short", b"signed", b"sizeof", b"static", b"struct", b"switch",
  b"typedef", b"union", b"unsigned", b"void", b"volatile", b"while", b"restrict",
];

/// What statements do. Blocks only matter for the names declared in them.
pub fn normal(stmts: Vec<St>) -> Vec<St> {
  let mut out = vec![];
  for s in stmts {
    match s {
      St::Block(b) => {
        let b = normal(b);
        if b.iter().any(|s| matches!(s, St::Decl(..))) {
          out.push(St::Block(b));
        } else {
          out.extend(b);
        }
      },
      St::If(c, a, b) => out.push(St::If(cond(settled(c)), normal(a), normal(b))),
      St::DoWhile(b, c) => out.push(St::DoWhile(normal(b), cond(settled(c)))),
      St::Expr(n) => out.push(St::Expr(settled(n))),
      St::Decl(s, t, n, v) => out.push(St::Decl(s, t, n, settled(v))),
      St::Return(Some(n)) => out.push(St::Return(Some(settled(n)))),
      s => out.push(s),
    }
  }
  // a block around everything
  match &mut out[..] {
    [St::Block(b)] => std::mem::take(b),
    _ => out,
  }
}

/// Reader for the body of a macro; the last semicolon may be missing.
pub struct Stmts<'a> {
  t: &'a [&'a [u8]],
  pos: usize,
  in_loop: usize,
}

fn no_type(_: &[u8]) -> bool {
  false
}

pub fn is_name(t: &[u8]) -> bool {
  t.first().map_or(false, |c| c.is_ascii_alphabetic() || *c == b'_') && !KEYWORDS.contains(&t)
}

type R<X> = Result<X, ()>;

fn expr(t: &[&[u8]]) -> R<N> {
  // names which cannot be written in Rust
  if t.iter().any(|t| KEYWORDS.contains(t) || matches!(*t, b"self" | b"super" | b"crate" | b"_")) {
    return Err(());
  }
  let mut c = C::new(t, no_type);
  let n = c.all();
  // depends on what names mean
  crate::sym::assume(!c.call_name && !c.cast_name);
  n
}

impl<'a> Stmts<'a> {
  /// The statements of a macro body. What is not C, or not among the supported statements, is an error.
  pub fn all(t: &'a [&'a [u8]]) -> R<Vec<St>> {
    let mut s = Stmts { t, pos: 0, in_loop: 0 };
    let mut out = vec![];
    while s.pos < t.len() {
      out.push(s.item()?);
    }
    Ok(out)
  }

  fn at(&self, i: usize) -> &'a [u8] {
    self.t.get(self.pos + i).copied().unwrap_or(b"")
  }

  fn eat(&mut self, t: &[u8]) -> bool {
    let y = self.at(0) == t;
    self.pos += y as usize;
    y
  }

  fn end(&mut self) -> R<()> {
    if self.pos == self.t.len() || self.eat(b";") {
      Ok(())
    } else {
      Err(())
    }
  }

  fn parens(&mut self) -> R<N> {
    if !self.eat(b"(") {
      return Err(());
    }
    let start = self.pos;
    let mut depth = 1;
    loop {
      match self.at(0) {
        b"" => return Err(()),
        b"(" => depth += 1,
        b")" => depth -= 1,
        _ => (),
      }
      self.pos += 1;
      if depth == 0 {
        return expr(&self.t[start..self.pos - 1]);
      }
    }
  }

  /// Up to the end of a statement.
  fn rest(&mut self) -> R<N> {
    let start = self.pos;
    while !matches!(self.at(0), b"" | b";" | b"{" | b"}") {
      self.pos += 1;
    }
    expr(&self.t[start..self.pos])
  }

  /// A statement or declaration.
  fn item(&mut self) -> R<St> {
    let is_static = self.at(0) == b"static";
    let i = is_static as usize;
    let ty = self.at(i);
    // other names would have to be known as types
    let names = |t: &[u8]| is_name(t) && !matches!(t, b"self" | b"super" | b"crate" | b"_");
    if ty == b"int" && names(self.at(i + 1)) && self.at(i + 2) == b"=" {
      let name = self.at(i + 1);
      self.pos += i + 3;
      let v = self.rest()?;
      self.end()?;
      return Ok(St::Decl(is_static, ty.to_vec(), name.to_vec(), v));
    }
    self.stmt()
  }

  fn stmt(&mut self) -> R<St> {
    if self.eat(b"{") {
      let mut out = vec![];
      while !self.eat(b"}") {
        if self.pos == self.t.len() {
          return Err(());
        }
        out.push(self.item()?);
      }
      return Ok(St::Block(out));
    }
    if self.eat(b";") {
      return Ok(St::Block(vec![]));
    }
    if self.eat(b"if") {
      let c = self.parens()?;
      let a = self.stmt()?;
      let b = if self.eat(b"else") { vec![self.stmt()?] } else { vec![] };
      return Ok(St::If(c, vec![a], b));
    }
    if self.eat(b"do") {
      self.in_loop += 1;
      let b = self.stmt()?;
      self.in_loop -= 1;
      if !self.eat(b"while") {
        return Err(());
      }
      let c = self.parens()?;
      self.end()?;
      return Ok(St::DoWhile(vec![b], c));
    }
    if self.eat(b"break") {
      self.end()?;
      return Ok(St::Break);
    }
    if self.eat(b"continue") {
      self.end()?;
      // would have to evaluate the condition
      return if self.in_loop == 0 { Ok(St::Continue) } else { Err(()) };
    }
    if self.eat(b"return") {
      let n = if matches!(self.at(0), b"" | b";") { None } else { Some(self.rest()?) };
      self.end()?;
      return Ok(St::Return(n));
    }
    let n = self.rest()?;
    self.end()?;
    Ok(St::Expr(n))
  }
}

type E<X> = Result<X, &'static str>;

fn name(t: Option<&T>) -> E<Vec<u8>> {
  match t {
    Some(T::Name(n)) => Ok(n.clone()),
    _ => Err("name"),
  }
}

/// The content of a Rust block.
pub fn rust(t: &[T]) -> E<Vec<St>> {
  let mut p = P::new(t);
  let mut out: Vec<St> = vec![];
  let word = |n: &[u8], t: Option<&T>| matches!(t, Some(T::Name(x)) if x == n);
  loop {
    if p.eat(b";") {
      continue;
    }
    match p.peek() {
      None => return Ok(out),
      Some(T::Name(n)) if n == b"let" || n == b"static" => {
        let is_static = n == b"static";
        p.next();
        p.eat_name(b"mut");
        let v = name(p.next())?;
        if !p.eat(b":") {
          return Err("declaration without type");
        }
        let (ty, _) = p.ty()?;
        if !p.eat(b"=") {
          return Err("declaration without value");
        }
        let n = p.expr(0)?;
        if !p.eat(b";") {
          return Err("declaration without semicolon");
        }
        let ty = ty.strip_prefix(b"c_").unwrap_or(&ty).to_vec();
        let v = v.strip_prefix(b"r#").unwrap_or(&v).to_vec();
        out.push(St::Decl(is_static, ty, v, n));
      },
      Some(T::Name(n)) if n == b"if" => out.push(branch(&mut p)?),
      Some(T::Name(n)) if n == b"loop" => {
        p.next();
        let Some(T::Group(b'{', b)) = p.next() else { return Err("loop") };
        // loop { ... if c { continue } break }
        let (b, brk) = match &b[..] {
          [b @ .., x, T::Punct(s)] if s == b";" => (b, x),
          [b @ .., x] => (b, x),
          _ => return Err("loop"),
        };
        if !word(b"break", Some(brk)) {
          return Err("infinite loop");
        }
        let mut b = rust(b)?;
        match b.pop() {
          Some(St::If(c, a, e)) if e.is_empty() && a == [St::Continue] => out.push(St::DoWhile(b, c)),
          _ => return Err("loop without condition"),
        }
      },
      Some(T::Name(n)) if n == b"break" => {
        p.next();
        if !p.eat(b";") && p.peek().is_some() {
          return Err("break");
        }
        out.push(St::Break);
      },
      Some(T::Name(n)) if n == b"continue" => {
        p.next();
        if !p.eat(b";") && p.peek().is_some() {
          return Err("continue");
        }
        out.push(St::Continue);
      },
      Some(T::Name(n)) if n == b"return" => {
        p.next();
        let n = match p.peek() {
          Some(T::Punct(x)) if x == b";" => None,
          None => None,
          _ => Some(p.expr(0)?),
        };
        if !p.eat(b";") && p.peek().is_some() {
          return Err("return");
        }
        out.push(St::Return(n));
      },
      Some(T::Group(b'{', b)) => {
        p.next();
        // not the start of an expression
        if matches!(p.peek(), Some(T::Punct(x)) if x == b".") {
          return Err("method of a block");
        }
        match rust(b) {
          Ok(b) => out.push(St::Block(b)),
          // an expression
          Err(_) => {
            let n = super::rexpr::block(b)?;
            if !p.eat(b";") {
              return Err("value of a block statement");
            }
            out.push(St::Expr(n));
          },
        }
      },
      _ => {
        let n = p.expr(0)?;
        // otherwise its value would be the value of the block
        if !p.eat(b";") {
          return Err("expression without semicolon");
        }
        out.push(St::Expr(n));
      },
    }
  }
}

fn branch(p: &mut P) -> E<St> {
  p.next();
  let c = p.expr(0)?;
  if !super::tree::boolish(&c) {
    return Err("condition without truth value");
  }
  let Some(T::Group(b'{', a)) = p.next() else { return Err("if without block") };
  let a = rust(a)?;
  let b = if p.eat_name(b"else") {
    match p.peek() {
      Some(T::Name(n)) if n == b"if" => vec![branch(p)?],
      Some(T::Group(b'{', b)) => {
        p.next();
        rust(b)?
      },
      _ => return Err("else"),
    }
  } else {
    vec![]
  };
  Ok(St::If(c, a, b))
}
