//! Reference preprocessor: macro replacement of C23 6.10.5, on tokens.
//!
//! Written as a queue of tokens with end markers: while the marker of a replacement is still in
//! the queue, the macro is being replaced and its name is not replaced again.
use std::cell::Cell;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
  Id,
  /// Number, string, character constant, or anything else which is not replaced.
  Lit,
  Punct,
  /// A parameter of the macro whose definition is expanded without arguments.
  Param(usize),
}

#[derive(Clone, Debug)]
pub struct Tok {
  pub kind: Kind,
  pub text: Rc<Vec<u8>>,
  pub painted: bool,
  /// A string made by `#`; `text` is its value, compared modulo spaces.
  pub made: bool,
}

impl Tok {
  pub fn new(s: &[u8]) -> Tok {
    let k = match s[0] {
      b'a'..=b'z' | b'A'..=b'Z' | b'_' | 0x80..=0xff => {
        if s.iter().any(|c| *c == b'"' || *c == b'\'') {
          Kind::Lit
        } else {
          Kind::Id
        }
      },
      b'0'..=b'9' | b'"' | b'\'' => Kind::Lit,
      b'.' if s.len() > 1 && s[1].is_ascii_digit() => Kind::Lit,
      _ => Kind::Punct,
    };
    Tok { kind: k, text: Rc::new(s.to_vec()), painted: false, made: false }
  }
  fn is(&self, s: &[u8]) -> bool {
    self.kind == Kind::Punct && self.text[..] == *s
  }
  fn quoted(&self) -> bool {
    self.made || (self.kind == Kind::Lit && self.text.iter().any(|c| *c == b'"' || *c == b'\''))
  }
}

pub fn is_comment(s: &[u8]) -> bool {
  s.len() >= 4 && s[0] == b'/' && s[1] == b'*'
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
  /// Wrong number of arguments.
  Arity(usize, usize),
  /// `##` first or last, `#` without parameter, `__VA_ARGS__` where it does not belong, pasting of what cannot be pasted.
  Begin,
  End,
  NoParam,
  VarArgs,
  Paste,
  /// The standard does not say, or the construct is not claimed to be supported.
  Open,
}

pub struct Def {
  pub name: Vec<u8>,
  pub params: Option<Vec<Vec<u8>>>,
  pub variadic: bool,
  pub body: Vec<Tok>,
}

#[derive(Default)]
pub struct Set {
  pub defs: Vec<Def>,
  /// The name of a function-like macro was followed by a macro whose replacement might start with `(`:
  /// this is no call, although the two become adjacent.
  pub late: Cell<bool>,
}

enum It {
  T(Tok),
  End(usize),
}

const PUNCT2: [&[u8]; 32] = [
  b"->", b"++", b"--", b"<<", b">>", b"<=", b">=", b"==", b"!=", b"&&", b"||", b"*=", b"/=", b"%=", b"+=", b"-=", b"<<=", b">>=",
  b"&=", b"^=", b"|=", b"##", b"<:", b":>", b"<%", b"%>", b"%:", b"%:%:", b"...", b"", b"", b"",
];

fn paste(a: Option<Tok>, b: Option<Tok>) -> Result<Option<Tok>, Bad> {
  let (a, b) = match (a, b) {
    (None, x) | (x, None) => return Ok(x),
    (Some(a), Some(b)) => (a, b),
  };
  if a.is(b",") {
    return Err(Bad::Open);
  }
  if b.quoted() {
    // only an encoding prefix can stand before a literal
    let plain = b.made || b.text[0] == b'"' || b.text[0] == b'\'';
    let p = &a.text[..];
    if a.kind == Kind::Id && plain && (p == b"u8" || p == b"u" || p == b"U" || p == b"L") {
      if b.made {
        return Err(Bad::Open);
      }
    } else {
      return Err(Bad::Paste);
    }
  } else if a.quoted() {
    return Err(Bad::Paste);
  }
  let mut text = a.text.to_vec();
  text.extend_from_slice(&b.text);
  match (a.kind, b.kind) {
    (Kind::Punct, Kind::Punct) => {
      if !PUNCT2.iter().any(|p| **p == text[..]) {
        return Err(Bad::Paste);
      }
      let mut t = Tok::new(&text);
      t.kind = Kind::Punct;
      t.painted = true; // a pasted `##` is no operator
      Ok(Some(t))
    },
    (Kind::Punct, _) => {
      if a.is(b".") && b.kind == Kind::Lit && b.text[0].is_ascii_digit() {
        return Ok(Some(Tok::new(&text)));
      }
      Err(Bad::Paste)
    },
    (Kind::Lit, Kind::Punct) => Err(Bad::Open), // preprocessing numbers such as `1.` or `1e+`
    (_, Kind::Punct) => Err(Bad::Paste),
    (Kind::Id, Kind::Lit) if b.text[0] == b'.' || b.text.iter().any(|c| *c == b'.' || *c == b'+' || *c == b'-') => {
      Err(if b.quoted() { Bad::Open } else { Bad::Paste })
    },
    _ => Ok(Some(Tok::new(&text))),
  }
}

fn stringify(arg: &[Tok], out: &mut Vec<Tok>) {
  // Parameters of the macro under definition stay operands of `#`.
  let mut cur: Option<Vec<u8>> = None;
  let mut any = false;
  let mk = |v: Vec<u8>| Tok { kind: Kind::Lit, text: Rc::new(v), painted: false, made: true };
  for t in arg {
    if let Kind::Param(_) = t.kind {
      if let Some(v) = cur.take() {
        out.push(mk(v));
      }
      let mut h = Tok::new(b"#");
      h.painted = true;
      out.push(h);
      out.push(t.clone());
      any = true;
      continue;
    }
    let c = cur.get_or_insert_with(Vec::new);
    if t.made {
      // spelled with quotes; not compared further
      c.push(b'"');
      c.extend_from_slice(&t.text);
      c.push(b'"');
    } else {
      c.extend_from_slice(&t.text);
    }
    any = true;
  }
  if let Some(v) = cur {
    out.push(mk(v));
  } else if !any {
    out.push(mk(vec![]));
  }
}

impl Set {
  pub fn find(&self, name: &[u8]) -> Option<usize> {
    let mut i = self.defs.len();
    while i > 0 {
      i -= 1;
      if self.defs[i].name[..] == *name {
        return Some(i);
      }
    }
    None
  }

  /// The `##` operators of a replacement list in which `ops[i]` says that element `i` is an operator.
  fn glue(v: Vec<(Option<Tok>, bool)>) -> Result<Vec<Tok>, Bad> {
    let mut out: Vec<Option<Tok>> = Vec::new();
    let mut it = v.into_iter().peekable();
    while let Some((t, op)) = it.next() {
      if !op {
        out.push(t);
        continue;
      }
      let Some(lhs) = out.pop() else { return Err(Bad::Begin) };
      match it.next() {
        None => return Err(Bad::End),
        Some((_, true)) => return Err(Bad::Open),
        Some((rhs, _)) => {
          let l = matches!(&lhs, Some(Tok { kind: Kind::Param(_), .. }));
          let r = matches!(&rhs, Some(Tok { kind: Kind::Param(_), .. }));
          if l || r {
            // stays an operator until the arguments are known
            let mut h = Tok::new(b"##");
            h.painted = true;
            out.push(lhs);
            out.push(Some(h));
            out.push(rhs);
          } else {
            out.push(paste(lhs, rhs)?);
          }
        },
      }
    }
    Ok(out.into_iter().flatten().collect())
  }

  fn object(&self, d: &Def) -> Result<Vec<Tok>, Bad> {
    if d.body.iter().any(|t| t.kind == Kind::Id && t.text[..] == *b"__VA_ARGS__") {
      return Err(Bad::VarArgs);
    }
    Self::glue(d.body.iter().map(|t| (Some(t.clone()), t.is(b"##"))).collect())
  }

  fn param(d: &Def, t: &Tok) -> Option<usize> {
    if t.kind != Kind::Id {
      return None;
    }
    let ps = d.params.as_ref()?;
    if t.text[..] == *b"__VA_ARGS__" {
      return if d.variadic { Some(ps.len()) } else { None };
    }
    ps.iter().position(|p| p[..] == t.text[..])
  }

  fn function(&self, d: &Def, args: &[Vec<Tok>], active: &[usize]) -> Result<Vec<Tok>, Bad> {
    let n = d.params.as_ref().map_or(0, |p| p.len());
    let mut given = args.len();
    if given == 1 && args[0].is_empty() && n == 0 {
      given = 0;
    }
    if !d.variadic && d.body.iter().any(|t| t.kind == Kind::Id && t.text[..] == *b"__VA_ARGS__") {
      return Err(Bad::VarArgs);
    }
    if given < n || (given > n && !d.variadic) {
      return Err(Bad::Arity(n, given));
    }
    let arg = |i: usize| -> Vec<Tok> {
      if i < n {
        return args[i].clone();
      }
      let mut v = Vec::new();
      for (k, a) in args.iter().skip(n).enumerate() {
        if k > 0 {
          v.push(Tok::new(b","));
        }
        v.extend_from_slice(a);
      }
      v
    };
    let mut v: Vec<(Option<Tok>, bool)> = Vec::new();
    let mut i = 0;
    while i < d.body.len() {
      let t = &d.body[i];
      if t.is(b"#") {
        let Some(p) = d.body.get(i + 1).and_then(|t| Self::param(d, t)) else { return Err(Bad::NoParam) };
        let mut s = Vec::new();
        stringify(&arg(p), &mut s);
        v.extend(s.into_iter().map(|t| (Some(t), false)));
        i += 2;
        continue;
      }
      if let Some(p) = Self::param(d, t) {
        let pasted = (i > 0 && d.body[i - 1].is(b"##")) || d.body.get(i + 1).map_or(false, |t| t.is(b"##"));
        let a = arg(p);
        if pasted {
          if a.is_empty() {
            v.push((None, false));
          }
          v.extend(a.into_iter().map(|t| (Some(t), false)));
        } else {
          v.extend(self.run(a, active)?.into_iter().map(|t| (Some(t), false)));
        }
      } else {
        v.push((Some(t.clone()), t.is(b"##")));
      }
      i += 1;
    }
    Self::glue(v)
  }

  /// Replace everything in `input`; the macros in `active` are being replaced already.
  fn run(&self, input: Vec<Tok>, active: &[usize]) -> Result<Vec<Tok>, Bad> {
    let mut q: VecDeque<It> = input.into_iter().map(It::T).collect();
    let mut act: Vec<usize> = active.to_vec();
    let mut out = Vec::new();
    let end = |act: &mut Vec<usize>, m: usize| {
      let i = act.iter().rposition(|x| *x == m).unwrap();
      act.remove(i);
    };
    while let Some(it) = q.pop_front() {
      let mut t = match it {
        It::End(m) => {
          end(&mut act, m);
          continue;
        },
        It::T(t) => t,
      };
      if t.kind != Kind::Id || t.painted {
        out.push(t);
        continue;
      }
      let Some(m) = self.find(&t.text) else {
        out.push(t);
        continue;
      };
      if act.contains(&m) {
        t.painted = true;
        out.push(t);
        continue;
      }
      let d = &self.defs[m];
      let r = if d.params.is_none() {
        self.object(d)?
      } else {
        let next = q.iter().find_map(|i| if let It::T(t) = i { Some(t) } else { None });
        if !next.map_or(false, |n| n.is(b"(")) {
          if self.opens(next) {
            self.late.set(true);
          }
          out.push(t);
          continue;
        }
        let mut args: Vec<Vec<Tok>> = vec![vec![]];
        let mut depth = 0;
        loop {
          match q.pop_front() {
            None => return Err(Bad::Open), // not terminated
            Some(It::End(m)) => end(&mut act, m),
            Some(It::T(mut t)) => {
              if t.is(b"(") {
                depth += 1;
                if depth == 1 {
                  continue;
                }
              } else if t.is(b")") {
                depth -= 1;
                if depth == 0 {
                  break;
                }
              } else if t.is(b",") && depth == 1 {
                args.push(vec![]);
                continue;
              } else if t.kind == Kind::Id && self.find(&t.text).map_or(false, |m| act.contains(&m)) {
                t.painted = true;
              }
              let n = args.len() - 1;
              args[n].push(t);
            },
          }
        }
        self.function(d, &args, &act)?
      };
      q.push_front(It::End(m));
      act.push(m);
      for t in r.into_iter().rev() {
        q.push_front(It::T(t));
      }
    }
    Ok(out)
  }

  /// Whether a token which follows the name of a function-like macro might become `(` by replacement.
  fn opens(&self, next: Option<&Tok>) -> bool {
    match next {
      Some(t) if t.kind == Kind::Id && !t.painted => match self.find(&t.text) {
        Some(m) => self.begins(m, 0),
        None => false,
      },
      _ => false,
    }
  }
  fn begins(&self, m: usize, depth: u32) -> bool {
    if depth > 6 {
      return false;
    }
    match self.defs[m].body.first() {
      None => true,
      Some(t) if t.is(b"(") => true,
      Some(t) if t.kind == Kind::Id => self.find(&t.text).map_or(false, |m| self.begins(m, depth + 1)),
      _ => false,
    }
  }

  pub fn expand(&self, input: Vec<Tok>) -> Result<Vec<Tok>, Bad> {
    self.run(input, &[])
  }

  pub fn expand_name(&self, name: &[u8]) -> Option<Result<Vec<Tok>, Bad>> {
    let m = self.find(name)?;
    let d = &self.defs[m];
    Some(if d.params.is_none() {
      self.object(d).and_then(|b| self.run(b, &[m]))
    } else {
      // parameters stand for themselves
      if !d.variadic && d.body.iter().any(|t| t.kind == Kind::Id && t.text[..] == *b"__VA_ARGS__") {
        return Some(Err(Bad::VarArgs));
      }
      let body = d.body.iter().map(|t| match Self::param(d, t) {
        Some(i) => (Some(Tok { kind: Kind::Param(i), text: t.text.clone(), painted: false, made: false }), false),
        None => (Some(t.clone()), t.is(b"##")),
      });
      Self::glue(body.collect()).and_then(|b| self.run(b, &[m]))
    })
  }
}
