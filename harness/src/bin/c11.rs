//! Definition, redefinition and removal of macros.
#![no_main]
use cmacro::{ExpansionError, Identifier, MacroSet, MacroToken};
use cmacro_harness::pp::{set, text, tok, toks};
use cmacro_harness::{entries, sym};

#[derive(Clone, PartialEq)]
enum Def {
  Var(Vec<Vec<u8>>),
  Fn(Vec<Vec<u8>>, Vec<Vec<u8>>),
}

fn words(v: &[&[u8]]) -> Vec<Vec<u8>> {
  v.iter().filter(|w| w.iter().any(|c| *c != b' ') && w[0] != b'/').map(|w| w.to_vec()).collect()
}

struct World {
  set: MacroSet,
  model: Vec<(Vec<u8>, Def)>,
}

impl World {
  fn get(&self, name: &[u8]) -> Option<usize> {
    self.model.iter().position(|d| d.0[..] == *name)
  }
  fn put(&mut self, name: &[u8], d: Def) -> bool {
    match self.get(name) {
      Some(i) => {
        let changed = self.model[i].1 != d;
        self.model[i].1 = d;
        changed
      },
      None => {
        self.model.push((name.to_vec(), d));
        false
      },
    }
  }
  fn var(&mut self, name: &[u8], body: &[&[u8]]) {
    let r = self.set.define_var_macro(text(name), body.iter().map(|t| text(t)));
    let want = self.put(name, Def::Var(words(body)));
    if sym::verbose() {
      sym::note(&format!("define {} {:?} -> {r}", text(name), body.iter().map(|t| text(t)).collect::<Vec<_>>()));
    }
    sym::cover(1 + r as u32);
    sym::check(r == want, 1);
  }
  fn func(&mut self, name: &[u8], params: &[&[u8]], body: &[&[u8]]) {
    let r = self.set.define_fn_macro(text(name), params.iter().map(|t| text(t)), body.iter().map(|t| text(t)));
    let want = self.put(name, Def::Fn(words(params), words(body)));
    if sym::verbose() {
      let s = |v: &[&[u8]]| format!("{:?}", v.iter().map(|t| text(t)).collect::<Vec<_>>());
      sym::note(&format!("define {}({}) {} -> {r}", text(name), s(params), s(body)));
    }
    sym::cover(3 + r as u32);
    sym::check(r == want, 2);
  }
  fn undef(&mut self, name: &[u8], function: bool) {
    let i = self.get(name).filter(|i| matches!(self.model[*i].1, Def::Fn(..)) == function);
    let r = if function { self.set.undefine_fn_macro(text(name)) } else { self.set.undefine_var_macro(text(name)) };
    if sym::verbose() {
      sym::note(&format!("undefine {} {function} -> {r}", text(name)));
    }
    sym::cover(5 + r as u32);
    sym::check(r == i.is_some(), 3);
    if let Some(i) = i {
      self.model.remove(i);
    }
  }
  /// What is defined is what was defined last.
  fn look(&self, name: &[u8]) {
    let d = self.get(name).map(|i| &self.model[i].1);
    let v = self.set.expand_var_macro(text(name));
    let f = self.set.expand_fn_macro(text(name));
    if sym::verbose() {
      sym::note(&format!("look {}: {v:?} {f:?}", text(name)));
    }
    match d {
      Some(Def::Var(b)) => {
        sym::check(f == Err(ExpansionError::MacroNotFound), 4);
        sym::check(v.map_or(false, |v| ids(&v, b)), 5);
      },
      Some(Def::Fn(p, b)) => {
        sym::check(v == Err(ExpansionError::MacroNotFound), 4);
        sym::check(f.map_or(false, |(a, v)| ids(&a, p) && ids(&v, b)), 6);
      },
      None => {
        sym::check(f == Err(ExpansionError::MacroNotFound), 4);
        sym::check(v == Err(ExpansionError::MacroNotFound), 4);
      },
    }
  }
}

fn ids(t: &[MacroToken], w: &[Vec<u8>]) -> bool {
  t.len() == w.len()
    && t.iter().zip(w).all(|(t, w)| match t {
      MacroToken::Identifier(i) => i.as_str().as_bytes() == &w[..],
      _ => false,
    })
}

/// Two definitions of one object-like macro with any white space between the tokens.
#[no_mangle]
pub extern "C" fn redefine_object() {
  let mut w = World { set: MacroSet::new(), model: vec![] };
  let (mut a, mut b) = ([0u8; 3], [0u8; 3]);
  const S: [u64; 2] = set(b"xyz");
  let (na, nb) = (sym::fork(4), sym::fork(4));
  let mut a = toks(&mut a, na, S);
  let mut b = toks(&mut b, nb, S);
  let ws: [&[u8]; 3] = [b" ", b"/* , */", b"// z"];
  if sym::fork(2) == 1 {
    let p = sym::fork(4);
    sym::assume(p <= a.len());
    a.insert(p, ws[sym::fork(3)]);
  }
  if sym::fork(2) == 1 {
    let p = sym::fork(4);
    sym::assume(p <= b.len());
    b.insert(p, ws[sym::fork(3)]);
  }
  w.var(b"m", &a);
  w.var(b"m", &b);
}

/// Two definitions of one function-like macro.
#[no_mangle]
pub extern "C" fn redefine_function() {
  let mut w = World { set: MacroSet::new(), model: vec![] };
  let (mut a, mut b, mut p, mut q) = ([0u8; 2], [0u8; 2], [0u8; 2], [0u8; 2]);
  const S: [u64; 2] = set(b"xyz");
  const P: [u64; 2] = set(b"pq");
  let (na, nb, np, nq) = (sym::fork(3), sym::fork(3), sym::fork(3), sym::fork(3));
  let a = toks(&mut a, na, S);
  let b = toks(&mut b, nb, S);
  let mut p = toks(&mut p, np, P);
  let mut q = toks(&mut q, nq, P);
  match sym::fork(5) {
    1 => p.push(b"..."),
    2 => q.push(b"..."),
    3 => {
      p.push(b"...");
      q.push(b"...")
    },
    4 => p.push(b"/* p */"),
    _ => (),
  }
  w.func(b"m", &p, &a);
  w.func(b"m", &q, &b);
}

/// Sequences of operations on two names.
#[no_mangle]
pub extern "C" fn history() {
  let mut w = World { set: MacroSet::new(), model: vec![] };
  let mut names = [[0u8; 1]; 4];
  let mut bodies = [[0u8; 1]; 4];
  for i in 0..4 {
    tok(&mut names[i][0], set(b"mn"));
    tok(&mut bodies[i][0], set(b"xy"));
    let n = &names[i];
    let b: &[u8] = &bodies[i];
    match sym::fork(if i == 0 { 2 } else { 5 }) {
      0 => w.var(n, &[b]),
      1 => w.func(n, &[b"p"], &[b]),
      2 => w.undef(n, false),
      3 => w.undef(n, true),
      _ => w.var(n, &[]),
    }
  }
  w.look(b"m");
  w.look(b"n");
}

/// A copy of the set does not follow later changes, and names are exact.
#[no_mangle]
pub extern "C" fn names() {
  let mut s = MacroSet::new();
  let (mut a, mut b) = ([0u8; 2], [0u8; 2]);
  let (na, nb) = (1 + sym::fork(2), 1 + sym::fork(2));
  for x in a[..na].iter_mut().chain(b[..nb].iter_mut()) {
    tok(x, set(b"abAB_"));
  }
  let (a, b) = (text(&a[..na]), text(&b[..nb]));
  s.define_var_macro(a, ["x"]);
  let old = s.clone();
  let r = s.define_var_macro(b, ["y"]);
  sym::check(r == (a == b), 7);
  let x = vec![MacroToken::Identifier(Identifier::try_from("x").unwrap())];
  let y = vec![MacroToken::Identifier(Identifier::try_from("y").unwrap())];
  sym::check(old.expand_var_macro(a) == Ok(x.clone()), 8);
  sym::check(s.expand_var_macro(b) == Ok(y.clone()), 8);
  sym::check(s.expand_var_macro(a) == Ok(if a == b { y } else { x }), 8);
  sym::cover(1 + r as u32);
}

entries![redefine_object, redefine_function, history, names];
