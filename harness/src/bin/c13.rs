//! Places: assignments, increments, members, elements, addresses.
#![no_main]
use cmacro::CodegenContext;
use cmacro_harness::gen::{c, function, Ints, Out};
use cmacro_harness::refs::tree::{constraints, settled, truth_as_number, undefined};
use cmacro_harness::{entries, sym};

/// The first parameter is a pointer, the second one an integer.
struct Pointers(u8);

impl CodegenContext for Pointers {
  fn macro_arg_ty(&self, _: &str, arg: &str) -> Option<syn::Type> {
    Some(if arg.as_bytes()[0] == self.0 { syn::parse_quote! { *mut c_int } } else { syn::parse_quote! { c_int } })
  }
}

const ASSIGN: [&[u8]; 11] = [b"=", b"+=", b"-=", b"*=", b"/=", b"%=", b"<<=", b">>=", b"&=", b"^=", b"|="];

fn is_type(t: &[u8]) -> bool {
  matches!(t, b"int" | b"char" | b"volatile" | b"const")
}

/// Two different one-letter names.
fn names() -> [&'static [u8]; 2] {
  let b = Box::leak(Box::new([0u8; 2]));
  for x in b.iter_mut() {
    *x = sym::range(b'a' as usize, b'z' as usize) as u8;
  }
  sym::assume(b[0] != b[1]);
  [&b[..1], &b[1..]]
}

struct Gen {
  out: Vec<&'static [u8]>,
  names: [&'static [u8]; 2],
  budget: usize,
  next: usize,
}

impl Gen {
  fn leaf(&mut self) {
    self.out.push(if self.next == 2 { b"1" } else { self.names[self.next % 2] });
    self.next += 1;
  }
  /// An operand with the parentheses it needs, or with more.
  fn sub(&mut self, place: bool, simple: bool) {
    if self.budget == 0 || sym::fork(2) == 0 {
      return self.leaf();
    }
    if simple {
      self.out.push(b"(");
    }
    self.op(place);
    if simple {
      self.out.push(b")");
    }
  }
  fn op(&mut self, place: bool) {
    self.budget -= 1;
    match sym::fork(if place { 4 } else { 9 }) {
      0 => {
        self.out.push(b"*");
        self.sub(false, true);
      },
      1 => {
        self.sub(true, true);
        self.out.push(b".");
        self.out.push(b"m");
      },
      2 => {
        self.sub(false, true);
        self.out.push(b"->");
        self.out.push(b"m");
      },
      3 => {
        self.sub(false, true);
        self.out.push(b"[");
        self.sub(false, false);
        self.out.push(b"]");
      },
      4 => {
        self.sub(true, true);
        self.out.push([&b"++"[..], b"--"][sym::fork(2)]);
      },
      5 => {
        self.out.push([&b"++"[..], b"--"][sym::fork(2)]);
        self.sub(true, true);
      },
      6 => {
        self.sub(true, true);
        self.out.push([&b"="[..], b"-="][sym::fork(2)]);
        self.sub(false, false);
      },
      7 => {
        self.out.push(b"&");
        self.sub(true, true);
      },
      _ => {
        self.out.push(b"g");
        self.out.push(b"(");
        if sym::fork(2) == 1 {
          self.sub(false, false);
        }
        self.out.push(b")");
      },
    }
  }
}

fn run(params: &[&[u8]], body: &[&[u8]], how: usize) {
  let want = c(body, is_type);
  sym::assume(want.is_ok());
  let w = want.as_ref().unwrap();
  sym::assume(constraints(w) && !truth_as_number(w));
  sym::assume(!undefined(&settled(w.clone())));
  let out = match how {
    0 => function(params, body, (), is_type, want, 1),
    1 => function(params, body, Ints, is_type, want, 1),
    _ => function(params, body, Pointers(params[0][0]), is_type, want, 1),
  };
  match out {
    Out::Done => sym::cover(1),
    Out::Bad => sym::cover(2),
    Out::ParseErr => sym::check(false, 3),
    // ill-typed
    Out::GenErr => sym::check(how > 0, 4),
  }
}

fn places(n: usize, how: usize) {
  let names = names();
  sym::assume(names[0] != b"g" && names[1] != b"g" && names[0] != b"m" && names[1] != b"m");
  let mut g = Gen { out: vec![], names, budget: n, next: 0 };
  g.op(false);
  sym::assume(g.budget == 0);
  run(&names, &g.out, how);
}

#[no_mangle]
pub extern "C" fn places_macro() {
  places(2, 0)
}

#[no_mangle]
pub extern "C" fn places_fn() {
  places(2, 1 + sym::fork(2))
}

#[no_mangle]
pub extern "C" fn places_deep() {
  places(3, 0)
}

/// Every use of something volatile.
#[no_mangle]
pub extern "C" fn volatiles() {
  let names = names();
  let (x, y) = (names[0], names[1]);
  let mut ty: Vec<&[u8]> = match sym::fork(6) {
    0 => vec![b"volatile", b"int"],
    1 => vec![b"int", b"volatile"],
    2 => vec![b"volatile", b"const", b"char"],
    3 => vec![b"const", b"volatile", b"int"],
    4 => vec![b"volatile", b"int", b"volatile"],
    _ => vec![b"int"],
  };
  ty.insert(0, b"(");
  ty.push(b"*");
  if sym::fork(3) == 2 {
    ty.push(b"*");
  }
  ty.push(b")");
  let pointer: Vec<&[u8]> = match sym::fork(4) {
    0 => vec![x],
    1 => vec![x, b"++"],
    2 => vec![b"&", x],
    _ => vec![b"(", x, b"+", y, b")"],
  };
  ty.extend(pointer);
  let p = ty;
  let wrap = |a: &[&'static [u8]], p: &[&'static [u8]], b: &[&'static [u8]]| [a, p, b].concat();
  let place = match sym::fork(5) {
    0 => wrap(&[b"(", b"*"], &p, &[b")"]),
    1 => wrap(&[b"(", b"("], &p, &[b")", b"->", b"m", b")"]),
    2 => wrap(&[b"(", b"("], &p, &[b")", b"->", b"m", b".", b"n", b")"]),
    3 => wrap(&[b"(", b"("], &p, &[b")", b"[", y, b"]", b")"]),
    _ => wrap(&[b"(", b"*", b"(", b"("], &p, &[b")", b"-", y, b")", b")"]),
  };
  let body = match sym::fork(8) {
    0 => place,
    1 => wrap(&[b"++"], &place, &[]),
    2 => wrap(&[b"--"], &place, &[]),
    3 => wrap(&[], &place, &[b"++"]),
    4 => wrap(&[], &place, &[b"--"]),
    5 => wrap(&[b"&"], &place, &[]),
    6 => wrap(&[y, b"-"], &place, &[b"*", y]),
    _ => wrap(&[], &place, &[b"=", y]),
  };
  run(&names, &body, 0);
}

/// All assignment operators, on something volatile or not.
#[no_mangle]
pub extern "C" fn assignments() {
  let names = names();
  let (x, y) = (names[0], names[1]);
  let op = ASSIGN[sym::fork(11)];
  let place: Vec<&[u8]> = match sym::fork(10) {
    0 => vec![x],
    1 => vec![b"*", x],
    2 => vec![b"*", x, b"++"],
    3 => vec![b"*", b"(", b"volatile", b"int", b"*", b")", x],
    4 => vec![b"*", b"(", b"volatile", b"int", b"*", b")", x, b"++"],
    5 => vec![b"(", b"(", b"volatile", b"int", b"*", b")", x, b")", b"[", b"1", b"]"],
    6 => vec![b"(", b"(", b"volatile", b"int", b"*", b")", x, b")", b"->", b"m"],
    7 => vec![b"(", b"(", b"volatile", b"int", b"*", b")", x, b")", b"[", x, b"++", b"]"],
    8 => vec![b"(", b"(", b"volatile", b"int", b"*", b")", x, b"++", b")", b"->", b"m", b".", b"n"],
    _ => vec![b"*", b"(", b"int", b"*", b")", x],
  };
  let value: Vec<&[u8]> = match sym::fork(5) {
    0 => vec![y],
    1 => vec![y, b"+", b"1"],
    2 => vec![y, b"|", b"1"],
    3 => vec![y, b"=", b"1"],
    _ => vec![b"-", y],
  };
  let mut body = place;
  body.push(op);
  body.extend(value);
  run(&names, &body, 0);
}

entries![places_macro, places_fn, places_deep, assignments, volatiles];
