//! Operators keep their grouping.
#![no_main]
use cmacro_harness::gen::{c, function, no_type, object, Ints, Out};
use cmacro_harness::pp::{set, tok};
use cmacro_harness::refs::tree::{constraints, settled, truth_as_number, undefined, N};
use cmacro_harness::{entries, sym};

const OPS: [&[u8]; 16] =
  [b"*", b"/", b"%", b"+", b"-", b"<<", b">>", b"<", b"<=", b">", b">=", b"==", b"!=", b"&", b"^", b"|"];

fn run(params: &[&[u8]], body: &[&[u8]], how: usize) {
  let want = c(body, no_type);
  let (mut deref, mut called) = (false, false);
  if let Ok(w) = &want {
    sym::assume(constraints(w) && !truth_as_number(w));
    sym::assume(!undefined(&settled(w.clone())));
    deref = w.any(&|n| n.is("u*"));
    called = w.any(&|n| matches!(n, N::Op("call", k) if !matches!(k[0], N::Leaf(_))));
  }
  let out = match (how, want) {
    (0, w) => function(params, body, (), no_type, w, 1),
    (1, w) => function(params, body, Ints, no_type, w, 1),
    (_, Ok(w)) => object(body, (), w, 1),
    _ => Out::Bad,
  };
  match out {
    Out::Done => sym::cover(1),
    Out::Bad => sym::cover(2),
    Out::ParseErr => sym::check(called, 3),
    Out::GenErr => sym::check(deref, 4),
  }
}

/// Two different one-letter names.
fn names() -> [&'static [u8]; 2] {
  let b = Box::leak(Box::new([0u8; 2]));
  for x in b.iter_mut() {
    *x = sym::range(b'a' as usize, b'z' as usize) as u8;
  }
  sym::assume(b[0] != b[1]);
  [&b[..1], &b[1..]]
}

/// Any three binary operators in a row.
#[no_mangle]
pub extern "C" fn three_ops() {
  let how = 2 * sym::fork(2);
  let n = names();
  let x: [&[u8]; 4] = if how == 2 { [b"7", b"2", b"3", b"1"] } else { [n[0], n[1], n[0], n[1]] };
  let op = || OPS[sym::fork(16)];
  let body = [x[0], op(), x[1], op(), x[2], op(), x[3]];
  run(&n, &body, how);
}

/// Any tokens.
fn free(n: usize, mask: [u64; 2], how: usize) {
  let mut b = [0u8; 8];
  let n = 1 + sym::fork(n);
  for x in b[..n].iter_mut() {
    tok(x, mask);
    *x = sym::concrete(*x as usize) as u8;
  }
  let body: Vec<&[u8]> = b[..n].chunks(1).collect();
  let want = c(&body, no_type);
  sym::assume(want.is_ok());
  run(&[b"a", b"b"], &body, how);
}

#[no_mangle]
pub extern "C" fn free_macro() {
  free(5, set(b"ab1-*!~<=?:()"), 0)
}

#[no_mangle]
pub extern "C" fn free_fn() {
  free(5, set(b"ab1-*!~<=?:()"), 1)
}

const UNARY: [&[u8]; 7] = [b"-", b"!", b"~", b"+", b"*", b"&", b"++"];
const BINARY: [&[u8]; 8] = [b"*", b"-", b"<<", b"<", b"==", b"&", b"^", b"|"];

/// An expression with operators, each operand possibly in parentheses.
fn tree(out: &mut Vec<&'static [u8]>, names: &[&'static [u8]; 4], budget: &mut usize, next: &mut usize, only: bool) {
  if *budget == 0 || (!only && sym::fork(2) == 0) {
    out.push(names[*next % 4]);
    *next += 1;
    return;
  }
  *budget -= 1;
  let mut sub = |out: &mut Vec<&'static [u8]>, only: bool| {
    let mut inner = vec![];
    tree(&mut inner, names, budget, next, only);
    let paren = inner.len() > 1 && sym::fork(2) == 1;
    if paren {
      out.push(b"(");
    }
    out.append(&mut inner);
    if paren {
      out.push(b")");
    }
  };
  match sym::fork(4) {
    0 => {
      out.push(UNARY[sym::fork(7)]);
      sub(out, false);
    },
    1 => {
      sub(out, false);
      out.push(BINARY[sym::fork(8)]);
      sub(out, false);
    },
    2 => {
      sub(out, false);
      out.push(b"?");
      sub(out, false);
      out.push(b":");
      sub(out, false);
    },
    _ => {
      sub(out, false);
      out.push([&b"++"[..], b"--"][sym::fork(2)]);
    },
  }
}

fn trees(n: usize, how: usize) {
  let mut body = vec![];
  let (mut budget, mut next) = (n, 0);
  let names = names();
  tree(&mut body, &[names[0], names[1], b"1", names[0]], &mut budget, &mut next, true);
  sym::assume(budget == 0);
  sym::assume(c(&body, no_type).is_ok());
  run(&names, &body, how);
}

#[no_mangle]
pub extern "C" fn trees_macro() {
  trees(2, 0)
}

#[no_mangle]
pub extern "C" fn trees_fn() {
  trees(2, 1)
}

#[no_mangle]
pub extern "C" fn trees_deep() {
  trees(3, 0)
}

entries![trees_macro, trees_fn, trees_deep, three_ops, free_macro, free_fn];
