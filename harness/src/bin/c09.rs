//! Expansion of function-like macros.
#![no_main]
use cmacro_harness::pp::{set, toks, Both};
use cmacro_harness::{entries, sym};

/// One parameter; the body and the argument text are arbitrary.
#[no_mangle]
pub extern "C" fn fn_one() {
  let (mut b, mut x) = ([0u8; 3], [0u8; 4]);
  let mut both = Both::default();
  let nb = sym::fork(4);
  both.func(b"F", &[b"p"], &toks(&mut b, nb, set(b"pFA()+")));
  both.obj(b"A", &[&b"F"[..], &b"1"[..]][..1 + sym::fork(2)]);
  let n = sym::fork(4);
  let x = toks(&mut x, n, set(b"FAp1(),"));
  let mut input: Vec<&[u8]> = vec![b"F", b"("];
  input.extend_from_slice(&x);
  input.push(b")");
  both.expand(&input, 1);
}

/// Two parameters.
#[no_mangle]
pub extern "C" fn fn_two() {
  let (mut b, mut x) = ([0u8; 3], [0u8; 5]);
  let mut both = Both::default();
  both.func(b"F", &[b"p", b"q"], &toks(&mut b, 2, set(b"pqFx,")));
  let n = sym::fork(5);
  let x = toks(&mut x, n, set(b"Fp1(),[]"));
  let mut input: Vec<&[u8]> = vec![b"F", b"("];
  input.extend_from_slice(&x);
  input.push(b")");
  both.expand(&input, 1);
}

/// No parameters.
#[no_mangle]
pub extern "C" fn fn_zero() {
  let (mut b, mut x) = ([0u8; 2], [0u8; 5]);
  let mut both = Both::default();
  let nb = sym::fork(3);
  both.func(b"F", &[], &toks(&mut b, nb, set(b"FGx(),")));
  both.func(b"G", &[b"p"], &[b"p"]);
  both.expand(&toks(&mut x, 5, set(b"FG1(),")), 1);
}

/// Two macros which call each other, and free text after the call.
#[no_mangle]
pub extern "C" fn fn_mutual() {
  let (mut f, mut g, mut x) = ([0u8; 3], [0u8; 3], [0u8; 5]);
  let mut both = Both::default();
  let nf = sym::fork(4);
  both.func(b"F", &[b"p"], &toks(&mut f, nf, set(b"pGF()")));
  let ng = 1 + sym::fork(2);
  both.func(b"G", &[b"p"], &toks(&mut g, ng, set(b"pFG(1")));
  let n = sym::fork(4);
  let x = toks(&mut x, n, set(b"FG1()"));
  let mut input: Vec<&[u8]> = vec![b"F", b"(", b"2", b")"];
  input.extend_from_slice(&x);
  both.expand(&input, 1);
}

/// Variable arguments.
#[no_mangle]
pub extern "C" fn fn_variadic() {
  let mut both = Both::default();
  let mut x = [0u8; 5];
  let mut body: Vec<&[u8]> = vec![];
  for _ in 0..3 {
    body.push([&b"__VA_ARGS__"[..], b"p", b"q", b","][sym::fork(4)]);
  }
  let params: [&[&[u8]]; 4] = [&[b"..."], &[b"p", b"..."], &[b"p", b"q", b"..."], &[b"p"]];
  both.func(b"F", params[sym::fork(4)], &body);
  let n = sym::fork(5);
  let x = toks(&mut x, n, set(b"1(),+"));
  let mut input: Vec<&[u8]> = vec![b"F", b"("];
  input.extend_from_slice(&x);
  input.push(b")");
  both.expand(&input, 1);
}

/// The definition itself: parameters stand for themselves.
#[no_mangle]
pub extern "C" fn fn_definition() {
  let (mut f, mut g) = ([0u8; 5], [0u8; 3]);
  let mut both = Both::default();
  let nf = sym::fork(6);
  both.func(b"F", &[b"p", b"q"], &toks(&mut f, nf, set(b"pqGO(),")));
  let ng = 1 + sym::fork(2);
  both.func(b"G", &[b"p"], &toks(&mut g, ng, set(b"pqFGO")));
  both.obj(b"O", [&[&b"1"[..]][..], &[b"p"], &[b"G"], &[]][sym::fork(4)]);
  both.name(b"F", 1);
}

/// Names within the arguments of calls which are part of their own replacement.
#[no_mangle]
pub extern "C" fn fn_recursion() {
  let mut both = Both::default();
  let (mut x, mut f, mut a, mut b) = ([0u8; 2], [0u8; 2], [0u8; 2], [0u8; 2]);
  let nf = 1 + sym::fork(2);
  both.func(b"F", &[b"p"], &toks(&mut f, nf, set(b"pFAB")));
  let mut body: Vec<&[u8]> = vec![b"F", b"("];
  let na = 1 + sym::fork(2);
  body.extend_from_slice(&toks(&mut a, na, set(b"ABF1")));
  body.push(b")");
  both.obj(b"A", &body);
  let mut body: Vec<&[u8]> = vec![b"F", b"("];
  body.extend_from_slice(&toks(&mut b, 1, set(b"ABFC")));
  body.push(b")");
  both.obj(b"B", &body);
  both.obj(b"C", &[b"F"]);
  let n = 1 + sym::fork(2);
  both.expand(&toks(&mut x, n, set(b"ABF1")), 1);
}

/// Parentheses which come from another macro.
#[no_mangle]
pub extern "C" fn fn_parens() {
  let mut both = Both::default();
  let (mut a, mut b, mut x) = ([0u8; 2], [0u8; 2], [0u8; 4]);
  const S: [u64; 2] = set(b"F()1p");
  both.func(b"F", &[b"p"], &[&[&b"p"[..], b"p"][..], &[b"F", b"p"], &[b"p", b")"]][sym::fork(3)]);
  let (na, nb) = (sym::fork(3), sym::fork(2));
  both.obj(b"A", &toks(&mut a, na, set(b"FB()1")));
  both.obj(b"B", &toks(&mut b, nb, S));
  let n = 1 + sym::fork(3);
  both.expand(&toks(&mut x, n, set(b"ABF1()")), 1);
}

entries![fn_recursion, fn_parens, fn_one, fn_two, fn_zero, fn_mutual, fn_variadic, fn_definition];
