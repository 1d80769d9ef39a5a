//! Expansion of object-like macros.
#![no_main]
use cmacro_harness::pp::{set, toks, Both};
use cmacro_harness::{entries, sym};

const ANY: [u64; 2] = set(b"ABCabc12()*+,-");

/// Three macros with up to two tokens each, in every order of definition.
#[no_mangle]
pub extern "C" fn obj_chain() {
  let mut t = [[0u8; 2]; 3];
  let mut both = Both::default();
  let order = [[0, 1, 2], [2, 1, 0], [1, 0, 2]][sym::fork(3)];
  let [a, b, c] = &mut t;
  let (na, nb, nc) = (1 + sym::fork(2), sym::fork(3), sym::fork(2));
  let (a, b, c) = (toks(a, na, ANY), toks(b, nb, ANY), toks(c, nc, ANY));
  for m in order {
    match m {
      0 => both.obj(b"A", &a),
      1 => both.obj(b"B", &b),
      _ => both.obj(b"C", &c),
    }
  }
  both.name(b"A", 1);
}

/// A sequence of tokens, expanded with two macros.
fn free_text(n: usize, na: usize, nb: usize) {
  const S: [u64; 2] = set(b"ABa1(+");
  let mut t = [[0u8; 4]; 3];
  let mut both = Both::default();
  let [a, b, c] = &mut t;
  let (na, nb) = (sym::fork(na), sym::fork(nb));
  both.obj(b"A", &toks(a, na, S));
  both.obj(b"B", &toks(b, nb, S));
  both.expand(&toks(c, n, S), 1);
}

#[no_mangle]
pub extern "C" fn obj_text() {
  free_text(3, 3, 2)
}

#[no_mangle]
pub extern "C" fn obj_text_deep() {
  free_text(4, 3, 3)
}

entries![obj_chain, obj_text, obj_text_deep];
