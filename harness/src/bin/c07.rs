//! Expansion ends without panicking, whatever the tokens are.
#![no_main]
use cmacro::MacroSet;
use cmacro_harness::pp::{set, text, tok};
use cmacro_harness::{entries, sym};

/// Two tokens of up to three arbitrary ASCII characters each.
#[no_mangle]
pub extern "C" fn any_tokens() {
  let mut b = [[0u8; 3]; 2];
  let (n0, n1) = (sym::fork(4), sym::fork(2));
  sym::ascii(&mut b[0][..n0]);
  sym::ascii(&mut b[1][..n1]);
  let t = [text(&b[0][..n0]), text(&b[1][..n1])];
  if sym::verbose() {
    sym::note(&format!("{t:?}"));
  }
  let mut m = MacroSet::new();
  m.define_fn_macro("f", ["p"], ["p", "p"]);
  let r = m.expand(&t);
  sym::cover(1 + r.is_ok() as u32);
  sym::obs(r.map_or(0, |r| r.len() as u64 + 1));
}

/// Pasting any two tokens, one of them arbitrary, directly and through parameters.
#[no_mangle]
pub extern "C" fn any_paste() {
  const W: [&str; 22] = [
    "x", "u8", "L", "1", "1.5", ".", "\"s\"", "'c'", "'\\xff'", "\"\\xff\"", "+", "#", "##", "", "@", "__VA_ARGS__", "é", "\\u00e9",
    "/**/", "...", "3z", "(",
  ];
  let mut b = [0u8; 3];
  let n = sym::fork(4);
  sym::ascii(&mut b[..n]);
  let a = text(&b[..n]);
  let w = W[sym::fork(22)];
  let (x, y) = if sym::fork(2) == 0 { (a, w) } else { (w, a) };
  if sym::verbose() {
    sym::note(&format!("{x:?} ## {y:?}"));
  }
  let mut m = MacroSet::new();
  let r = if sym::fork(2) == 0 {
    m.define_var_macro("O", [x, "##", y]);
    m.expand_var_macro("O").map(|r| r.len())
  } else {
    m.define_fn_macro("P", ["p", "q"], ["p", "##", "q"]);
    m.define_var_macro("O", ["P", "(", x, ",", y, ")"]);
    m.expand_var_macro("O").map(|r| r.len())
  };
  sym::cover(1 + r.is_ok() as u32);
  sym::obs(r.map_or(0, |r| r as u64 + 1));
}

/// Definitions made of any sequence of operators, parameters and macro names, expanded and called.
#[no_mangle]
pub extern "C" fn any_macro() {
  const W: [&str; 15] = ["p", "#", "##", "__VA_ARGS__", "f", "(", ")", ",", "/* c */", "x", "O", "1", "\"s\"", "", "..."];
  let n = 1 + sym::fork(4);
  let mut body = vec![];
  for _ in 0..n {
    body.push(W[sym::fork(if n == 4 { 9 } else { 15 })]);
  }
  let params: [&[&str]; 8] =
    [&[], &["p"], &["..."], &["p", "..."], &["p", "q"], &["p", "q", "..."], &["p", "/* c */", "..."], &["p", "p"]];
  let params = params[sym::fork(8)];
  if sym::verbose() {
    sym::note(&format!("f({params:?}) {body:?}"));
  }
  let mut m = MacroSet::new();
  m.define_fn_macro("f", params, &body);
  m.define_var_macro("O", ["f", "(", ")"]);
  m.define_var_macro("C", ["f", "(", "O", ",", "f", ",", ")"]);
  for r in [m.expand_fn_macro("f").map(|r| r.1), m.expand_var_macro("O"), m.expand_var_macro("C")] {
    sym::cover(1 + r.is_ok() as u32);
    sym::obs(r.map_or(0, |r| r.len() as u64 + 1));
  }
}

/// Macros which call each other with each other as arguments.
#[no_mangle]
pub extern "C" fn any_recursion() {
  const S: [u64; 2] = set(b"fgpAB");
  let mut b = [0u8; 8];
  for b in b.iter_mut() {
    tok(b, S);
  }
  let v: Vec<&str> = b.chunks(1).map(text).collect();
  if sym::verbose() {
    sym::note(&format!("{v:?}"));
  }
  let mut m = MacroSet::new();
  m.define_fn_macro("f", ["p"], ["p", v[0]]);
  m.define_fn_macro("g", ["p"], [v[1], "(", v[2], ")"]);
  m.define_var_macro("A", [v[3], "(", v[4], ")"]);
  m.define_var_macro("B", [v[5], "(", v[6], v[7], ")"]);
  for n in ["A", "B"] {
    let r = m.expand_var_macro(n);
    sym::cover(1 + r.is_ok() as u32);
    sym::obs(r.map_or(0, |r| r.len() as u64 + 1));
  }
}

/// Object-like macros made of any tokens, among them operators and parentheses.
#[no_mangle]
pub extern "C" fn any_set() {
  const S: [u64; 2] = set(b"fgAB(),#");
  let mut b = [0u8; 8];
  for b in b.iter_mut() {
    tok(b, S);
  }
  let v: Vec<&str> = b.chunks(1).map(text).collect();
  if sym::verbose() {
    sym::note(&format!("{v:?}"));
  }
  let mut m = MacroSet::new();
  m.define_fn_macro("f", ["p"], ["p", v[0], v[1]]);
  m.define_fn_macro("g", [] as [&str; 0], [v[2], v[3]]);
  m.define_var_macro("A", [v[4]]);
  m.define_var_macro("B", [v[5]]);
  let text = ["f", "(", v[6], ")", v[7], ")"];
  let r = m.expand(&text);
  sym::cover(1 + r.is_ok() as u32);
  sym::obs(r.map_or(0, |r| r.len() as u64 + 1));
}

entries![any_recursion, any_tokens, any_paste, any_macro, any_set];
