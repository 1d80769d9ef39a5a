//! Comments are white space.
#![no_main]
use cmacro::{ExpansionError, MacroSet, MacroToken};
use cmacro_harness::pp::text;
use cmacro_harness::{entries, sym};

fn with<'a>(t: &[&'a str], pos: usize, c: &'a str) -> Vec<&'a str> {
  let mut v = t.to_vec();
  v.insert(pos, c);
  v
}

/// A comment with up to three arbitrary characters in it.
fn comment(b: &mut [u8; 8]) -> usize {
  let n = sym::fork(4);
  sym::ascii(&mut b[2..2 + n]);
  if sym::fork(2) == 0 {
    for i in 3..2 + n {
      sym::assume(!(b[i - 1] == b'*' && b[i] == b'/'));
    }
    b[..2].copy_from_slice(b"/*");
    b[2 + n..4 + n].copy_from_slice(b"*/");
    4 + n
  } else {
    for c in &b[2..2 + n] {
      sym::assume(*c != b'\n');
    }
    b[..2].copy_from_slice(b"//");
    2 + n
  }
}

fn plain<'t>(r: Result<Vec<MacroToken<'t>>, ExpansionError>) -> Result<Vec<MacroToken<'t>>, ExpansionError> {
  r.map(|v| v.into_iter().filter(|t| !matches!(t, MacroToken::Comment(_))).collect())
}

fn base(m: &mut MacroSet) {
  m.define_var_macro("A", ["7"]);
  m.define_fn_macro("f", ["p", "q"], ["p", "+", "q"]);
  m.define_fn_macro("s", ["p"], ["#", "p"]);
  m.define_fn_macro("v", ["p", "..."], ["p", "__VA_ARGS__"]);
  m.define_fn_macro("z", [] as [&str; 0], ["0"]);
}

const BODIES: [&[&str]; 9] = [
  &["f", "(", "1", ",", "2", ")"],
  &["s", "(", "x", "y", ")"],
  &["a", "##", "b", "##", "c"],
  &["v", "(", "1", ",", "2", ",", "3", ")"],
  &["z", "(", ")"],
  &["z", "(", "1", ")"],
  &["f", "A"],
  &["##", "a"],
  &["v", "(", ")"],
];

/// A comment anywhere in an object-like macro.
#[no_mangle]
pub extern "C" fn in_object() {
  let mut b = [0u8; 8];
  let n = comment(&mut b);
  let c = text(&b[..n]);
  let body = BODIES[sym::fork(9)];
  let pos = sym::fork(9);
  sym::assume(pos <= body.len());
  let with = with(body, pos, c);
  if sym::verbose() {
    sym::note(&format!("{with:?}"));
  }
  let mut m = MacroSet::new();
  base(&mut m);
  m.define_var_macro("X", body);
  m.define_var_macro("Y", &with);
  let (x, y) = (plain(m.expand_var_macro("X")), plain(m.expand_var_macro("Y")));
  if sym::verbose() {
    sym::note(&format!("{x:?} / {y:?}"));
  }
  sym::cover(1 + x.is_ok() as u32);
  sym::check(x == y, 1);
  sym::check(plain(m.expand(&with)) == x, 2);
  sym::check(!m.define_var_macro("X", &with), 3);
}

const FNS: [&[&str]; 8] = [
  &["#", "p"],
  &["p", "##", "q"],
  &["p", "##", "x", "q"],
  &["#", "q", "p"],
  &["f", "(", "p", ",", "q", ")"],
  &["s", "(", "p", "q", ")"],
  &["p", "(", "q", ")"],
  &["x", "#"],
];

/// A comment anywhere in a function-like macro: in its parameters, its body, or a call of it.
#[no_mangle]
pub extern "C" fn in_function() {
  let mut b = [0u8; 8];
  let n = comment(&mut b);
  let c = text(&b[..n]);
  let body = FNS[sym::fork(8)];
  let call = ["X", "(", "A", ",", "x", ")"];
  let pos = sym::fork(7);
  let (mut params, mut with_body) = (vec!["p", "q"], body.to_vec());
  let mut with_call = call.to_vec();
  match sym::fork(3) {
    0 => {
      sym::assume(pos <= 2);
      params = with(&["p", "q"], pos, c);
    },
    1 => {
      sym::assume(pos <= body.len());
      with_body = with(body, pos, c);
    },
    _ => with_call = with(&call, pos, c),
  }
  if sym::verbose() {
    sym::note(&format!("{params:?} {with_body:?} {with_call:?}"));
  }
  let mut m = MacroSet::new();
  base(&mut m);
  m.define_fn_macro("X", ["p", "q"], body);
  let (d, e) = (m.expand_fn_macro("X"), m.expand(&call));
  let mut m2 = MacroSet::new();
  base(&mut m2);
  m2.define_fn_macro("X", ["p", "q"], body);
  sym::check(!m2.define_fn_macro("X", &params, &with_body), 4);
  let (d2, e2) = (m2.expand_fn_macro("X"), m2.expand(&with_call));
  if sym::verbose() {
    sym::note(&format!("{d:?} / {d2:?} | {e:?} / {e2:?}"));
  }
  sym::cover(1 + e.is_ok() as u32);
  sym::check(plain(e) == plain(e2), 5);
  sym::check(plain(d.clone_err().1) == plain(d2.clone_err().1), 6);
  sym::check(plain(d.clone_err().0) == plain(d2.clone_err().0), 7);
}

trait Split<'t> {
  fn clone_err(&self) -> (Result<Vec<MacroToken<'t>>, ExpansionError>, Result<Vec<MacroToken<'t>>, ExpansionError>);
}

impl<'t> Split<'t> for Result<(Vec<MacroToken<'t>>, Vec<MacroToken<'t>>), ExpansionError> {
  fn clone_err(&self) -> (Result<Vec<MacroToken<'t>>, ExpansionError>, Result<Vec<MacroToken<'t>>, ExpansionError>) {
    match self {
      Ok((a, b)) => (Ok(a.clone()), Ok(b.clone())),
      Err(_) => (Err(ExpansionError::MacroNotFound), Err(ExpansionError::MacroNotFound)),
    }
  }
}

entries![in_object, in_function];
