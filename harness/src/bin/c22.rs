//! Statements keep their structure.
#![no_main]
use cmacro::{FnMacro, MacroSet, VarMacro};
use cmacro_harness::gen::Ints;
use cmacro_harness::pp::text;
use cmacro_harness::refs::rexpr::{self, show};
use cmacro_harness::refs::stmt::{normal, rust, St, Stmts, KEYWORDS};
use cmacro_harness::{entries, sym};

fn run(toks: &[&[u8]], known: bool) {
  if sym::verbose() {
    sym::note(&toks.iter().map(|t| text(t)).collect::<Vec<_>>().join(" "));
  }
  // strings in arguments
  sym::assume(!toks.windows(2).any(|w| w == [b"x", b"x"]));
  // types in arguments
  sym::assume(!toks.windows(2).any(|w| w[0] == b"x" && matches!(w[1], b"a" | b"c" | b"e")));
  // calls of values
  sym::assume(!toks.windows(2).any(|w| w == [b")", b"("]));
  let want = Stmts::all(toks).map(normal);
  if sym::verbose() {
    sym::note(&format!("in C {:?}", want));
  }

  // an object-like macro is an expression
  if want.is_err() || toks.contains(&&b";"[..]) {
    let mut set = MacroSet::new();
    set.define_var_macro("V", toks.iter().map(|t| text(t)));
    let got = set.expand_var_macro("V").ok().and_then(|body| VarMacro::parse("V", &body).ok()?.generate(()).ok());
    sym::check(got.is_none(), 6);
  }

  let mut set = MacroSet::new();
  set.define_fn_macro("F", ["x"], toks.iter().map(|t| text(t)));
  let got = set.expand_fn_macro("F").ok().and_then(|(args, body)| {
    let mut m = FnMacro::parse("F", &args, &body).ok()?;
    if known { m.generate(Ints) } else { m.generate(()) }.ok()
  });
  match (got, want) {
    (None, Err(())) => sym::cover(2),
    (Some(ts), Err(())) => {
      if sym::verbose() {
        sym::note(&show(&rexpr::tokens(ts)));
      }
      sym::check(false, 1);
    },
    (None, Ok(_)) => sym::check(false, 2),
    (Some(ts), Ok(want)) => {
      sym::cover(1);
      let t = rexpr::tokens(ts);
      if sym::verbose() {
        sym::note(&show(&t));
      }
      let (is_fn, code) = match rexpr::item(&t) {
        Some(rexpr::Item::Macro(t)) => (false, t),
        Some(rexpr::Item::Fn(t)) => (true, t),
        None => return sym::check(false, 3),
      };
      // An expression without semicolon has a value.
      let value = toks.last() != Some(&&b";"[..]) && matches!(want[..], [St::Expr(_)]) && !toks.iter().any(|t| matches!(*t, b";" | b"{" | b"do"));
      if value {
        return;
      }
      sym::check(!is_fn || !want.iter().any(|s| s.jumps(false)), 5);
      let got = rust(&code);
      if sym::verbose() {
        sym::note(&format!("got {:?}", got));
      }
      match got {
        Ok(got) => sym::check(normal(got) == want, 4),
        Err(_) => sym::check(false, 3),
      }
    },
  }
}

const PARTS: [&[&[u8]]; 13] = [
  &[b"a"],
  &[b";"],
  &[b"{"],
  &[b"}"],
  &[b"if"],
  &[b"(", b"b", b")"],
  &[b"else"],
  &[b"do"],
  &[b"while"],
  &[b"c", b"="],
  &[b"int"],
  &[b"return"],
  &[b"x"],
];

fn free(n: usize) {
  let mut toks: Vec<&[u8]> = vec![];
  for _ in 0..n {
    toks.extend_from_slice(PARTS[sym::fork(PARTS.len())]);
  }
  run(&toks, false);
}

#[no_mangle]
pub extern "C" fn short() {
  free(1 + sym::fork(3));
}

#[no_mangle]
pub extern "C" fn four() {
  free(4);
}

#[no_mangle]
pub extern "C" fn five() {
  free(5);
}

const LONG: [&[&[u8]]; 13] = [
  &[b"a", b"(", b")", b";"],
  &[b"x"],
  &[b";"],
  &[b"{"],
  &[b"}"],
  &[b"if", b"(", b"c", b")"],
  &[b"else"],
  &[b"do"],
  &[b"while", b"(", b"d", b")"],
  &[b"int", b"e", b"=", b"1", b";"],
  &[b"break", b";"],
  &[b"continue", b";"],
  &[b"return"],
];

fn phrases(n: usize) {
  let mut toks: Vec<&[u8]> = vec![];
  for _ in 0..n {
    toks.extend_from_slice(LONG[sym::fork(LONG.len())]);
  }
  run(&toks, false);
}

#[no_mangle]
pub extern "C" fn four_phrases() {
  phrases(4);
}

#[no_mangle]
pub extern "C" fn five_phrases() {
  phrases(5);
}

/// Any word before something which makes it an expression, a call or a declaration.
#[no_mangle]
pub extern "C" fn words() {
  let mut b = [0u8; 8];
  let n = 2 + sym::fork(7);
  for x in b[..n].iter_mut() {
    *x = sym::range(b'a' as usize, b'z' as usize) as u8;
  }
  word(&b[..n]);
}

/// All keywords.
#[no_mangle]
pub extern "C" fn keywords() {
  let n = sym::fork(KEYWORDS.len());
  word(KEYWORDS[n]);
}

fn word(w: &[u8]) {
  sym::assume(!matches!(w, b"asm" | b"offsetof" | b"sizeof"));
  const FORMS: [(&[&[u8]], &[&[u8]]); 9] = [
    (&[], &[b";"]),
    (&[], &[b"a", b"=", b"b", b";"]),
    (&[], &[b"(", b"a", b")", b";"]),
    (&[b"a", b";"], &[b"(", b"a", b")", b";"]),
    (&[b"{"], &[b";", b"}"]),
    (&[b"if", b"(", b"a", b")"], &[b";"]),
    (&[b"a", b"="], &[b"+", b"1", b";"]),
    (&[b"a", b"=", b"(", b"("], &[b")", b"+", b"1", b")", b";"]),
    (&[b"int"], &[b"=", b"1", b";"]),
  ];
  let form = sym::fork(FORMS.len());
  let (before, after) = FORMS[form];
  // types
  sym::assume(!matches!(form, 1 | 7) || !matches!(w, b"char" | b"short" | b"int" | b"long" | b"float" | b"double" | b"signed" | b"unsigned" | b"bool" | b"void"));
  sym::assume(form != 8 || w != b"bool");
  let mut toks: Vec<&[u8]> = before.to_vec();
  toks.push(w);
  toks.extend_from_slice(after);
  run(&toks, sym::fork(2) == 1);
}

const NAMES: [[u8; 2]; 8] = [*b"f0", *b"f1", *b"f2", *b"f3", *b"f4", *b"f5", *b"f6", *b"f7"];

/// Any statement of a bounded size.
fn grow(out: &mut Vec<&'static [u8]>, left: &mut usize, next: &mut usize, jumps: bool) {
  let mut name = || {
    *next += 1;
    &NAMES[*next - 1][..]
  };
  let kinds = if *left == 0 { 2 } else { 7 };
  match sym::fork(kinds) {
    0 if jumps && sym::fork(2) == 1 => {
      let jump = sym::fork(4);
      out.push([&b"break"[..], b"continue", b"return", b"return"][jump]);
      if jump == 3 {
        out.push(b"x");
      }
      out.push(b";");
    },
    0 => out.extend_from_slice(&[name(), b"(", b")", b";"]),
    1 => out.extend_from_slice(&[b";"]),
    2 => out.extend_from_slice(&[name(), b"=", b"x", b";"]),
    3 => {
      *left -= 1;
      out.push(b"{");
      for _ in 0..sym::fork(3) {
        if *left > 0 && sym::fork(2) == 1 {
          *left -= 1;
          out.extend_from_slice(&[b"int", b"y", b"=", b"x", b";"]);
        }
        grow(out, left, next, jumps);
      }
      out.push(b"}");
    },
    k @ (4 | 5) => {
      *left -= 1;
      out.extend_from_slice(&[b"if", b"(", name(), b")"]);
      grow(out, left, next, jumps);
      if k == 5 {
        out.push(b"else");
        grow(out, left, next, jumps);
      }
    },
    _ => {
      *left -= 1;
      out.push(b"do");
      grow(out, left, next, jumps);
      out.extend_from_slice(&[b"while", b"(", [&b"0"[..], b"x"][sym::fork(2)], b")", b";"]);
    },
  }
}

fn grown(size: usize, jumps: bool) {
  let mut toks = vec![];
  let mut left = size;
  let mut next = 0;
  for _ in 0..1 + sym::fork(2) {
    grow(&mut toks, &mut left, &mut next, jumps);
  }
  sym::assume(left == 0);
  run(&toks, true);
}

#[no_mangle]
pub extern "C" fn small() {
  grown(sym::fork(2), true);
}

#[no_mangle]
pub extern "C" fn medium() {
  grown(2, false);
}

#[no_mangle]
pub extern "C" fn medium_jumps() {
  grown(2, true);
}

#[no_mangle]
pub extern "C" fn large() {
  grown(3, false);
}

entries![short, four, five, four_phrases, five_phrases, words, keywords, small, medium, medium_jumps, large];
