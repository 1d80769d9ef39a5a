//! Results depend on nothing but the inputs.
#![no_main]
use cmacro::{CodegenContext, FnMacro, MacroSet, MacroToken, VarMacro};
use cmacro_harness::pp::text;
use cmacro_harness::{entries, sym};

#[derive(Clone, Copy, PartialEq)]
enum Cx {
  Nothing,
  Types,
  Old,
}

impl CodegenContext for Cx {
  fn macro_arg_ty(&self, _: &str, a: &str) -> Option<syn::Type> {
    match a {
      _ if *self != Cx::Types => None,
      "p" => syn::parse_str("* mut c_int").ok(),
      _ => syn::parse_str("c_int").ok(),
    }
  }
  fn rust_target(&self) -> Option<String> {
    (*self == Cx::Old).then(|| "1.16.0".into())
  }
  fn ffi_prefix(&self) -> Option<syn::Path> {
    (*self == Cx::Old).then(|| syn::parse_str("::f").unwrap())
  }
  fn trait_prefix(&self) -> Option<syn::Path> {
    (*self == Cx::Old).then(|| syn::parse_str("::t").unwrap())
  }
  fn resolve_enum_variant(&self, v: &str) -> Option<(syn::Type, syn::Expr)> {
    (*self != Cx::Nothing && v == "E").then(|| (syn::parse_str("En").unwrap(), syn::parse_str("En::E").unwrap()))
  }
  fn resolve_ty(&self, ty: &str) -> Option<syn::Type> {
    match ty {
      "T" if *self == Cx::Types => syn::parse_str("c_long").ok(),
      // refers to another name which can be resolved
      "T" if *self == Cx::Old => syn::parse_str("U").ok(),
      "U" => syn::parse_str("V").ok(),
      "En" => syn::parse_str("En").ok(),
      _ => None,
    }
  }
  fn function(&self, n: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
    (*self != Cx::Nothing && n == "g").then(|| (vec![syn::parse_str("c_long").unwrap()], syn::parse_str("c_int").unwrap()))
  }
}

fn cx() -> Cx {
  [Cx::Nothing, Cx::Types, Cx::Old][sym::fork(3)]
}

fn show(body: &[&[u8]]) -> String {
  body.iter().map(|t| text(t)).collect::<Vec<_>>().join(" ")
}

/// Generating twice gives the same.
fn function(body: &[&[u8]], cx: Cx) {
  if sym::verbose() {
    sym::note(&show(body));
  }
  let mut set = MacroSet::new();
  set.define_fn_macro("F", ["x", "p"], body.iter().map(|t| text(t)));
  let Ok((args, toks)) = set.expand_fn_macro("F") else { return };
  let Ok(mut m) = FnMacro::parse("F", &args, &toks) else { return };
  let mut fresh = m.clone();
  let first = m.generate(&cx);
  let second = m.generate(&&cx);
  let (first, second, third) = match (first, second, fresh.generate(cx)) {
    (Ok(a), Ok(b), Ok(c)) => (a.to_string(), b.to_string(), c.to_string()),
    // an error may leave the macro in any state
    (Err(_), _, c) => return sym::check(c.is_err(), 2),
    _ => return sym::check(false, 1),
  };
  if sym::verbose() {
    sym::note(&first);
    sym::note(&second);
  }
  sym::check(first == second, 1);
  sym::check(first == third, 2);
  sym::cover(1);
}

fn object(body: &[&[u8]], cx: Cx) {
  if sym::verbose() {
    sym::note(&show(body));
  }
  let mut set = MacroSet::new();
  set.define_var_macro("V", body.iter().map(|t| text(t)));
  let Ok(toks) = set.expand_var_macro("V") else { return };
  let Ok(mut m) = VarMacro::parse("V", &toks) else { return };
  let mut fresh = m.clone();
  let first = m.generate(&cx);
  let second = m.generate(&&cx);
  let third = fresh.generate(cx);
  let s = |r: Result<(proc_macro2::TokenStream, Option<proc_macro2::TokenStream>), cmacro::CodegenError>| {
    r.ok().map(|(a, b)| (a.to_string(), b.map(|b| b.to_string())))
  };
  let (first, second, third) = (s(first), s(second), s(third));
  if sym::verbose() {
    sym::note(&format!("{first:?}"));
    sym::note(&format!("{second:?}"));
  }
  sym::check(first == third, 2);
  if first.is_some() {
    sym::check(first == second, 1);
    sym::cover(2);
  }
}

const WORDS: [&[u8]; 36] = [
  b"x", b"p", b"a", b"E", b"T", b"g", b"int", b"(", b")", b"1", b"0.5f", b"2.5", b"'c'", b"\"s\"", b"+", b"-", b"*", b"/", b"!", b"~", b"&", b"<", b"==", b"=", b"+=", b"++", b"?", b":", b";", b"#", b"##",
  b"sizeof", b"{", b"}", b"if", b".",
];

fn free(n: usize) {
  let toks: Vec<&[u8]> = (0..n).map(|_| WORDS[sym::fork(WORDS.len())]).collect();
  run(&toks);
}

fn run(toks: &[&[u8]]) {
  let cx = cx();
  if sym::fork(2) == 0 {
    function(toks, cx);
  } else {
    object(toks, cx);
  }
}

#[no_mangle]
pub extern "C" fn one_two() {
  free(1 + sym::fork(2));
}

#[no_mangle]
pub extern "C" fn three() {
  free(3);
}

#[no_mangle]
pub extern "C" fn four() {
  free(4);
}

fn operand() -> Vec<&'static [u8]> {
  match sym::fork(18) {
    0 => vec![b"x"],
    1 => vec![b"*", b"p"],
    2 => vec![b"p", b"[", b"x", b"]"],
    3 => vec![b"p", b"->", b"a"],
    4 => vec![b"(", b"T", b")", b"1"],
    5 => vec![b"(", b"T", b"*", b")", b"p"],
    6 => vec![b"sizeof", b"(", b"T", b")"],
    7 => vec![b"sizeof", b"(", b"x", b")"],
    8 => vec![b"E"],
    9 => vec![b"g", b"(", b"x", b")"],
    10 => vec![b"g", b"(", b"1", b"+", b"2", b")"],
    11 => vec![b"1"],
    12 => vec![b"0.5f"],
    13 => vec![b"'c'"],
    14 => vec![b"(", b"x", b"?", b"1", b":", b"E", b")"],
    15 => vec![b"__INT_MAX__"],
    16 => vec![b"(", b"x", b")"],
    _ => vec![b"1.5"],
  }
}

/// Larger expressions.
#[no_mangle]
pub extern "C" fn expressions() {
  compound(&[1, 4], &[0, 2, 4, 6]);
}

#[no_mangle]
pub extern "C" fn expressions_deep() {
  compound(&[0, 1, 2, 3, 4], &[0, 1, 2, 3, 4, 5, 6]);
}

fn compound(pre: &[usize], ops: &[usize]) {
  const PRE: [&[u8]; 5] = [b"-", b"!", b"~", b"+", b""];
  let mut t: Vec<&[u8]> = vec![];
  let n = pre[sym::fork(pre.len())];
  if n < 4 {
    t.push(PRE[n]);
    t.push(b"(");
  }
  t.extend(operand());
  const OPS: [&[u8]; 7] = [b"+", b"*", b"<<", b"<", b"==", b"|", b"/"];
  t.push(OPS[ops[sym::fork(ops.len())]]);
  t.extend(operand());
  if n < 4 {
    t.push(b")");
  }
  run(&t);
}

/// Statements.
#[no_mangle]
pub extern "C" fn statements() {
  let mut t: Vec<&[u8]> = vec![];
  let n = sym::fork(5);
  match n {
    0 => {
      t.extend([b"if" as &[u8], b"("]);
      t.extend(operand());
      t.extend([b")" as &[u8], b"{"]);
    },
    1 => t.extend([b"do" as &[u8], b"{"]),
    2 => t.extend([b"{" as &[u8], b"T", b"y", b"="]),
    3 => t.extend([b"{" as &[u8], b"return"]),
    _ => t.extend([b"*" as &[u8], b"p", b"="]),
  }
  t.extend(operand());
  t.push(b";");
  match n {
    0 => t.push(b"}"),
    1 => {
      t.extend([b"}" as &[u8], b"while", b"("]);
      t.extend(operand());
      t.extend([b")" as &[u8], b";"]);
    },
    2 | 3 => t.push(b"}"),
    _ => (),
  }
  run(&t);
}

const NAMES: [&str; 4] = ["A", "B", "C", "D"];

/// Expanded tokens as text.
fn tokens(r: Result<Vec<MacroToken>, cmacro::ExpansionError>) -> String {
  match r {
    Ok(t) => format!("{t:?}"),
    Err(e) => format!("error {e:?}"),
  }
}

/// A body of up to three tokens.
fn body() -> Vec<&'static str> {
  match sym::fork(11) {
    0 => vec![],
    1 => vec!["1"],
    2 => vec!["A"],
    3 => vec!["B", "C"],
    4 => vec!["C", "(", "A", ")"],
    5 => vec!["D", "(", "B", ",", "2", ")"],
    6 => vec!["x", "##", "A"],
    7 => vec!["#", "x"],
    8 => vec!["D"],
    9 => vec!["x", "C"],
    _ => vec!["(", "B", ")"],
  }
}

fn define(set: &mut MacroSet, i: usize, b: &[&'static str]) {
  match i {
    0 | 1 => drop(set.define_var_macro(NAMES[i], b.iter().copied())),
    2 => drop(set.define_fn_macro(NAMES[i], ["x"], b.iter().copied())),
    _ => drop(set.define_fn_macro(NAMES[i], ["x", "..."], b.iter().copied())),
  }
}

fn expand(set: &MacroSet, i: usize) -> String {
  match i {
    0 | 1 => tokens(set.expand_var_macro(NAMES[i])),
    _ => match set.expand_fn_macro(NAMES[i]) {
      Ok((a, b)) => format!("{} {}", tokens(Ok(a)), tokens(Ok(b))),
      Err(e) => format!("error {e:?}"),
    },
  }
}

/// The order of definitions and of expansions does not matter, and neither do other definitions, nor ones that are gone.
#[no_mangle]
pub extern "C" fn orders() {
  const ORDERS: [[usize; 4]; 4] = [[3, 2, 1, 0], [1, 0, 3, 2], [2, 3, 0, 1], [0, 2, 1, 3]];
  let order = ORDERS[sym::fork(4)];
  let bodies = [body(), body(), body(), vec!["x", "__VA_ARGS__"]];
  let (mut one, mut two) = (MacroSet::new(), MacroSet::new());
  two.define_var_macro("Z", ["A", "B"]);
  two.define_fn_macro("A", ["x"], ["2"]);
  for i in 0..4 {
    define(&mut one, i, &bodies[i]);
    define(&mut two, order[i], &bodies[order[i]]);
  }
  two.define_fn_macro("Y", ["B"], ["B"]);
  if sym::verbose() {
    sym::note(&format!("{bodies:?} {order:?}"));
  }
  let first: Vec<String> = (0..4).map(|i| expand(&one, i)).collect();
  for i in order {
    let s = expand(&two, i);
    if sym::verbose() {
      sym::note(&format!("{}: {}", NAMES[i], first[i]));
      sym::note(&format!("{}: {s}", NAMES[i]));
    }
    sym::check(s == first[i], 3);
    sym::check(expand(&one, i) == first[i], 4);
  }
  sym::cover(3);
}

entries![one_two, three, four, expressions, expressions_deep, statements, orders];
