//! Nothing makes parsing or generating panic, and generated code is Rust.
#![no_main]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

use cmacro::{CodegenContext, FnMacro, MacroSet, VarMacro};
use cmacro_harness::gen::Ints;
use cmacro_harness::pp::text;
use cmacro_harness::{entries, sym};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};

/// The tokens of a macro body with something for each of the parameters.
fn filled(ts: TokenStream) -> TokenStream {
  let mut out = vec![];
  let mut it = ts.into_iter();
  while let Some(t) = it.next() {
    match t {
      TokenTree::Punct(p) if p.as_char() == '$' => match it.next() {
        Some(TokenTree::Ident(i)) => out.push(TokenTree::Ident(i)),
        Some(TokenTree::Group(g)) => {
          // `$($__VA_ARGS__),*`
          out.extend(filled(g.stream()));
          it.next();
          it.next();
        },
        t => out.extend(t),
      },
      TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), filled(g.stream())))),
      t => out.push(t),
    }
  }
  out.into_iter().collect()
}

/// The body of the macro in a generated macro definition.
fn macro_body(ts: &TokenStream) -> Option<TokenStream> {
  let mut it = ts.clone().into_iter();
  while let Some(t) = it.next() {
    if matches!(&t, TokenTree::Ident(i) if i == "macro_rules") {
      return it.find_map(|t| match t {
        TokenTree::Group(g) => g.stream().into_iter().filter_map(|t| match t {
          TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
          _ => None,
        }).next(),
        _ => None,
      });
    }
  }
  None
}

fn function<X: CodegenContext>(params: &[&[u8]], toks: &[&[u8]], cx: X) {
  let mut set = MacroSet::new();
  set.define_fn_macro("F", params.iter().map(|t| text(t)), toks.iter().map(|t| text(t)));
  let Ok((args, body)) = set.expand_fn_macro("F") else { return };
  let Ok(mut m) = FnMacro::parse("F", &args, &body) else { return };
  let Ok(ts) = m.generate(cx) else { return };
  if sym::verbose() {
    sym::note(&ts.to_string());
  }
  sym::cover(1);
  match macro_body(&ts) {
    Some(body) => {
      let body = filled(body);
      if syn::parse2::<syn::Expr>(body.clone()).is_err() {
        let block = TokenTree::Group(Group::new(Delimiter::Brace, body));
        sym::check(syn::parse2::<syn::Block>(block.into()).is_ok(), 1);
      }
    },
    None => sym::check(syn::parse2::<syn::ItemFn>(ts).is_ok(), 2),
  }
}

fn object<X: CodegenContext>(toks: &[&[u8]], cx: X) {
  let mut set = MacroSet::new();
  set.define_var_macro("V", toks.iter().map(|t| text(t)));
  let Ok(body) = set.expand_var_macro("V") else { return };
  let Ok(mut m) = VarMacro::parse("V", &body) else { return };
  let Ok((ts, ty)) = m.generate(cx) else { return };
  if sym::verbose() {
    sym::note(&ts.to_string());
  }
  sym::cover(2);
  sym::check(syn::parse2::<syn::Expr>(ts).is_ok(), 3);
  if let Some(ty) = ty {
    if sym::verbose() {
      sym::note(&ty.to_string());
    }
    sym::check(syn::parse2::<syn::Type>(ty).is_ok(), 4);
  }
}

fn stringy(t: &[u8]) -> bool {
  t.last() == Some(&b'"') || matches!(t, b"__FILE__" | b"#")
}

/// Bodies which modify what is no place are no C.
fn modifies_string(toks: &[&[u8]]) -> bool {
  let word = |t: &[u8]| matches!(t, b"x" | b"y" | b"a" | b"__VA_ARGS__");
  toks.iter().any(|t| matches!(*t, b"++" | b"--" | b"=" | b"+="))
    && (toks.iter().any(|t| stringy(t)) || toks.windows(2).any(|w| word(w[0]) && word(w[1])))
}

fn run(toks: &[&[u8]]) {
  if sym::verbose() {
    sym::note(&toks.iter().map(|t| text(t)).collect::<Vec<_>>().join(" "));
  }
  // no members
  sym::assume(!toks.windows(2).any(|w| matches!(w[0], b"." | b"->") && matches!(w[1], b"__INT_MAX__" | b"__LINE__" | b"__FILE__")));
  // not places
  sym::assume(!modifies_string(toks));
  match sym::fork(4) {
    0 => function(&[b"x", b"y"], toks, ()),
    1 => function(&[b"x", b"y"], toks, Ints),
    2 => function(&[b"x", b"..."], toks, ()),
    _ => object(toks, ()),
  }
}

const ALL: [&[u8]; 62] = [
  b"x", b"y", b"__VA_ARGS__", b"a", b"int", b"unsigned", b"char", b"const", b"struct", b"void", b"float", b"sizeof", b"1", b"2.5", b"1.5f", b"'c'", b"L'c'", b"\"s\"", b"L\"s\"", b"u\"s\"", b"8", b"(",
  b")", b"[", b"]", b"{", b"}", b"*", b"&", b"+", b"-", b"!", b"~", b"++", b"--", b"/", b"<<", b"<", b"==", b"^", b"=", b"+=", b"?", b":", b",", b".", b"->", b";", b"#", b"##", b"if", b"else", b"do", b"while", b"return",
  b"__LINE__", b"__FILE__", b"__asm__", b"self", b"u8\"s\"", b"__INT_MAX__", b"_Bool",
];

fn free(n: usize) {
  let mut toks: Vec<&[u8]> = vec![];
  for _ in 0..n {
    toks.push(ALL[sym::fork(ALL.len())]);
  }
  run(&toks);
}

/// Tokens of a single arbitrary character.
fn characters(n: usize) {
  let mut buf = [0u8; 3];
  sym::ascii(&mut buf[..n]);
  let toks: Vec<&[u8]> = (0..n).map(|i| &buf[i..i + 1]).collect();
  run(&toks);
}

/// A string of ASCII characters and a few others.
fn word(n: usize) -> Vec<u8> {
  let mut w = vec![];
  for _ in 0..n {
    match sym::fork(5) {
      0 => w.extend_from_slice("\u{b7}".as_bytes()),
      1 => w.extend_from_slice("\u{20ac}".as_bytes()),
      2 => w.extend_from_slice("\u{3b1}".as_bytes()),
      3 => w.extend_from_slice("\u{1d4b3}".as_bytes()),
      _ => {
        let mut c = [0u8];
        sym::ascii(&mut c);
        w.push(if c[0].is_ascii_digit() { sym::concrete(c[0] as usize) as u8 } else { c[0] });
      },
    }
  }
  w
}

/// One token is anything.
fn token(n: usize) {
  let tok = &word(n)[..];
  match sym::fork(3) {
    0 => run(&[tok]),
    1 => run(&[b"#", tok]),
    _ => run(&[b"a", b"##", tok]),
  }
}

/// Names of macros and of parameters are anything.
#[no_mangle]
pub extern "C" fn names() {
  let tok = word(1 + sym::fork(3));
  let name = text(&tok);
  let mut set = MacroSet::new();
  let ts = match sym::fork(5) {
    0 => {
      set.define_fn_macro(name, ["x"], ["x", "+", "1"]);
      let Ok((args, body)) = set.expand_fn_macro(name) else { return };
      let Ok(mut m) = FnMacro::parse(name, &args, &body) else { return };
      m.generate(())
    },
    1 => {
      set.define_fn_macro(name, ["x"], ["x", "+", "1"]);
      let Ok((args, body)) = set.expand_fn_macro(name) else { return };
      let Ok(mut m) = FnMacro::parse(name, &args, &body) else { return };
      m.generate(Ints)
    },
    2 => {
      set.define_fn_macro("F", [name], [name, "+", "1"]);
      let Ok((args, body)) = set.expand_fn_macro("F") else { return };
      let Ok(mut m) = FnMacro::parse("F", &args, &body) else { return };
      m.generate(())
    },
    3 => {
      set.define_fn_macro("F", [name], [name, "+", "1"]);
      let Ok((args, body)) = set.expand_fn_macro("F") else { return };
      let Ok(mut m) = FnMacro::parse("F", &args, &body) else { return };
      m.generate(Ints)
    },
    _ => {
      set.define_var_macro(name, ["2", "+", "1"]);
      let Ok(body) = set.expand_var_macro(name) else { return };
      let Ok(mut m) = VarMacro::parse(name, &body) else { return };
      m.generate(()).map(|(t, _)| t)
    },
  };
  if let Ok(ts) = ts {
    sym::cover(1);
    sym::obs(ts.to_string().len() as u64);
  }
}

/// A context which answers everything with the same type.
struct Same {
  ty: syn::Type,
  value: syn::Expr,
  arg: bool,
}

impl CodegenContext for Same {
  fn macro_arg_ty(&self, _: &str, _: &str) -> Option<syn::Type> {
    self.arg.then(|| self.ty.clone())
  }
  fn resolve_ty(&self, _: &str) -> Option<syn::Type> {
    Some(self.ty.clone())
  }
  fn resolve_field_ty(&self, _: &str, _: &str) -> Option<syn::Type> {
    Some(self.ty.clone())
  }
  fn resolve_enum_variant(&self, variant: &str) -> Option<(syn::Type, syn::Expr)> {
    (variant == "A").then(|| (self.ty.clone(), self.value.clone()))
  }
  fn function(&self, name: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
    (name == "f").then(|| (vec![self.ty.clone()], self.ty.clone()))
  }
}

const TYPES: [&str; 26] = [
  "c_int", "f32", "u8", "c_void", "*mut c_void", "*const T", "*mut *const u8", "()", "(u8,)", "!", "[u8; 4]", "[u8]", "&u8", "fn()", "Option<u8>", "<T as U>::V", "impl X", "dyn X + Y", "_", "m!()", "self::T", "crate::T", "Self",
  "r#type", "(T)", "::a::B",
];

const VALUES: [&str; 5] = ["2", "E::A", "a + b", "{ 1 }", "-1"];

const BODIES: [&[&[u8]]; 20] = [
  &[b"x"],
  &[b"x", b"+", b"1"],
  &[b"*", b"x"],
  &[b"f", b"(", b"x", b")"],
  &[b"f", b"(", b"1", b")"],
  &[b"(", b"T", b")", b"x"],
  &[b"(", b"T", b"*", b")", b"1"],
  &[b"x", b".", b"y"],
  &[b"x", b"->", b"y"],
  &[b"A"],
  &[b"A", b"*", b"2"],
  &[b"-", b"A"],
  &[b"sizeof", b"(", b"T", b")"],
  &[b"T", b"y", b"=", b"x"],
  &[b"L\"s\""],
  &[b"L'c'"],
  &[b"x", b"[", b"1", b"]"],
  &[b"&", b"x"],
  &[b"x", b"=", b"y"],
  &[b"A", b"=", b"=", b"A"],
];

/// The context answers with any kind of type.
#[no_mangle]
pub extern "C" fn contexts() {
  let ty = match sym::fork(TYPES.len() + 3) {
    0 => syn::Type::Verbatim(quote::quote! { a + b }),
    1 => syn::Type::Verbatim(TokenStream::new()),
    2 => syn::Type::Verbatim(quote::quote! { c }),
    n => syn::parse_str(TYPES[n - 3]).unwrap(),
  };
  let body = BODIES[sym::fork(BODIES.len())];
  let value = syn::parse_str(if body.contains(&&b"A"[..]) { VALUES[sym::fork(VALUES.len())] } else { "1" }).unwrap();
  if sym::verbose() {
    sym::note(&body.iter().map(|t| text(t)).collect::<Vec<_>>().join(" "));
    sym::note(&quote::quote! { #ty #value }.to_string());
  }
  match sym::fork(3) {
    0 => object(body, Same { ty, value, arg: true }),
    n => function(&[b"x", b"y"], body, Same { ty, value, arg: n == 1 }),
  }
}

/// Literals at the borders of their types.
#[no_mangle]
pub extern "C" fn numbers() {
  const N: [&[u8]; 33] = [
    b"0", b"1", b"0u", b"1ull", b"0x7fffffff", b"0xffffffffu", b"9223372036854775807", b"18446744073709551615", b"18446744073709551616",
    b"170141183460469231731687303715884105727", b"340282366920938463463374607431768211456", b"0.0", b"0.0f", b"0.0l", b"1.5", b"3.4e38f", b"1e39f",
    b"1e39", b"1e308", b"1e309", b"1e309l", b"1e-50f", b"1e-400", b"5e-324", b"16777217", b"1e30", b"128", b"255", b"63", b"64",
    b"__INT_MAX__", b"'\\xff'", b"u'\\xd800'",
  ];
  const OPS: [&[u8]; 19] =
    [b"+", b"-", b"*", b"/", b"%", b"<<", b">>", b"&", b"|", b"^", b"==", b"<", b"!", b"~", b"=", b"?", b"(float)", b"(char)", b"[]"];
  let a = N[sym::fork(N.len())];
  let op = OPS[sym::fork(OPS.len())];
  let b = match op {
    b"=" | b"(float)" | b"(char)" | b"[]" => a,
    b"!" | b"~" | b"?" => N[sym::fork(N.len())],
    _ => [&b"0"[..], b"1", b"0xffffffffu", b"18446744073709551615", b"0.0", b"1e39f", b"1e308", b"'\\xff'"][sym::fork(8)],
  };
  match op {
    b"!" | b"~" => run(&[b"-", b"(", op, b, b")"]),
    b"=" => run(&[b"x", op, b"-", a]),
    b"?" => run(&[a, b"?", b"-", b, b":", a]),
    b"(float)" => run(&[b"(", b"float", b")", b"-", a]),
    b"(char)" => run(&[b"(", b"unsigned", b"char", b")", b"-", a]),
    b"[]" => run(&[b"x", b"[", b"-", a, b"]"]),
    op => run(&[a, op, b"-", b]),
  }
}

/// Types for some of the arguments only.
struct Some2(u8);

impl CodegenContext for Some2 {
  fn macro_arg_ty(&self, _: &str, a: &str) -> Option<syn::Type> {
    let i = ["x", "y", "..."].iter().position(|n| *n == a)?;
    if self.0 >> i & 1 == 1 {
      syn::parse_str("i32").ok()
    } else {
      None
    }
  }
}

#[no_mangle]
pub extern "C" fn some_types() {
  let body = BODIES[sym::fork(BODIES.len())];
  const P: [&[&[u8]]; 5] = [&[b"x", b"y"], &[b"x"], &[b"x", b"y", b"..."], &[b"..."], &[]];
  function(P[sym::fork(5)], body, Some2(sym::fork(8) as u8));
}

/// Inline assembly.
#[no_mangle]
pub extern "C" fn asm() {
  const T: [&[u8]; 10] = [b":", b"::", b"\"r\"", b"\"=r\"", b"\"memory\"", b"(", b")", b"x", b",", b"["];
  let mut toks: Vec<&[u8]> = vec![b"__asm__", b"(", b"\"mov %%eax, %0{}\""];
  for _ in 0..4 {
    toks.push(T[sym::fork(T.len())]);
  }
  toks.push(b")");
  run(&toks);
}

/// Memory allocations, as a measure of the work done.
struct Counting;

static ALLOCATIONS: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    ALLOCATIONS.fetch_add(1, Ordering::Relaxed);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    System.dealloc(p, l)
  }
}

#[global_allocator]
static COUNTING: Counting = Counting;

/// What is before and behind the operand.
const SHAPES: [(&[&[u8]], &[&[u8]]); 30] = [
  (&[b"("], &[b")"]),
  (&[b"x", b"["], &[b"]"]),
  (&[], &[b"[", b"x", b"]"]),
  (&[b"f", b"("], &[b")"]),
  (&[b"f", b"(", b"x", b","], &[b")"]),
  (&[b"("], &[b")", b".", b"a"]),
  (&[b"("], &[b")", b"->", b"a"]),
  (&[b"x", b"->", b"a", b"["], &[b"]"]),
  (&[b"-"], &[]),
  (&[b"!"], &[]),
  (&[b"~"], &[]),
  (&[b"*"], &[]),
  (&[b"&"], &[]),
  (&[b"*", b"("], &[b"+", b"x", b")"]),
  (&[b"*", b"(", b"x", b"-"], &[b")"]),
  (&[b"*", b"(", b"volatile", b"int", b"*", b")"], &[]),
  (&[b"(", b"*", b"(", b"volatile", b"T", b"*", b")"], &[b")", b".", b"a"]),
  (&[b"&", b"(", b"*", b"(", b"volatile", b"T", b"*", b")"], &[b")", b".", b"a"]),
  (&[b"(", b"int", b")"], &[]),
  (&[b"(", b"T", b"*", b")"], &[]),
  (&[b"++", b"*"], &[]),
  (&[b"(", b"*"], &[b")", b"++"]),
  (&[b"*", b"++", b"*"], &[]),
  (&[b"x", b"?"], &[b":", b"x"]),
  (&[b"x", b"+"], &[]),
  (&[b"(", b"x", b"*"], &[b")"]),
  (&[b"x", b"="], &[]),
  (&[b"*", b"x", b"+="], &[]),
  (&[b"x", b"[", b"x", b"++", b"]", b"="], &[]),
  (&[b"x", b"[", b"x", b"="], &[b"]"]),
];

/// The work for an expression in which two shapes are nested in turn.
fn work(a: usize, b: usize, depth: usize, cx: &impl CodegenContext) -> usize {
  let mut toks: Vec<&str> = vec![];
  for i in 0..depth {
    toks.extend(SHAPES[[a, b][i % 2]].0.iter().map(|t| text(t)));
  }
  toks.push("x");
  for i in (0..depth).rev() {
    toks.extend(SHAPES[[a, b][i % 2]].1.iter().map(|t| text(t)));
  }
  let mut set = MacroSet::new();
  set.define_fn_macro("F", ["x"], toks);
  let Ok((args, body)) = set.expand_fn_macro("F") else { return 0 };
  let start = ALLOCATIONS.load(Ordering::Relaxed);
  if let Ok(mut m) = FnMacro::parse("F", &args, &body) {
    if m.generate(cx).is_ok() {
      sym::cover(3);
    }
  }
  ALLOCATIONS.load(Ordering::Relaxed) - start
}

struct By<'a>(&'a dyn Fn() -> Option<syn::Type>);

impl CodegenContext for &By<'_> {
  fn macro_arg_ty(&self, _: &str, _: &str) -> Option<syn::Type> {
    (self.0)()
  }
}

/// Nested expressions do not take more than polynomial time.
#[no_mangle]
pub extern "C" fn nesting() {
  let a = sym::fork(SHAPES.len());
  let b = sym::fork(SHAPES.len());
  let cx = By(&|| None);
  let few = work(a, b, 6, &&cx);
  let many = work(a, b, 12, &&cx);
  if sym::verbose() {
    sym::note(&format!("{a} {b}: {few} {many}"));
  }
  sym::check(many <= 200 + few * 8, 5);
}

#[no_mangle]
pub extern "C" fn token3() {
  token(3);
}

#[no_mangle]
pub extern "C" fn token4() {
  token(4);
}

#[no_mangle]
pub extern "C" fn characters2() {
  characters(2);
}

#[no_mangle]
pub extern "C" fn characters3() {
  characters(3);
}

#[no_mangle]
pub extern "C" fn one_two() {
  free(1 + sym::fork(2));
}

#[no_mangle]
pub extern "C" fn three() {
  free(3);
}

entries![numbers, some_types, nesting, contexts, asm, characters2, characters3, token3, token4, names, one_two, three];
