//! C types are represented by the Rust types with the same meaning.
#![no_main]
use cmacro::{CodegenContext, FnMacro, IdentifierExpr, MacroSet, Type};
use cmacro_harness::pp::text;
use cmacro_harness::refs::ctype::{read, Ty};
use cmacro_harness::refs::rexpr::{self, show, T};
use cmacro_harness::refs::stmt::KEYWORDS;
use cmacro_harness::{entries, sym};
use quote::ToTokens;

const PREFIX: [Option<&str>; 3] = [None, Some("::core::ffi"), Some("std::os::raw")];

/// A context: prefix of the FFI types, and what the type names stand for.
struct Cx {
  prefix: Option<&'static str>,
  target: Option<&'static str>,
}

impl CodegenContext for Cx {
  fn ffi_prefix(&self) -> Option<syn::Path> {
    self.prefix.map(|p| syn::parse_str(p).unwrap())
  }
  fn resolve_ty(&self, name: &str) -> Option<syn::Type> {
    if name.len() == 1 && name.as_bytes()[0].is_ascii_uppercase() {
      Some(match self.target {
        None => syn::parse_str(name).unwrap(),
        Some(t) => syn::parse_str(t).unwrap(),
      })
    } else {
      None
    }
  }
}

fn lex(s: &str) -> Vec<T> {
  rexpr::tokens(s.parse().unwrap())
}

fn prefix(p: Option<&str>) -> Vec<T> {
  match p {
    None => vec![],
    Some(p) => {
      let mut t = lex(p);
      t.push(T::Punct(b"::".to_vec()));
      t
    },
  }
}

fn typedef(w: &[u8]) -> bool {
  w.len() == 1 && w[0].is_ascii_uppercase()
}

fn join(words: &[&[u8]]) -> String {
  let mut s = String::new();
  for w in words {
    if !s.is_empty() {
      s.push(' ');
    }
    s.push_str(text(w));
  }
  s
}

fn same(got: &[T], ty: &Ty, around: &dyn Fn(Vec<T>) -> Vec<T>, prefix: &[T], id: u32) {
  let want = &around(ty.rust(prefix))[..];
  if sym::verbose() {
    sym::note(&format!("got  {}", show(got)));
    sym::note(&format!("want {}", show(want)));
  }
  // `T * const` is represented by `*const T`.
  if ty.const_pointer.iter().any(|c| *c) {
    let mut pointers = ty.const_pointer.clone();
    pointers[0] |= ty.pointers[0];
    let other = around(Ty { pointers, ..ty.clone() }.rust(prefix));
    sym::known((got == &other[..]) as u32);
  }
  sym::check(got == want, id);
  sym::known(0);
}

/// `Type::from_str`.
fn name(words: &[&[u8]]) {
  let s = join(words);
  if sym::verbose() {
    sym::note(&s);
  }
  let p = sym::fork(3);
  let cx = Cx { prefix: PREFIX[p], target: None };
  let want = read(words, &typedef);
  match (s.parse::<Type>(), want) {
    (Err(_), None) => sym::cover(2),
    (Ok(_), None) => sym::check(false, 1),
    (Err(_), Some(_)) => sym::check(false, 2),
    (Ok(t), Some(w)) => {
      sym::cover(1);
      match t.to_rust_ty(&cx) {
        None => sym::check(false, 3),
        Some(ty) => same(&rexpr::tokens(ty.to_token_stream()), &w, &|t| t, &prefix(PREFIX[p]), 4),
      }
      sym::check(t.is_void() == (&w.base[..] == b"c_void" && w.pointers.is_empty()), 5);
      sym::check(t.is_ptr() == !w.pointers.is_empty(), 6);
    },
  }
}

const WORDS: [&[&[u8]]; 5] =
  [&[b"int"], &[b"long", b"char", b"void", b"bool"], &[b"const", b"short", b"float"], &[b"signed", b"double"], &[b"unsigned", b"volatile"]];

/// An arbitrary one of the keywords; a separate path only for each length.
fn word(few: bool) -> &'static [u8] {
  let words = WORDS[sym::fork(5)];
  let n = match (few, words.len()) {
    (true, 2..=3) => 1,
    (true, 4) => 2,
    (_, n) => n,
  };
  let i = sym::choice(n);
  let b = Box::leak(Box::new([0u8; 8]));
  let len = words[0].len();
  for k in 0..len {
    for (j, w) in words[..n].iter().enumerate() {
      if i == j {
        b[k] = w[k];
      }
    }
  }
  &b[..len]
}

fn words(n: usize, few: bool) -> Vec<&'static [u8]> {
  (0..n).map(|_| word(few)).collect()
}

#[no_mangle]
pub extern "C" fn specifiers() {
  let n = 1 + sym::fork(3);
  let mut w = words(n, false);
  if sym::fork(2) == 1 {
    w.push(b"*");
  }
  name(&w);
}

#[no_mangle]
pub extern "C" fn four_specifiers() {
  name(&words(4, false));
}

#[no_mangle]
pub extern "C" fn five_specifiers() {
  name(&words(5, true));
}

#[no_mangle]
pub extern "C" fn six_specifiers() {
  name(&words(6, true));
}

/// Any single word is one of the keywords or a name.
#[no_mangle]
pub extern "C" fn free_word() {
  let n = 3 + sym::fork(6);
  let mut b = [0u8; 8];
  for x in b[..n].iter_mut() {
    *x = sym::range(b'a' as usize, b'z' as usize) as u8;
  }
  let w = &b[..n];
  sym::assume(w != b"const" && w != b"volatile" && w != b"struct");
  let Some(want) = read(&[w], &|_| true) else { return };
  sym::cover(1);
  let builtin = want.base != w || w == b"bool";
  if !builtin && KEYWORDS.contains(&w) {
    // other keywords name no type
    return sym::check(text(w).parse::<Type>().is_err(), 14);
  }
  match text(w).parse::<Type>() {
    Ok(Type::BuiltIn(_)) => sym::check(builtin, 10),
    Ok(Type::Identifier { name: IdentifierExpr::Plain(name), is_struct: false }) => {
      sym::check(!builtin, 11);
      sym::check(name.as_str().as_bytes() == w, 12);
    },
    _ => sym::check(false, 13),
  }
}

const QUAL: [&[&[u8]]; 5] = [&[], &[b"const"], &[b"volatile"], &[b"const", b"volatile"], &[b"volatile", b"const"]];

fn letter() -> &'static [u8] {
  let b = Box::leak(Box::new([0u8; 1]));
  b[0] = sym::range(b'A' as usize, b'Z' as usize) as u8;
  &b[..]
}

#[no_mangle]
pub extern "C" fn pointers() {
  let mut w: Vec<&[u8]> = vec![];
  let l = letter();
  let before = sym::fork(5);
  w.extend_from_slice(QUAL[before]);
  match sym::fork(4) {
    0 => w.push(b"char"),
    1 => w.push(b"void"),
    2 => w.push(l),
    _ => w.extend_from_slice(&[b"struct", l]),
  }
  if before == 0 {
    w.extend_from_slice(QUAL[sym::fork(5)]);
  }
  for _ in 0..sym::fork(3) {
    w.push(b"*");
    w.extend_from_slice(QUAL[sym::fork(5)]);
  }
  name(&w);
}

/// Words around a type name.
#[no_mangle]
pub extern "C" fn named() {
  let l = letter();
  let n = 1 + sym::fork(4);
  let w: Vec<&[u8]> = (0..n).map(|_| [l, b"const", b"volatile", b"struct", b"*", b"int"][sym::fork(6)]).collect();
  sym::assume(w.iter().filter(|w| **w == l).count() == 1);
  name(&w);
}

fn generate(params: &[&str], body: &[&[u8]], cx: &Cx) -> Option<Vec<T>> {
  if sym::verbose() {
    sym::note(&format!("#define F({:?}) {}", params, join(body)));
  }
  let mut set = MacroSet::new();
  set.define_fn_macro("F", params, body.iter().map(|t| text(t)));
  let (args, toks) = set.expand_fn_macro("F").ok()?;
  let mut m = FnMacro::parse("F", &args, &toks).ok()?;
  let ts = m.generate(cx).ok()?;
  match rexpr::item(&rexpr::tokens(ts)) {
    Some(rexpr::Item::Macro(t)) | Some(rexpr::Item::Fn(t)) => Some(t),
    None => None,
  }
}

/// A type in a cast.
#[no_mangle]
pub extern "C" fn in_cast() {
  let n = 1 + sym::fork(2);
  let mut w = words(n, false);
  for _ in 0..sym::fork(3) {
    w.push(b"*");
  }
  cast(w);
}

#[no_mangle]
pub extern "C" fn in_cast_long() {
  let mut w = words(3, true);
  if sym::fork(2) == 1 {
    w.push(b"*");
  }
  cast(w);
}

fn cast(w: Vec<&[u8]>) {
  let want = read(&w, &typedef);
  let p = sym::fork(2);
  let cx = Cx { prefix: PREFIX[p], target: None };
  let mut body: Vec<&[u8]> = vec![b"("];
  body.extend_from_slice(&w);
  body.extend_from_slice(&[b")", b"a"]);
  let got = generate(&["a"], &body, &cx);
  match (got, want) {
    (None, None) => sym::cover(2),
    (Some(_), None) => sym::check(false, 1),
    (None, Some(_)) => sym::check(false, 2),
    (Some(got), Some(w)) => {
      sym::cover(1);
      let void = &w.base[..] == b"c_void" && w.pointers.is_empty();
      if void {
        // a value of no interest
        sym::check(!got.iter().any(|t| matches!(t, T::Name(n) if &n[..] == b"as")), 7);
      } else {
        let around = |ty: Vec<T>| [T::Punct(b"$".to_vec()), T::Name(b"a".to_vec()), T::Name(b"as".to_vec())].into_iter().chain(ty).collect();
        same(&got, &w, &around, &prefix(PREFIX[p]), 4);
      }
    },
  }
}

/// Types which the context knows.
#[no_mangle]
pub extern "C" fn resolved() {
  const TARGET: [&str; 12] = [
    "c_int",
    "u32",
    "Foo",
    "foo::Bar",
    "::foo::Bar",
    "*const c_char",
    "*mut Foo",
    "*mut *const ::core::ffi::c_void",
    "*const *mut u8",
    "::core::ffi::c_ulong",
    "std::os::raw::c_uchar",
    "f32",
  ];
  let l = letter();
  let target = TARGET[sym::fork(12)];
  let p = sym::fork(3);
  let cx = Cx { prefix: PREFIX[p], target: Some(target) };
  let mut body: Vec<&[u8]> = vec![b"(", l];
  let pointer = sym::fork(2) == 1;
  if pointer {
    body.push(b"*");
  }
  body.extend_from_slice(&[b")", b"a"]);
  let Some(got) = generate(&["a"], &body, &cx) else {
    sym::check(false, 2);
    return;
  };
  let mut want = lex("$a as");
  if pointer {
    want.extend(lex("*mut"));
  }
  want.extend(lex(target));
  sym::cover(1);
  if sym::verbose() {
    sym::note(&format!("got  {}", show(&got)));
    sym::note(&format!("want {}", show(&want)));
  }
  sym::check(got == want, 8);
}

/// Built-in types which the context gives, with and without prefix.
#[no_mangle]
pub extern "C" fn resolved_builtin() {
  const NAME: [&str; 22] = [
    "c_char", "c_schar", "c_uchar", "c_short", "c_ushort", "c_int", "c_uint", "c_long", "c_ulong", "c_longlong", "c_ulonglong", "c_size_t",
    "c_ssize_t", "c_void", "bool", "u8", "u16", "u32", "f32", "f64", "i64", "usize",
  ];
  let p = sym::fork(3);
  let of = sym::fork(3);
  let i = sym::fork(22);
  sym::assume(of == 0 || NAME[i].starts_with("c_"));
  let ty = match PREFIX[of] {
    None => NAME[i].to_string(),
    Some(p) => format!("{}::{}", p, NAME[i]),
  };
  let (pointer, how) = ([("", ""), ("*mut ", "*"), ("*const ", "*")][sym::fork(3)], sym::fork(2));
  let target: &'static str = Box::leak(format!("{}{}", pointer.0, ty).into_boxed_str());
  let cx = Cx { prefix: PREFIX[p], target: Some(target) };
  let body: &[&[u8]] = if how == 0 { &[b"(", b"T", b")", b"a"] } else { &[b"T", b"v", b"=", b"a", b";"] };
  let Some(got) = generate(&["a"], body, &cx) else {
    sym::check(false, 2);
    return;
  };
  // a cast to void has no value
  sym::assume(!(NAME[i] == "c_void" && of == p && pointer.1.is_empty()));
  sym::cover(1);
  let want = lex(&if how == 0 { format!("$a as {}", target) } else { format!("let mut v: {} = $a;", target) });
  if sym::verbose() {
    sym::note(&format!("got  {}", show(&got)));
    sym::note(&format!("want {}", show(&want)));
  }
  sym::check(got == want, 8);
}

/// Types in declarations.
#[no_mangle]
pub extern "C" fn in_declaration() {
  let n = 1 + sym::fork(2);
  let l = letter();
  let mut w: Vec<&[u8]> = (0..n).map(|_| [l, b"const", b"unsigned", b"int", b"long", b"void", b"char", b"double"][sym::fork(8)]).collect();
  sym::assume(w.iter().filter(|w| **w == l).count() <= 1);
  for _ in 0..sym::fork(2) {
    w.push(b"*");
  }
  let want = read(&w, &typedef);
  let cx = Cx { prefix: PREFIX[1], target: None };
  let how = sym::fork(3);
  let mut body: Vec<&[u8]> = vec![];
  match how {
    0 => {
      body.extend_from_slice(&w);
      body.extend_from_slice(&[b"v", b"=", b"a", b";"]);
    },
    1 => {
      body.extend_from_slice(&w);
      body.extend_from_slice(&[b"v", b"(", b")", b";"]);
    },
    _ => {
      body.extend_from_slice(&[b"int", b"v", b"(", b"int", b"x", b","]);
      body.extend_from_slice(&w);
      body.extend_from_slice(&[b"y", b")", b";"]);
    },
  }
  let got = generate(&["a"], &body, &cx);
  let Some(want) = want else { return };
  let void = &want.base[..] == b"c_void" && want.pointers.is_empty();
  // no object is void
  sym::assume(!void || how == 1);
  let Some(got) = got else {
    sym::check(false, 2);
    return;
  };
  sym::cover(1);
  let around = |ty: Vec<T>| {
    let ty = show(&ty);
    lex(&match how {
      0 => format!("let mut v: {ty} = $a;"),
      1 if void => "extern \"C\" { pub fn v(); }".to_string(),
      1 => format!("extern \"C\" {{ pub fn v() -> {ty}; }}"),
      _ => format!("extern \"C\" {{ pub fn v(x: ::core::ffi::c_int, y: {ty}) -> ::core::ffi::c_int; }}"),
    })
  };
  same(&got, &want, &around, &prefix(PREFIX[1]), 9);
}

entries![specifiers, four_specifiers, five_specifiers, six_specifiers, free_word, pointers, named, in_cast, in_cast_long, resolved, resolved_builtin, in_declaration];
