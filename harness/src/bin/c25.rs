//! Paths in generated code start with the prefixes which the context gives.
#![no_main]
use cmacro::{CodegenContext, FnMacro, MacroSet, VarMacro};
use cmacro_harness::pp::text;
use cmacro_harness::{entries, sym};
use proc_macro2::{Delimiter, TokenStream, TokenTree};

#[derive(Clone, Copy)]
struct Cx {
  ffi: Option<&'static str>,
  std: Option<&'static str>,
  types: bool,
  old: u8,
}

impl Cx {
  /// A type of C.
  fn c(&self, name: &str) -> syn::Type {
    syn::parse_str(&match self.ffi {
      Some(p) => format!("{p}::{name}"),
      None => name.to_owned(),
    })
    .unwrap()
  }
}

impl CodegenContext for Cx {
  fn macro_arg_ty(&self, _: &str, a: &str) -> Option<syn::Type> {
    match a {
      _ if !self.types => None,
      "p" => {
        let t = self.c("c_int");
        Some(syn::parse_quote! { *mut #t })
      },
      _ => Some(self.c("c_int")),
    }
  }
  fn rust_target(&self) -> Option<String> {
    match self.old {
      0 => None,
      1 => Some("1.58.0".into()),
      _ => Some("1.16.0".into()),
    }
  }
  fn ffi_prefix(&self) -> Option<syn::Path> {
    self.ffi.map(|p| syn::parse_str(p).unwrap())
  }
  fn trait_prefix(&self) -> Option<syn::Path> {
    self.std.map(|p| syn::parse_str(p).unwrap())
  }
  fn resolve_ty(&self, ty: &str) -> Option<syn::Type> {
    match ty {
      "T" => Some(self.c("c_long")),
      "wchar_t" => Some(self.c("c_int")),
      "S" => syn::parse_str("user::S").ok(),
      _ => None,
    }
  }
  fn resolve_enum_variant(&self, v: &str) -> Option<(syn::Type, syn::Expr)> {
    (v == "E").then(|| (syn::parse_str("En").unwrap(), syn::parse_str("En::E").unwrap()))
  }
  fn function(&self, n: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
    (n == "g").then(|| (vec![self.c("c_uint")], self.c("c_uchar")))
  }
}

fn flat(ts: TokenStream, out: &mut Vec<String>) {
  for t in ts {
    match t {
      TokenTree::Group(g) => {
        let (a, b) = match g.delimiter() {
          Delimiter::Parenthesis => ("(", ")"),
          Delimiter::Brace => ("{", "}"),
          Delimiter::Bracket => ("[", "]"),
          Delimiter::None => ("", ""),
        };
        out.push(a.to_owned());
        flat(g.stream(), out);
        out.push(b.to_owned());
      },
      t => out.push(t.to_string()),
    }
  }
}

fn parts(p: &str) -> Vec<String> {
  let mut out = vec![];
  flat(p.parse().unwrap(), &mut out);
  out.extend([":".to_owned(), ":".to_owned()]);
  out
}

const FFI: [&str; 15] = [
  "c_char", "c_schar", "c_uchar", "c_short", "c_ushort", "c_int", "c_uint", "c_long", "c_ulong", "c_longlong", "c_ulonglong", "c_float", "c_double",
  "c_void", "c_size_t",
];
const MODULES: [&str; 5] = ["mem", "ptr", "arch", "f32", "f64"];
const MACROS: [&str; 6] = ["line", "file", "concat", "stringify", "concat_idents", "format"];

/// What `plain` has to be with the prefixes.
fn prefixed(plain: &[String], ffi: &[String], std: &[String]) -> Vec<String> {
  let mut out: Vec<String> = vec![];
  for (i, t) in plain.iter().enumerate() {
    let next = |n: usize| plain.get(i + n).map(|s| s.as_str());
    let colons = next(1) == Some(":") && next(2) == Some(":");
    if FFI.contains(&t.as_str()) {
      out.extend_from_slice(ffi);
    } else if MODULES.contains(&t.as_str()) && colons || MACROS.contains(&t.as_str()) && next(1) == Some("!") {
      out.extend_from_slice(std);
    } else if t == "CStr" && !std.is_empty() {
      out.extend_from_slice(std);
      out.extend(["ffi", ":", ":"].map(|s| s.to_owned()));
    }
    out.push(t.clone());
  }
  out
}

/// The generated code, or the constant and its type.
fn generate(toks: &[&[u8]], object: bool, cx: Cx) -> Option<Vec<String>> {
  let mut set = MacroSet::new();
  let mut out = vec![];
  if object {
    set.define_var_macro("V", toks.iter().map(|t| text(t)));
    let mut m = VarMacro::parse("V", &set.expand_var_macro("V").ok()?).ok()?;
    let (ts, ty) = m.generate(cx).ok()?;
    flat(ts, &mut out);
    out.push("type".into());
    if let Some(ty) = ty {
      flat(ty, &mut out);
    }
  } else {
    set.define_fn_macro("F", ["x", "p"], toks.iter().map(|t| text(t)));
    let (args, body) = set.expand_fn_macro("F").ok()?;
    flat(FnMacro::parse("F", &args, &body).ok()?.generate(cx).ok()?, &mut out);
  }
  Some(out)
}

fn decide(toks: &[&[u8]]) {
  let object = sym::fork(2) == 1;
  let types = !object && sym::fork(2) == 1;
  let old = sym::fork(3) as u8;
  let (ffi, std) = [
    (Some("::f::g"), Some("::t")),
    (Some("h"), None),
    (None, Some("::std")),
    (Some("::core::ffi"), Some("::core")),
  ][sym::fork(4)];
  compare(toks, object, Cx { ffi, std, types, old });
}

fn compare(toks: &[&[u8]], object: bool, cx: Cx) {
  if sym::verbose() {
    sym::note(&format!("{} {:?} {:?} types {}", toks.iter().map(|t| text(t)).collect::<Vec<_>>().join(" "), cx.ffi, cx.std, cx.types));
  }
  let plain = generate(toks, object, Cx { ffi: None, std: None, ..cx });
  let with = generate(toks, object, cx);
  let (Some(plain), Some(with)) = (&plain, &with) else {
    return sym::check(plain.is_some() == with.is_some(), 1);
  };
  if sym::verbose() {
    sym::note(&plain.join(" "));
    sym::note(&with.join(" "));
  }
  let parts = |p: Option<&str>| p.map(parts).unwrap_or_default();
  let want = prefixed(plain, &parts(cx.ffi), &parts(cx.std));
  sym::check(*with == want, 2);
  sym::cover(if want.len() > plain.len() { 1 } else { 2 });
}

fn operand() -> Vec<&'static [u8]> {
  match sym::fork(42) {
    0 => vec![b"x"],
    1 => vec![b"*", b"p"],
    2 => vec![b"p", b"[", b"x", b"]"],
    3 => vec![b"p", b"->", b"a"],
    4 => vec![b"(", b"T", b")", b"1"],
    5 => vec![b"(", b"S", b"*", b")", b"p"],
    6 => vec![b"sizeof", b"(", b"T", b")"],
    7 => vec![b"sizeof", b"(", b"x", b")"],
    8 => vec![b"E"],
    9 => vec![b"g", b"(", b"x", b")"],
    10 => vec![b"*", b"(", b"volatile", b"int", b"*", b")", b"p"],
    11 => vec![b"1"],
    12 => vec![b"1e99f"],
    13 => vec![b"'c'"],
    14 => vec![b"L'c'"],
    15 => vec![b"__INT_MAX__"],
    16 => vec![b"__SCHAR_MAX__"],
    17 => vec![b"1e999"],
    18 => vec![b"__LINE__"],
    19 => vec![b"__FILE__"],
    20 => vec![b"#", b"x"],
    21 => vec![b"\"s\""],
    22 => vec![b"L\"s\""],
    23 => vec![b"\"s\"", b"__FILE__"],
    24 => vec![b"\"s\"", b"#", b"x"],
    25 => vec![b"x", b"##", b"p"],
    26 => vec![b"&", b"x"],
    27 => vec![b"__builtin_offsetof", b"(", b"x", b",", b"p", b")"],
    28 => vec![b"(", b"*", b"(", b"volatile", b"int", b"*", b")", b"p", b"=", b"1", b")"],
    29 => vec![b"(", b"*", b"(", b"volatile", b"int", b"*", b")", b"p", b"+=", b"1", b")"],
    30 => vec![b"(", b"*", b"(", b"volatile", b"int", b"*", b")", b"p", b")", b"++"],
    31 => vec![b"(", b"int", b"*", b")", b"0"],
    32 => vec![b"(", b"const", b"char", b"*", b")", b"0"],
    33 => vec![b"__LONG_MAX__", b"*", b"2"],
    34 => vec![b"*", b"(", b"p", b")", b"++"],
    35 => vec![b"(", b"p", b"->", b"a", b"=", b"x", b")"],
    36 => vec![b"__SHRT_MAX__"],
    37 => vec![b"__LONG_MAX__"],
    38 => vec![b"__LONG_LONG_MAX__"],
    39 => vec![b"(", b"0.0", b"/", b"0.0", b")"],
    40 => vec![b"(", b"0.0f", b"/", b"0.0f", b")"],
    _ => vec![b"2.5"],
  }
}

/// Every kind of expression.
#[no_mangle]
pub extern "C" fn one() {
  const PRE: [&[u8]; 6] = [b"-", b"!", b"~", b"&", b"++", b""];
  let n = sym::fork(6);
  let mut t = operand();
  if n < 5 {
    t.splice(..0, [PRE[n], b"("]);
    t.push(b")");
  }
  decide(&t);
}

/// Two of them.
#[no_mangle]
pub extern "C" fn two() {
  const OPS: [&[u8]; 5] = [b"+", b"*", b"<", b"=", b"?"];
  let mut t = operand();
  let op = OPS[sym::fork(5)];
  if op == b"?" {
    t.extend([b"?" as &[u8], b"1e99", b":"]);
  } else {
    t.push(op);
  }
  t.extend(operand());
  compare(&t, false, Cx { ffi: Some("::f::g"), std: Some("::t"), types: sym::fork(2) == 1, old: 0 });
}

const TYPES: [&[&[u8]]; 22] = [
  &[b"char"], &[b"signed", b"char"], &[b"unsigned", b"char"], &[b"short"], &[b"unsigned", b"short"], &[b"int"], &[b"unsigned"], &[b"long"], &[b"unsigned", b"long"],
  &[b"long", b"long"], &[b"unsigned", b"long", b"long"], &[b"float"], &[b"double"], &[b"long", b"double"], &[b"_Bool"], &[b"char16_t"], &[b"char32_t"],
  &[b"wchar_t"], &[b"size_t"], &[b"T"], &[b"S"], &[b"void", b"*"],
];

/// Types at every place where one can be.
#[no_mangle]
pub extern "C" fn types() {
  let n = sym::fork(9);
  let mut t: Vec<&[u8]> = match n {
    0 => vec![b"("],
    1 => vec![b"("],
    2 => vec![b"sizeof", b"("],
    3 => vec![b"{", b"static"],
    4 => vec![b"{"],
    5 => vec![b"*", b"(", b"volatile"],
    6 => vec![b"static"],
    7 => vec![b"(", b"const"],
    _ => vec![b"int", b"f", b"("],
  };
  t.extend(TYPES[sym::fork(22)]);
  t.extend(match n {
    0 => &[b")" as &[u8], b"x"] as &[&[u8]],
    1 => &[b"*" as &[u8], b"*", b")", b"p"] as &[&[u8]],
    2 => &[b")" as &[u8]] as &[&[u8]],
    3 => &[b"y" as &[u8], b"=", b"x", b";", b"}"] as &[&[u8]],
    4 => &[b"*" as &[u8], b"y", b"=", b"p", b";", b"}"] as &[&[u8]],
    5 => &[b"*" as &[u8], b")", b"p"] as &[&[u8]],
    6 => &[b"f" as &[u8], b"(", b"int", b"a", b")"] as &[&[u8]],
    7 => &[b"*" as &[u8], b")", b"0"] as &[&[u8]],
    _ => &[b"a" as &[u8], b",", b"char", b"*", b"b", b")"] as &[&[u8]],
  });
  decide(&t);
}

/// Statements and inline assembly.
#[no_mangle]
pub extern "C" fn statements() {
  let mut t: Vec<&[u8]> = vec![];
  let n = sym::fork(5);
  t.extend(match n {
    0 => &[b"if" as &[u8], b"("] as &[&[u8]],
    1 => &[b"do" as &[u8], b"{"] as &[&[u8]],
    2 => &[b"{" as &[u8], b"return"] as &[&[u8]],
    3 => &[b"__asm__" as &[u8], b"volatile", b"(", b"\"nop\"", b":", b"\"=r\"", b"(", b"x", b")", b":", b"\"r\"", b"("] as &[&[u8]],
    _ => &[b"*" as &[u8], b"p", b"="] as &[&[u8]],
  });
  t.extend(operand());
  t.extend(match n {
    0 => &[b")" as &[u8], b"{", b"p", b"++", b";", b"}"] as &[&[u8]],
    1 => &[b";" as &[u8], b"}", b"while", b"(", b"0", b")"] as &[&[u8]],
    2 => &[b";" as &[u8], b"}"] as &[&[u8]],
    3 => &[b")" as &[u8], b":", b"\"memory\"", b")", b";"] as &[&[u8]],
    _ => &[b";" as &[u8]] as &[&[u8]],
  });
  decide(&t);
}

entries![one, two, types, statements];
