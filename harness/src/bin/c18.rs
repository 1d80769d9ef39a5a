//! Strings and characters in generated code.
#![no_main]
use cmacro::{CodegenContext, FnMacro, MacroSet, VarMacro};
use cmacro_harness::pp::text;
use cmacro_harness::refs::lit::{self, bytes, dwords, quoted, split_prefix, words, Prefix};
use cmacro_harness::refs::rexpr::{self, show, T};
use cmacro_harness::refs::rlit::{read, RLit};
use cmacro_harness::{entries, sym};

struct Cx {
  ffi: Option<&'static str>,
  core: Option<&'static str>,
  wchar: Option<&'static str>,
  target: Option<&'static str>,
}

impl CodegenContext for Cx {
  fn ffi_prefix(&self) -> Option<syn::Path> {
    self.ffi.map(|p| syn::parse_str(p).unwrap())
  }
  fn trait_prefix(&self) -> Option<syn::Path> {
    self.core.map(|p| syn::parse_str(p).unwrap())
  }
  fn resolve_ty(&self, name: &str) -> Option<syn::Type> {
    if name == "wchar_t" {
      self.wchar.map(|p| syn::parse_str(p).unwrap())
    } else {
      None
    }
  }
  fn rust_target(&self) -> Option<String> {
    self.target.map(|t| t.to_owned())
  }
}

const PLAIN: Cx = Cx { ffi: None, core: None, wchar: Some("i32"), target: None };

/// What a string consists of.
#[derive(PartialEq, Debug)]
enum Units {
  B(Vec<u8>),
  D(Vec<u32>),
}

/// The code units of a string in C, including the final zero.
fn units(tok: &[u8]) -> Option<(Prefix, Units)> {
  let (p, rest) = split_prefix(text(tok));
  let items = quoted(rest, b'"')?;
  Some((p, match p {
    Prefix::None | Prefix::U8 => {
      let mut b = bytes(&items)?;
      b.push(0);
      Units::B(b)
    },
    Prefix::U16 => {
      let mut b = words(&items)?;
      b.push(0);
      Units::D(b.into_iter().map(u32::from).collect())
    },
    _ => {
      let mut b = dwords(&items)?;
      b.push(0);
      Units::D(b)
    },
  }))
}

fn lex(s: &str) -> Vec<T> {
  rexpr::tokens(s.parse().unwrap())
}

fn path(prefix: Option<&str>, name: &str) -> String {
  match prefix {
    None => name.to_owned(),
    Some(p) => format!("{p}::{name}"),
  }
}

/// The type of the elements.
fn element(p: Prefix, cx: &Cx) -> String {
  match p {
    Prefix::None | Prefix::U8 => "u8".to_owned(),
    Prefix::U16 => "u16".to_owned(),
    Prefix::U32 => "u32".to_owned(),
    Prefix::Wide => cx.wchar.unwrap_or("wchar_t").to_owned(),
  }
}

fn num(t: &T) -> Option<(i128, Vec<u8>)> {
  match t {
    T::Lit(l) => match read(l)? {
      RLit::Num(v, s) => Some((v, s)),
      _ => None,
    },
    _ => None,
  }
}

/// An array of code units: `b"..."` or `&[1u16, 2u16]` or `&[1 as T, 2 as T]`.
fn array(t: &[T], of: &str) -> Option<Units> {
  if let [T::Lit(l)] = t {
    return match read(l)? {
      RLit::Bytes(b) if of == "u8" => Some(Units::B(b)),
      _ => None,
    };
  }
  let [T::Punct(a), T::Group(b'[', k)] = t else { return None };
  if a != b"&" {
    return None;
  }
  let mut v = vec![];
  for e in k.split(|t| *t == T::Punct(b",".to_vec())) {
    let (n, suffix) = num(e.first()?)?;
    if e.len() == 1 {
      if text(&suffix) != of {
        return None;
      }
    } else if !suffix.is_empty() || e[1] != T::Name(b"as".to_vec()) || e[2..] != lex(of)[..] {
      return None;
    }
    if n > if of == "u16" { 0xffff } else { 0xffff_ffff } {
      return None;
    }
    v.push(n as u32);
  }
  Some(Units::D(v))
}

/// `& 'static [T; n]`
fn array_type(t: &[T], of: &str, elided: bool) -> Option<i128> {
  let lifetime = [T::Punct(b"'".to_vec()), T::Name(b"static".to_vec())];
  let (amp, mut t) = t.split_first()?;
  if *amp != T::Punct(b"&".to_vec()) {
    return None;
  }
  match t.strip_prefix(&lifetime[..]) {
    Some(r) => t = r,
    None if elided => {},
    None => return None,
  }
  let [T::Group(b'[', k)] = t else { return None };
  let (n, k) = k.split_last()?;
  let (semi, ty) = k.split_last()?;
  if *semi != T::Punct(b";".to_vec()) || ty != &lex(of)[..] {
    return None;
  }
  num(n).map(|(v, _)| v)
}

fn length(u: &Units) -> i128 {
  (match u {
    Units::B(v) => v.len(),
    Units::D(v) => v.len(),
  }) as i128
}

/// `{ const NAME: &[T; n] = ...; NAME.as_ptr() as *const U }`
fn pointer(t: &[T], of: &str, elided: bool, to: Option<&str>) -> Option<Units> {
  let [T::Group(b'{', t)] = t else { return None };
  let mut parts = t.splitn(2, |t| *t == T::Punct(b";".to_vec()));
  let def = parts.next()?;
  let ptr = parts.next()?;
  let [T::Name(c), name @ T::Name(_), T::Punct(colon), rest @ ..] = def else { return None };
  if c != b"const" || colon != b":" {
    return None;
  }
  let eq = rest.iter().position(|t| *t == T::Punct(b"=".to_vec()))?;
  let n = array_type(&rest[..eq], of, elided)?;
  let u = array(&rest[eq + 1..], of)?;
  let mut want = lex("X.as_ptr()");
  want[0] = name.clone();
  if let Some(to) = to {
    want.extend(lex(&format!("as *const {to}")));
  }
  (n == length(&u) && ptr == &want[..]).then_some(u)
}

fn elided(cx: &Cx) -> bool {
  cx.target != Some("1.16.0")
}

/// A string as the value of an object-like macro.
fn object(tok: &[u8], cx: Cx) {
  let mut set = MacroSet::new();
  set.define_var_macro("V", [text(tok)]);
  let Ok(body) = set.expand_var_macro("V") else { return };
  let Some((p, want)) = units(tok) else { return };
  let Ok(mut m) = VarMacro::parse("V", &body) else { return };
  let Ok((ts, ty)) = m.generate(&cx) else { return sym::check(p == Prefix::Wide && cx.wchar.is_none(), 1) };
  let value = rexpr::tokens(ts);
  let Some(ty) = ty.map(rexpr::tokens) else { return sym::check(false, 2) };
  if sym::verbose() {
    sym::note(&format!("{} -> {} = {}; in C {:?}", text(tok), show(&ty), show(&value), want));
  }
  sym::cover(1 + p as u32);
  let of = element(p, &cx);
  if let Some(n) = array_type(&ty, &of, elided(&cx)) {
    sym::check(n == length(&want), 3);
    return sym::check(array(&value, &of) == Some(want), 4);
  }
  // a `CStr`
  let cstr = path(cx.core, if cx.core.is_some() { "ffi::CStr" } else { "CStr" });
  sym::check(p == Prefix::None && ty == lex(&format!("&{cstr}")) && matches!(cx.target, None | Some("1.59.0" | "1.77.0")), 2);
  let [T::Group(b'{', k)] = &value[..] else { return sym::check(false, 5) };
  let Some(at) = k.iter().position(|t| *t == T::Name(b"unsafe".to_vec())) else { return sym::check(false, 5) };
  let Some(T::Group(b'{', k)) = k.get(at + 1) else { return sym::check(false, 5) };
  let Some((T::Group(b'(', arg), f)) = k.split_last() else { return sym::check(false, 5) };
  sym::check(f == &lex(&format!("{cstr}::from_bytes_with_nul_unchecked"))[..], 5);
  let got = array(arg, "u8");
  // no zero in between
  sym::check(matches!(&got, Some(Units::B(b)) if b[..b.len() - 1].iter().all(|c| *c != 0)), 6);
  sym::check(got == Some(want), 4);
}

fn body(ts: proc_macro2::TokenStream) -> Option<(bool, Vec<T>)> {
  Some(match rexpr::item(&rexpr::tokens(ts))? {
    rexpr::Item::Macro(t) => (false, t),
    rexpr::Item::Fn(t) => (true, t),
  })
}

/// A string as the value of a function-like macro.
fn function(tok: &[u8], cx: Cx) {
  let mut set = MacroSet::new();
  set.define_fn_macro("F", [""; 0], [text(tok)]);
  let Ok((args, toks)) = set.expand_fn_macro("F") else { return };
  let Some((p, want)) = units(tok) else { return };
  let Ok(mut m) = FnMacro::parse("F", &args, &toks) else { return };
  let Ok(ts) = m.generate(&cx) else { return sym::check(p == Prefix::Wide && cx.wchar.is_none(), 1) };
  let all = rexpr::tokens(ts.clone());
  let Some((is_fn, value)) = body(ts) else { return sym::check(false, 5) };
  if sym::verbose() {
    sym::note(&format!("{} -> {}; in C {:?}", text(tok), show(&all), want));
  }
  sym::cover(1 + p as u32);
  let of = element(p, &cx);
  let c_char = path(cx.ffi, "c_char");
  let to = if p == Prefix::None { &c_char } else { &of };
  if is_fn {
    let ret = lex(&format!("-> *const {to}"));
    sym::check(all.windows(ret.len()).any(|w| w == &ret[..]), 2);
  }
  let cast = if p == Prefix::None { Some(&c_char[..]) } else { None };
  let got = pointer(&value, &of, elided(&cx), cast).or_else(|| pointer(&value, &of, elided(&cx), Some(to)));
  sym::check(got.is_some(), 5);
  sym::check(got == Some(want), 4);
}

/// The value of a character in C as a bit pattern of the width of its type.
fn character(tok: &[u8]) -> Option<(Prefix, u32)> {
  let (p, rest) = split_prefix(text(tok));
  let items = quoted(rest, b'\'')?;
  let v = match p {
    // a character which does not fit into one byte
    Prefix::None | Prefix::U8 => match items[..] {
      [lit::Item::Chr(c)] if c < 0x100 => vec![c],
      _ => bytes(&items)?.into_iter().map(u32::from).collect(),
    },
    Prefix::U16 => words(&items)?.into_iter().map(u32::from).collect(),
    _ => dwords(&items)?,
  };
  (v.len() == 1).then(|| (p, v[0]))
}

/// `'c' as T`
fn cast_character(t: &[T], ty: &str, bits: u32) -> Option<u32> {
  let (l, cast) = t.split_first()?;
  let T::Lit(l) = l else { return None };
  if cast != &lex(&format!("as {ty}"))[..] {
    return None;
  }
  let v = match read(l)? {
    RLit::Char(c) => c,
    RLit::Num(v, s) => {
      // in the range of its type
      let max = match &s[..] {
        b"u8" => 0xff,
        b"u16" => 0xffff,
        b"u32" => 0xffff_ffff,
        _ => return None,
      };
      if v > max {
        return None;
      }
      v as u32
    },
    _ => return None,
  };
  Some(if bits == 32 { v } else { v & ((1 << bits) - 1) })
}

/// A character as the value of a macro.
fn char_macro(tok: &[u8], cx: Cx) {
  let mut set = MacroSet::new();
  set.define_var_macro("V", [text(tok)]);
  set.define_fn_macro("F", [""; 0], [text(tok)]);
  let Ok(var) = set.expand_var_macro("V") else { return };
  let Some((p, want)) = character(tok) else { return };
  let ty = match p {
    Prefix::None => path(cx.ffi, "c_char"),
    p => element(p, &cx),
  };
  let bits = match &ty[..] {
    "u16" => 16,
    _ if p == Prefix::None || p == Prefix::U8 => 8,
    _ => 32,
  };
  let unresolved = p == Prefix::Wide && cx.wchar.is_none();
  sym::cover(11 + p as u32);
  let value = if sym::fork(2) == 0 {
    let Ok(mut m) = VarMacro::parse("V", &var) else { return sym::check(false, 1) };
    let Ok((ts, t)) = m.generate(&cx) else { return sym::check(unresolved, 1) };
    sym::check(t.map(rexpr::tokens) == Some(lex(&ty)), 2);
    rexpr::tokens(ts)
  } else {
    let Ok((args, toks)) = set.expand_fn_macro("F") else { return sym::check(false, 1) };
    let Ok(mut m) = FnMacro::parse("F", &args, &toks) else { return sym::check(false, 1) };
    let Ok(ts) = m.generate(&cx) else { return sym::check(unresolved, 1) };
    let all = rexpr::tokens(ts.clone());
    let Some((is_fn, value)) = body(ts) else { return sym::check(false, 5) };
    let ret = lex(&format!("-> {ty}"));
    sym::check(is_fn && all.windows(ret.len()).any(|w| w == &ret[..]), 2);
    match &value[..] {
      [T::Group(b'{', k)] => k.clone(),
      _ => value,
    }
  };
  if sym::verbose() {
    sym::note(&format!("{} -> {}; in C {}", text(tok), show(&value), want));
  }
  sym::check(cast_character(&value, &ty, bits) == Some(want), 4);
}

/// A part of a string which is put together from literals and other things.
#[derive(PartialEq, Clone, Debug)]
enum Part {
  Bytes(Vec<u8>),
  /// In Rust
  Code(Vec<T>),
}

fn merge(parts: Vec<Part>) -> Vec<Part> {
  let mut out: Vec<Part> = vec![];
  for p in parts {
    match (out.last_mut(), p) {
      (Some(Part::Bytes(a)), Part::Bytes(b)) => a.extend_from_slice(&b),
      (_, p) => out.push(p),
    }
  }
  out
}

/// `{ const NAME: &[u8] = concat!(...).as_bytes(); NAME.as_ptr() as *const c_char }`, the parts without the final zero.
fn concat(t: &[T], cx: &Cx) -> Option<Vec<Part>> {
  let [T::Group(b'{', t)] = t else { return None };
  let mut stmts = t.splitn(2, |t| *t == T::Punct(b";".to_vec()));
  let def = stmts.next()?;
  let ptr = stmts.next()?;
  let [T::Name(c), name @ T::Name(_), T::Punct(colon), rest @ ..] = def else { return None };
  if c != b"const" || colon != b":" {
    return None;
  }
  let eq = rest.iter().position(|t| *t == T::Punct(b"=".to_vec()))?;
  let ok = rest[..eq] == lex("&'static [u8]")[..] || elided(cx) && rest[..eq] == lex("&[u8]")[..];
  let mut want = lex("X.as_ptr()");
  want[0] = name.clone();
  want.extend(lex(&format!("as *const {}", path(cx.ffi, "c_char"))));
  if !ok || ptr != &want[..] {
    return None;
  }
  let start = lex(&format!("{}!", path(cx.core, "concat")));
  let [T::Group(b'(', args), end @ ..] = rest[eq + 1..].strip_prefix(&start[..])? else { return None };
  if end != &lex(".as_bytes()")[..] {
    return None;
  }
  let mut parts = vec![];
  for a in args.split(|t| *t == T::Punct(b",".to_vec())) {
    parts.push(match a {
      [T::Lit(l)] => match read(l)? {
        RLit::Str(s) => Part::Bytes(s),
        RLit::Char(c) if c < 0x80 => Part::Bytes(vec![c as u8]),
        _ => return None,
      },
      a => Part::Code(a.to_vec()),
    });
  }
  let mut parts = merge(parts);
  match parts.last_mut()? {
    Part::Bytes(b) if b.last() == Some(&0) => {
      b.pop();
      if b.is_empty() {
        parts.pop();
      }
    },
    _ => return None,
  }
  Some(parts)
}

/// The parts of a string.
const PARTS: [&[&str]; 13] = [
  &["\"x\""],
  &["\"\""],
  &["\"\u{e9}\\n\""],
  &["u8\"\\u20ac\""],
  &["\"\\377\""],
  &["u\"w\""],
  &["U\"w\""],
  &["L\"w\""],
  &["__FILE__"],
  &["a"],
  &["b"],
  &["#", "a"],
  &["#", "b"],
];

fn parts(n: usize, cx: Cx) {
  let mut toks: Vec<&str> = vec![];
  let mut want = vec![];
  let mut wide = false;
  let mut macro_only = false;
  let mut code = false;
  for _ in 0..n {
    let k = sym::fork(PARTS.len());
    toks.extend_from_slice(PARTS[k]);
    want.push(match k {
      0 => Part::Bytes(b"x".to_vec()),
      1 => Part::Bytes(vec![]),
      2 => Part::Bytes("\u{e9}\n".as_bytes().to_vec()),
      3 => Part::Bytes("\u{20ac}".as_bytes().to_vec()),
      4 => Part::Bytes(vec![0xff]),
      5..=7 => {
        wide = true;
        Part::Bytes(vec![])
      },
      8 => Part::Code(lex(&format!("{}!()", path(cx.core, "file")))),
      9 | 10 => {
        macro_only = true;
        Part::Code(lex(["$a", "$b"][k - 9]))
      },
      _ => {
        macro_only = true;
        Part::Code(lex(&format!("{}!({})", path(cx.core, "stringify"), ["$a", "$b"][k - 11])))
      },
    });
    code |= k >= 8;
  }
  // one argument or a string without other parts is no concatenation
  if !code || n == 1 && toks.len() == 1 {
    return;
  }
  let mut want = merge(want);
  want.retain(|p| *p != Part::Bytes(vec![]));
  let mut set = MacroSet::new();
  set.define_fn_macro("F", ["a", "b"], toks.iter().copied());
  let Ok((args, toks)) = set.expand_fn_macro("F") else { return sym::check(false, 1) };
  let Ok(mut m) = FnMacro::parse("F", &args, &toks) else { return sym::check(wide, 1) };
  let invalid = want.iter().any(|p| matches!(p, Part::Bytes(b) if std::str::from_utf8(b).is_err()));
  let Ok(ts) = m.generate(&cx) else {
    sym::cover(22);
    return sym::check(wide || invalid, 1);
  };
  sym::cover(21);
  let all = rexpr::tokens(ts.clone());
  if sym::verbose() {
    sym::note(&format!("{:?}", show(&all)));
  }
  // wide strings have no representation here
  sym::check(!wide, 7);
  let Some((is_fn, value)) = body(ts) else { return sym::check(false, 5) };
  sym::check(!is_fn || !macro_only, 8);
  let value = match &value[..] {
    [T::Group(b'{', k)] if matches!(k[..], [T::Group(b'{', _)]) => k.clone(),
    _ => value,
  };
  let Some(mut got) = concat(&value, &cx) else { return sym::check(false, 5) };
  got.retain(|p| *p != Part::Bytes(vec![]));
  sym::check(got == want, 4);
}

/// One element of a literal, of any kind.
fn unit(kind: usize, plain: bool, out: &mut Vec<u8>) {
  let from = out.len();
  unit_of(kind, out);
  if !plain {
    // the numbers are printed
    for b in &mut out[from..] {
      *b = sym::concrete(*b as usize) as u8;
    }
  }
}

fn unit_of(kind: usize, out: &mut Vec<u8>) {
  match kind {
    0 => out.push(sym::range(0, 127) as u8),
    1 => {
      out.push(b'\\');
      out.push(sym::range(0, 127) as u8);
    },
    2 => {
      out.push(b'\\');
      for _ in 0..3 {
        out.push(sym::range(b'0' as usize, b'7' as usize) as u8);
      }
    },
    3 => {
      out.extend_from_slice(b"\\x");
      out.push(sym::range(b'0' as usize, b'9' as usize) as u8);
      out.push(sym::range(b'a' as usize, b'f' as usize) as u8);
    },
    4 => {
      // all UTF-8 lengths
      out.extend_from_slice([&b"\\u00e"[..], b"\\u07f", b"\\ud7a", b"\\uFFf", b"\\U0001F4a", b"\\U0010ffe"][sym::fork(6)]);
      out.push(sym::range(b'0' as usize, b'9' as usize) as u8);
    },
    5 => {
      out.extend_from_slice(b"\\xa");
      out.push(sym::range(b'0' as usize, b'9' as usize) as u8);
    },
    6 => {
      out.push([0xc2, 0xdf][sym::fork(2)]);
      out.push(sym::range(0x80, 0xbf) as u8);
    },
    7 => out.extend_from_slice("\u{20ac}".as_bytes()),
    _ => {
      out.extend_from_slice(b"\xf0\x9f\x8d");
      out.push(sym::range(0x80, 0xbf) as u8);
    },
  }
}

const PREFIX: [&[u8]; 5] = [b"", b"u8", b"u", b"U", b"L"];

fn literal(quote: u8, n: usize) -> Vec<u8> {
  literal_of(quote, n, true)
}

fn literal_of(quote: u8, n: usize, symbolic: bool) -> Vec<u8> {
  let mut t = Vec::with_capacity(64);
  let p = sym::fork(5);
  t.extend_from_slice(PREFIX[p]);
  t.push(quote);
  for _ in 0..n {
    if p < 2 || n == 1 {
      unit(sym::fork(9), symbolic && p < 2, &mut t);
    } else {
      let k = sym::fork(18);
      t.extend_from_slice(
        [
          &b"a"[..], b"0", b"8", b"g", b"'", b" ", b"\\n", b"\\0", b"\\12", b"\\377", b"\\x1", b"\\xff", b"\\u00e9", b"\\uffff",
          b"\\U0001F4a9", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x8d\x80",
        ][k],
      );
    }
  }
  t.push(quote);
  t
}

fn string(n: usize) {
  let t = literal(b'"', n);
  if sym::fork(2) == 0 {
    object(&t, PLAIN)
  } else {
    function(&t, PLAIN)
  }
}

#[no_mangle]
pub extern "C" fn strings() {
  string(sym::fork(2));
}

#[no_mangle]
pub extern "C" fn strings2() {
  string(2);
}

#[no_mangle]
pub extern "C" fn strings3() {
  string(3);
}

/// Contexts and targets.
#[no_mangle]
pub extern "C" fn contexts() {
  let mut t = Vec::with_capacity(64);
  let p = sym::fork(5);
  t.extend_from_slice(PREFIX[p]);
  t.extend_from_slice(b"\"x");
  match sym::fork(3) {
    0 if p < 2 => t.push(sym::range(0x20, 0x7e) as u8),
    0 => t.push(b'y'),
    1 => t.extend_from_slice(b"\\0"),
    _ => t.extend_from_slice(b"\\7"),
  }
  t.push(b'"');
  let cx = context();
  if sym::fork(2) == 0 {
    object(&t, cx)
  } else {
    function(&t, cx)
  }
}

fn context() -> Cx {
  Cx {
    ffi: [None, Some("::core::ffi"), Some("libc")][sym::fork(3)],
    core: [None, Some("::core"), Some("std")][sym::fork(3)],
    wchar: [None, Some("u32"), Some("u16"), Some("::a::wide")][sym::fork(4)],
    target: [None, Some("1.16.0"), Some("1.17.0"), Some("1.58.1"), Some("1.59.0"), Some("1.77.0")][sym::fork(6)],
  }
}

#[no_mangle]
pub extern "C" fn characters() {
  let t = literal_of(b'\'', 1, false);
  char_macro(&t, PLAIN);
}

#[no_mangle]
pub extern "C" fn character_contexts() {
  let mut t = Vec::with_capacity(64);
  t.extend_from_slice(PREFIX[sym::fork(5)]);
  t.extend_from_slice([&b"'x'"[..], b"'\\xff'", b"'\\0'", b"'\\uffff'"][sym::fork(4)]);
  char_macro(&t, context());
}

#[no_mangle]
pub extern "C" fn parts2() {
  parts(1 + sym::fork(2), context());
}

#[no_mangle]
pub extern "C" fn parts3() {
  parts(3, PLAIN);
}

#[no_mangle]
pub extern "C" fn parts4() {
  parts(4, PLAIN);
}

entries![strings, strings2, strings3, contexts, characters, character_contexts, parts2, parts3, parts4];
