//! Generated code uses what the Rust target has.
#![no_main]
use cmacro::{CodegenContext, FnMacro, MacroSet, VarMacro};
use cmacro_harness::{entries, sym};

struct Cx(Option<String>, bool);

impl CodegenContext for Cx {
  fn rust_target(&self) -> Option<String> {
    self.0.clone()
  }
  fn ffi_prefix(&self) -> Option<syn::Path> {
    self.1.then(|| syn::parse_str("::f").unwrap())
  }
  fn macro_arg_ty(&self, _: &str, a: &str) -> Option<syn::Type> {
    match a {
      "x" => syn::parse_str("c_int").ok(),
      "n" => syn::parse_str(if self.1 { "::f::c_size_t" } else { "c_size_t" }).ok(),
      "m" => syn::parse_str(if self.1 { "::f::c_ssize_t" } else { "c_ssize_t" }).ok(),
      _ => None,
    }
  }
}

/// A target, its version if it names one, and whether it is a nightly one.
struct Target {
  text: String,
  version: Option<(u64, u64)>,
  nightly: bool,
  pre: bool,
}

/// A number of up to `n` digits without leading zeros.
fn number(n: usize, text: &mut String) -> u64 {
  let len = 1 + sym::fork(n);
  let mut v = 0;
  for i in 0..len {
    let d = sym::range(if i == 0 && len > 1 { 1 } else { 0 }, 9);
    text.push((b'0' + d as u8) as char);
    v = 10 * v + d as u64;
  }
  v
}

fn target() -> Target {
  let mut text = String::new();
  let other = ["nightly", "", "stable", "nightly-2024-05-01", "1", "1.", ".5.0", "01.20.0", "1.20.0.0", "v1.20.0", "1.x.0", " 1.20.0"];
  let n = sym::fork(other.len() + 1);
  if n > 0 {
    let t = other[n - 1];
    return Target { text: t.to_owned(), version: None, nightly: t.contains("nightly"), pre: false };
  }
  let major = number(1, &mut text);
  text.push('.');
  let minor = number(3, &mut text);
  let mut pre = false;
  let mut nightly = false;
  if sym::fork(2) == 1 {
    text.push('.');
    number(2, &mut text);
    let suffix = ["", "-nightly", "-beta.2", "+abc", "-a-nightly+1"][sym::fork(5)];
    text.push_str(suffix);
    pre = suffix.starts_with('-');
    nightly = suffix.contains("nightly");
  }
  Target { text, version: Some((major, minor)), nightly, pre }
}

impl Target {
  /// Whether the target is known to have what version `1.minor` brought, or unknown.
  fn has(&self, minor: u64) -> Option<bool> {
    match self.version {
      None => Some(true),
      Some((a, b)) => {
        let v = a > 1 || a == 1 && b >= minor;
        // A version before a release may lack what is new in it.
        if self.pre && v {
          None
        } else {
          Some(v)
        }
      },
    }
  }
}

fn object(body: &[&str], cx: &Cx) -> Option<(String, String)> {
  let mut set = MacroSet::new();
  set.define_var_macro("V", body.iter().copied());
  let (a, t) = VarMacro::parse("V", &set.expand_var_macro("V").ok()?).ok()?.generate(cx).ok()?;
  if sym::verbose() {
    sym::note(&format!("{body:?} for {:?}: {a} of type {t:?}", cx.0));
  }
  Some((a.to_string().replace(' ', ""), t.map(|t| t.to_string().replace(' ', "")).unwrap_or_default()))
}

fn function(params: &[&str], body: &[&str], cx: &Cx) -> Option<String> {
  let mut set = MacroSet::new();
  set.define_fn_macro("F", params.iter().copied(), body.iter().copied());
  let (a, b) = set.expand_fn_macro("F").ok()?;
  let t = FnMacro::parse("F", &a, &b).ok()?.generate(cx).ok()?.to_string();
  if sym::verbose() {
    sym::note(&format!("{body:?} for {:?}: {t}", cx.0));
  }
  Some(t.replace(' ', ""))
}

/// Constant strings.
#[no_mangle]
pub extern "C" fn strings() {
  let t = target();
  let cx = Cx(Some(t.text.clone()), false);
  let (body, bytes, zero): (&[&str], &str, bool) = match sym::fork(4) {
    0 => (&["\"s\""], "b\"s\\0\"", false),
    1 => (&["\"\""], "b\"\\0\"", false),
    2 => (&["\"s\"", "\"t\""], "b\"st\\0\"", false),
    _ => (&["\"a\\0b\""], "b\"a\\0b\\0\"", true),
  };
  let Some((code, ty)) = object(body, &cx) else { return sym::check(false, 1) };
  let len = if zero { 4 } else { bytes.len() - 4 };
  let cstr = code.contains("CStr::from_bytes_with_nul_unchecked") && ty == "&CStr";
  let short = code.contains(bytes) && !code.contains("CStr") && ty == format!("&[u8;{len}]");
  let long = code.contains(bytes) && !code.contains("CStr") && ty == format!("&'static[u8;{len}]");
  sym::check(cstr || short || long, 2);
  if zero {
    sym::check(!cstr, 3);
  } else if let Some(has) = t.has(59) {
    sym::check(cstr == has, 3);
  }
  if let Some(has) = t.has(17) {
    sym::check(!has || !long, 4);
    sym::check(has || long, 4);
  }
  sym::cover(if cstr { 1 } else if short { 2 } else { 3 });
}

/// Strings which are read in place.
#[no_mangle]
pub extern "C" fn pointers() {
  let t = target();
  let cx = Cx(Some(t.text.clone()), sym::fork(2) == 1);
  let code = match sym::fork(4) {
    0 => function(&["x"], &["\"s\""], &cx),
    1 => function(&["a"], &["#", "a"], &cx),
    2 => function(&[], &["__FILE__"], &cx),
    _ => function(&["a"], &["\"s\"", "#", "a"], &cx),
  };
  let Some(code) = code else { return sym::check(false, 1) };
  sym::check(!code.contains("CStr"), 3);
  let (long, short) = (code.contains("constBYTES:&'static["), code.contains("constBYTES:&["));
  sym::check(long != short, 2);
  if let Some(has) = t.has(17) {
    sym::check(has == short, 4);
  }
  sym::cover(if short { 1 } else { 2 });
}

/// Sizes.
#[no_mangle]
pub extern "C" fn sizes() {
  let mut t = target();
  let known = sym::fork(4) > 0;
  let prefix = sym::fork(2) == 1;
  if !known {
    t.nightly = true;
  }
  let cx = Cx(known.then(|| t.text.clone()), prefix);
  let (code, signed) = match sym::fork(3) {
    0 => (function(&["x"], &["sizeof", "(", "x", ")"], &cx), false),
    1 => (function(&["n"], &["n", "+", "n"], &cx), false),
    _ => (function(&["m"], &["m", "+", "m"], &cx), true),
  };
  let Some(code) = code else { return sym::check(false, 1) };
  let want = match (t.nightly, signed) {
    (true, false) if prefix => "->::f::c_size_t{",
    (true, true) if prefix => "->::f::c_ssize_t{",
    (true, false) => "->c_size_t{",
    (true, true) => "->c_ssize_t{",
    (false, false) => "->usize{",
    (false, true) => "->isize{",
  };
  sym::check(code.contains(want), 5);
  sym::cover(if t.nightly { 1 } else { 2 });
}

entries![strings, pointers, sizes];
