//! Macros through the whole pipeline, against the C reading of their replacement lists.
use crate::pp::text;
use crate::refs::cexpr::{IsType, C};
use crate::refs::rexpr::{self, Item};
use crate::refs::tree::{settled, N};
use crate::sym;
use cmacro::{CodegenContext, FnMacro, MacroSet, VarMacro};

/// Every macro argument is an `int`.
pub struct Ints;

impl CodegenContext for Ints {
  fn macro_arg_ty(&self, _: &str, _: &str) -> Option<syn::Type> {
    Some(syn::parse_quote! { c_int })
  }
}

pub fn no_type(_: &[u8]) -> bool {
  false
}

fn show(body: &[&[u8]]) -> String {
  body.iter().map(|t| text(t)).collect::<Vec<_>>().join(" ")
}

/// Whether an expression assigns to a parameter or takes its address.
fn modified(n: &N, params: &[&[u8]]) -> bool {
  n.any(&|n| match n {
    N::Op("p++" | "p--" | "=" | "+=" | "-=" | "*=" | "/=" | "%=" | "<<=" | ">>=" | "&=" | "^=" | "|=" | "u&", k) => {
      let mut x = &k[0];
      while let N::Op(".", k) = x {
        x = &k[0];
      }
      matches!(x, N::Leaf(b) if params.iter().any(|p| *p == &b[..]))
    },
    _ => false,
  })
}

/// Whether generated code is a function, and what it means.
pub fn meaning(ts: proc_macro2::TokenStream) -> (bool, Result<N, &'static str>) {
  let t = rexpr::tokens(ts);
  if sym::verbose() {
    sym::note(&format!("generated {}", rexpr::show(&t)));
  }
  match rexpr::item(&t) {
    None => (false, Err("no item")),
    Some(Item::Macro(t)) => (false, rexpr::expr(&t)),
    Some(Item::Fn(t)) => (true, rexpr::block(&t)),
  }
}

pub fn compare(got: Result<N, &'static str>, want: N, id: u32) {
  if sym::verbose() {
    sym::note(&format!("means {:?}", got));
    sym::note(&format!("in C  {:?}", want));
  }
  let want = settled(want);
  match got {
    Err(_) => sym::check(false, id + 1),
    Ok(n) => sym::check(settled(n) == want, id),
  }
}

/// Outcomes of `function`.
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum Out {
  Done,
  /// not an expression, and rejected
  Bad,
  ParseErr,
  GenErr,
}

/// The code generated for a function-like macro whose body is an expression means what the body means in C.
pub fn function<X: CodegenContext>(params: &[&[u8]], body: &[&[u8]], cx: X, is_type: IsType, want: Result<N, ()>, id: u32) -> Out {
  let _ = is_type;
  if sym::verbose() {
    sym::note(&format!("#define F({}) {}", show(params), show(body)));
  }
  let mut set = MacroSet::new();
  set.define_fn_macro("F", params.iter().map(|t| text(t)), body.iter().map(|t| text(t)));
  let Ok((args, toks)) = set.expand_fn_macro("F") else {
    sym::check(want.is_err(), id + 2);
    return Out::ParseErr;
  };
  let m = FnMacro::parse("F", &args, &toks);
  let want = match want {
    Err(()) => {
      return if m.is_err() {
        Out::Bad
      } else {
        Out::Done
      }
    },
    Ok(w) => w,
  };
  let Ok(mut m) = m else { return Out::ParseErr };
  let Ok(ts) = m.generate(cx) else { return Out::GenErr };
  let (is_fn, got) = meaning(ts);
  if modified(&want, params) {
    // the caller's variable and not a copy of it
    sym::check(!is_fn, id + 4);
  }
  compare(got, want, id);
  Out::Done
}

/// The same for an object-like macro.
pub fn object<X: CodegenContext>(body: &[&[u8]], cx: X, want: N, id: u32) -> Out {
  if sym::verbose() {
    sym::note(&format!("#define V {}", show(body)));
  }
  let mut set = MacroSet::new();
  set.define_var_macro("V", body.iter().map(|t| text(t)));
  let Ok(toks) = set.expand_var_macro("V") else { return Out::ParseErr };
  let Ok(mut m) = VarMacro::parse("V", &toks) else { return Out::ParseErr };
  let Ok((ts, _)) = m.generate(cx) else { return Out::GenErr };
  let t = rexpr::tokens(ts);
  if sym::verbose() {
    sym::note(&format!("generated {}", rexpr::show(&t)));
  }
  compare(rexpr::expr(&t), want, id);
  Out::Done
}

/// The C reading of a replacement list; paths on which it is not unique are given up.
pub fn c(body: &[&[u8]], is_type: IsType) -> Result<N, ()> {
  let mut c = C::new(body, is_type);
  let n = c.all();
  sym::assume(!c.call_name);
  n
}
