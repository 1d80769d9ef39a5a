//! Arguments of generated macros and functions are declared as what they are used as.
#![no_main]
use cmacro::{CodegenContext, FnMacro, MacroSet};
use cmacro_harness::pp::text;
use cmacro_harness::{entries, sym};
use proc_macro2::{Delimiter, TokenStream, TokenTree};

/// Which arguments have a type, and whether the function `g` is known.
#[derive(Clone, Copy)]
struct Cx {
  types: [Option<&'static str>; 3],
  g: bool,
}

const NAMES: [&str; 3] = ["x", "type", "z"];

impl CodegenContext for Cx {
  fn macro_arg_ty(&self, _: &str, arg: &str) -> Option<syn::Type> {
    let i = NAMES.iter().position(|n| *n == arg)?;
    self.types[i].map(|t| syn::parse_str(t).unwrap())
  }
  fn function(&self, name: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
    if self.g && name == "g" {
      Some((vec![syn::parse_quote! { c_int }, syn::parse_quote! { *mut c_long }], syn::parse_quote! { c_double }))
    } else {
      None
    }
  }
}

/// Tokens without their groups' spacing.
#[derive(PartialEq, Eq, Clone, Debug)]
enum T {
  Word(String),
  Arg(String),
  Punct(char),
  Other,
}
use T::*;

/// Where a macro argument or a function parameter occurs.
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
enum Use {
  Value,
  Type,
  Ident,
  Field,
  Text,
}

struct Uses {
  found: Vec<(String, Use)>,
  functions: bool,
}

fn flat(ts: TokenStream, out: &mut Vec<(T, usize)>, depth: usize, functions: bool) {
  let mut dollar = false;
  for t in ts {
    match t {
      TokenTree::Punct(p) if p.as_char() == '$' => dollar = true,
      TokenTree::Punct(p) => {
        out.push((Punct(p.as_char()), depth));
        dollar = false;
      },
      TokenTree::Ident(i) => {
        let i = i.to_string();
        if dollar || functions && NAMES.iter().any(|n| *n == i.trim_start_matches("r#")) {
          out.push((Arg(i), depth));
        } else {
          out.push((Word(i), depth));
        }
        dollar = false;
      },
      TokenTree::Literal(_) => out.push((Other, depth)),
      TokenTree::Group(g) => {
        let d = match g.delimiter() {
          Delimiter::Parenthesis => ('(', ')'),
          Delimiter::Brace => ('{', '}'),
          Delimiter::Bracket => ('[', ']'),
          Delimiter::None => (' ', ' '),
        };
        out.push((Punct(d.0), depth));
        flat(g.stream(), out, depth + 1, functions);
        out.push((Punct(d.1), depth));
      },
    }
  }
}

fn word(t: Option<&(T, usize)>, w: &str) -> bool {
  matches!(t, Some((Word(x), _)) if x == w)
}

fn punct(t: Option<&(T, usize)>, c: char) -> bool {
  matches!(t, Some((Punct(x), _)) if *x == c)
}

impl Uses {
  fn find(&mut self, ts: TokenStream) {
    let mut t = vec![];
    flat(ts, &mut t, 0, self.functions);
    // enclosing macro calls: name, depth inside, arguments so far
    let mut calls: Vec<(String, usize, usize)> = vec![];
    for i in 0..t.len() {
      let depth = t[i].1;
      while calls.last().map_or(false, |c| c.1 > depth) {
        calls.pop();
      }
      let before = |n: usize| i.checked_sub(n).and_then(|i| t.get(i));
      match &t[i].0 {
        Punct('(') if punct(before(1), '!') => {
          if let Some((Word(w), _)) = before(2) {
            calls.push((w.clone(), depth + 1, 0));
          }
        },
        Punct(',') => {
          if let Some(c) = calls.last_mut() {
            if c.1 == depth {
              c.2 += 1;
            }
          }
        },
        Arg(a) => {
          let pointer = (word(before(1), "mut") || word(before(1), "const")) && punct(before(2), '*');
          let generic = punct(before(1), '<') && punct(before(2), ':');
          let declared = punct(before(1), ':') && !punct(before(2), ':');
          let u = match calls.last() {
            Some((m, d, n)) if *d == depth && m == "offsetof" => {
              if *n == 0 {
                Use::Type
              } else {
                Use::Field
              }
            },
            Some((m, ..)) if m == "concat_idents" => Use::Ident,
            Some((m, ..)) if m == "stringify" => Use::Text,
            _ if pointer || generic || declared || word(before(1), "as") => Use::Type,
            _ if punct(before(1), '.') || word(before(1), "mut") || word(before(1), "fn") => Use::Ident,
            // parameter of a declared function
            _ if punct(t.get(i + 1), ':') && !punct(t.get(i + 2), ':') => Use::Ident,
            _ => Use::Value,
          };
          self.found.push((a.clone(), u));
        },
        _ => (),
      }
    }
  }
}

fn allowed(kind: &str, u: Use) -> bool {
  match (kind, u) {
    ("ident" | "tt", _) => true,
    (_, Use::Text) => true,
    ("expr", u) => u == Use::Value,
    ("ty", u) => u == Use::Type,
    _ => false,
  }
}

/// The group which starts at the first of `ts` that is one.
fn group(ts: &mut impl Iterator<Item = TokenTree>) -> Option<TokenStream> {
  ts.find_map(|t| match t {
    TokenTree::Group(g) => Some(g.stream()),
    _ => None,
  })
}

/// The parts of a list between commas.
fn split(ts: TokenStream) -> Vec<Vec<String>> {
  let mut out = vec![vec![]];
  for t in ts {
    match t {
      TokenTree::Punct(p) if p.as_char() == ',' => out.push(vec![]),
      t => out.last_mut().unwrap().push(t.to_string()),
    }
  }
  if out.last().unwrap().is_empty() {
    out.pop();
  }
  out
}

fn decide(params: &[&str], body: &[&[u8]], cx: Cx) {
  if sym::verbose() {
    sym::note(&format!("{params:?} {:?} types {:?} g {}", body.iter().map(|t| text(t)).collect::<Vec<_>>().join(" "), cx.types, cx.g));
  }
  let mut set = MacroSet::new();
  set.define_fn_macro("F", params.iter().copied(), body.iter().map(|t| text(t)));
  let Ok((args, toks)) = set.expand_fn_macro("F") else { return sym::check(false, 1) };
  let Ok(mut m) = FnMacro::parse("F", &args, &toks) else { return sym::check(false, 1) };
  // e.g. a known number is no pointer
  let Ok(ts) = m.generate(cx) else { return sym::cover(3) };
  if sym::verbose() {
    sym::note(&ts.to_string());
  }
  let mut it = ts.into_iter();
  let mut function = false;
  for t in it.by_ref() {
    match t {
      TokenTree::Ident(i) if i == "macro_rules" => break,
      TokenTree::Ident(i) if i == "fn" => {
        function = true;
        break;
      },
      _ => (),
    }
  }
  let mut uses = Uses { found: vec![], functions: function };
  if function {
    let Some(list) = group(&mut it) else { return sym::check(false, 2) };
    let list = split(list);
    sym::check(list.len() == params.len(), 2);
    for (p, l) in params.iter().zip(&list) {
      // mut name: type
      sym::check(l.len() > 3 && l[0] == "mut" && l[1].trim_start_matches("r#") == *p && l[2] == ":", 2);
      let i = NAMES.iter().position(|n| n == p).unwrap();
      let ty = l[3..].concat();
      let want = match cx.types[i] {
        Some(t) => Some(t.replace(' ', "")),
        None => {
          // the parameter of `g` for which it is the argument
          let g = |n: usize, ty: &str| body.windows(n + 1).any(|w| w[0] == b"g" && w[n] == p.as_bytes()).then(|| ty.to_owned());
          g(2, "c_int").or_else(|| g(4, "*mutc_long")).filter(|_| cx.g)
        },
      };
      sym::check(want.is_some(), 6);
      sym::check(want.as_deref() == Some(&ty), 5);
    }
    let Some(body) = group(&mut it) else { return sym::check(false, 2) };
    uses.find(body);
    for (_, u) in &uses.found {
      sym::check(*u == Use::Value, 4);
    }
    sym::cover(1);
  } else {
    let Some(rules) = group(&mut it) else { return sym::check(false, 2) };
    let mut it = rules.into_iter();
    let Some(list) = group(&mut it) else { return sym::check(false, 2) };
    let list = split(list);
    sym::check(list.len() == params.len(), 2);
    for (p, l) in params.iter().zip(&list) {
      // $name:kind
      sym::check(l.len() == 4 && l[0] == "$" && l[1] == *p && l[2] == ":", 2);
    }
    let Some(body) = group(&mut it) else { return sym::check(false, 2) };
    uses.find(body);
    for (a, u) in &uses.found {
      let Some(i) = params.iter().position(|p| p == a) else { return sym::check(false, 2) };
      if sym::verbose() {
        sym::note(&format!("{a} {u:?}"));
      }
      sym::check(list.get(i).map_or(false, |l| allowed(&l[3], *u)), 3);
    }
    sym::cover(2);
  }
}

/// Ways in which a parameter `a`, and perhaps another one `b`, can be used.
fn using(n: usize, a: &'static [u8], b: &'static [u8]) -> Vec<&'static [u8]> {
  match n {
    0 => vec![a],
    1 => vec![b"-", a],
    2 => vec![b"(", a, b")", b"1"],
    3 => vec![b"(", a, b"*", b")", b],
    4 => vec![b"sizeof", b"(", a, b")"],
    5 => vec![b"sizeof", b"(", a, b"*", b")"],
    6 => vec![b"s", b".", a],
    7 => vec![b, b"->", a],
    8 => vec![a, b"(", b, b")"],
    9 => vec![b"h", b"(", a, b")"],
    10 => vec![b"g", b"(", a, b",", b, b")"],
    11 => vec![b"h", b"(", b"#", a, b")"],
    12 => vec![a, b"##", b],
    13 => vec![b"q", b"##", a],
    14 => vec![b"__builtin_offsetof", b"(", a, b",", b, b")"],
    15 => vec![b"(", b"struct", a, b"*", b")", b"1"],
    16 => vec![b"(", b"const", a, b"*", b")", b"(", b, b"+", b"1", b")"],
    17 => vec![b"&", a],
    18 => vec![b"(", a, b"=", b, b")"],
    19 => vec![b"sizeof", b"(", b"struct", a, b")"],
    _ => vec![b"1"],
  }
}

const USES: usize = 21;

fn cx() -> Cx {
  let types = match sym::fork(4) {
    0 => [None; 3],
    1 => [Some("c_int"), None, Some("* mut c_long")],
    2 => [Some("c_int"); 3],
    _ => [None, Some("c_uint"), Some("c_uint")],
  };
  Cx { types, g: sym::fork(2) == 1 }
}

const B: [&[u8]; 3] = [b"x", b"type", b"z"];

fn pair() -> (&'static [u8], &'static [u8]) {
  let (a, b) = [(0, 1), (1, 0), (0, 0)][sym::fork(3)];
  (B[a], B[b])
}

/// Two uses.
#[no_mangle]
pub extern "C" fn two() {
  let (a, b) = [(0, 1), (1, 0), (0, 0), (2, 1), (2, 2)][sym::fork(5)];
  let params = &NAMES[..if a == 2 { 3 } else { 2 }];
  let (x, y) = if a == 2 { (B[2], B[0]) } else { (B[0], B[1]) };
  let (a, b) = (B[a], B[b]);
  let mut t = using(sym::fork(USES), a, b);
  t.push(b"+");
  t.extend(using(sym::fork(USES), x, y));
  decide(params, &t, cx());
}

#[no_mangle]
pub extern "C" fn three() {
  let (n, m, o) = (sym::fork(USES), sym::fork(USES), sym::fork(USES));
  let (a, b) = pair();
  let mut t = using(n, a, b);
  t.push(b"+");
  t.extend(using(m, B[0], B[1]));
  t.push(b"+");
  t.extend(using(o, B[1], B[2]));
  let types = [[None; 3], [Some("c_int"), None, Some("* mut c_long")]][sym::fork(2)];
  decide(&NAMES, &t, Cx { types, g: true });
}

/// Declarations and statements.
#[no_mangle]
pub extern "C" fn statements() {
  let (a, b) = pair();
  let mut t: Vec<&[u8]> = vec![b"{"];
  let d: Vec<&[u8]> = match sym::fork(7) {
    0 => vec![a, b, b"=", b"1", b";"],
    1 => vec![b"int", a, b"=", b, b";"],
    2 => vec![b"static", b"int", a, b"=", b"1", b";"],
    3 => vec![a, b"*", b, b"=", b"1", b";"],
    4 => vec![b"struct", a, b, b"=", b"1", b";"],
    5 => vec![b"int", a, b"##", b, b"=", b"1", b";"],
    _ => vec![a, b"q", b"=", b, b";"],
  };
  t.extend(d);
  t.extend(using(sym::fork(USES), B[0], B[1]));
  t.extend([b";", b"}"] as [&[u8]; 2]);
  decide(&NAMES[..2], &t, cx());
}

/// Names of macros and arguments.
#[no_mangle]
pub extern "C" fn named() {
  const WORDS: [&str; 13] = ["F", "type", "_", "__", "match", "async", "union", "F1", "r", "dyn", "box", "a", "yield"];
  let w = WORDS[sym::fork(13)];
  let known = sym::fork(2) == 1;
  let cx = Cx { types: [Some("c_int").filter(|_| known); 3], g: false };
  let params = [&["x"] as &[&str], &[], &["type", "x"], &["z", "type"]][sym::fork(4)];
  let mut set = MacroSet::new();
  if sym::verbose() {
    sym::note(&format!("{w} {params:?} {known}"));
  }
  set.define_fn_macro(w, params.iter().copied(), ["x", "+", "1"]);
  let Ok((args, toks)) = set.expand_fn_macro(w) else { return sym::check(false, 1) };
  let Ok(mut m) = FnMacro::parse(w, &args, &toks) else { return sym::check(false, 1) };
  sym::check(m.name() == w && m.args() == params, 7);
  let Ok(ts) = m.generate(cx) else { return sym::check(w == "_", 1) };
  let t = ts.to_string();
  if sym::verbose() {
    sym::note(&t);
  }
  const RAW: [&str; 6] = ["type", "match", "async", "dyn", "box", "yield"];
  let name = if RAW.contains(&w) { format!("r#{w}") } else { w.to_owned() };
  if t.contains("macro_rules") {
    sym::check(t.contains(&format!("macro_rules ! __cmacro__{w} {{")), 7);
    sym::check(t.ends_with(&format!("pub use __cmacro__{w} as {name} ;")), 7);
    sym::check(!known || !params.contains(&"x") , 6);
    sym::cover(2);
  } else {
    let list: Vec<_> = params.iter().map(|p| if *p == "type" { "mut r#type : c_int".to_owned() } else { format!("mut {p} : c_int") }).collect();
    sym::check(known && t.contains(&format!("fn {name} ({}) -> c_int {{ x + 1 }}", list.join(" , "))), 7);
    sym::cover(1);
  }
}

entries![two, three, statements, named];
