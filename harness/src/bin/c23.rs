//! Inline assembly keeps its text, its operands and its clobbers.
#![no_main]
use cmacro::{CodegenContext, FnMacro, MacroSet};
use cmacro_harness::pp::text;
use cmacro_harness::refs::rexpr::{self, show, T};
use cmacro_harness::{entries, sym};

/// One character of a template, or an operand.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Item {
  Char(u8),
  Op(Bound),
}

/// What a register is bound to: the value it starts with, and the place it is stored to.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Bound {
  from: Option<Vec<u8>>,
  to: Option<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Asm {
  global: bool,
  lines: Vec<Vec<Item>>,
  operands: Vec<Bound>,
  clobbers: Vec<Vec<u8>>,
  memory: bool,
  flags: bool,
  att: bool,
}

/// The parts of an assembly statement of C.
struct Source<'a> {
  extended: bool,
  template: &'a [u8],
  outputs: Vec<(&'a [u8], &'a [u8])>,
  inputs: Vec<(&'a [u8], &'a [u8])>,
  clobbers: Vec<&'a [u8]>,
}

fn trim(line: &[Item]) -> Vec<Item> {
  let space = |i: &Item| matches!(i, Item::Char(b' ' | b'\t'));
  let start = line.iter().position(|i| !space(i)).unwrap_or(line.len());
  let end = line.iter().rposition(|i| !space(i)).map_or(start, |i| i + 1);
  line[start..end].to_vec()
}

/// The meaning of a statement; `None` if it uses what is not supported.
fn meaning(s: &Source) -> Option<Asm> {
  let mut locations: Vec<Bound> = vec![];
  let mut operands: Vec<usize> = vec![];
  for (constraint, place) in &s.outputs {
    operands.push(locations.len());
    locations.push(Bound { from: if constraint[0] == b'+' { Some(place.to_vec()) } else { None }, to: Some(place.to_vec()) });
  }
  for (constraint, value) in &s.inputs {
    if constraint[0].is_ascii_digit() {
      let n = (constraint[0] - b'0') as usize;
      if n >= s.outputs.len() || locations[n].from.is_some() {
        return None;
      }
      locations[n].from = Some(value.to_vec());
      operands.push(n);
    } else {
      operands.push(locations.len());
      locations.push(Bound { from: Some(value.to_vec()), to: None });
    }
  }

  let mut items = vec![];
  let t = s.template;
  let mut att = false;
  let mut i = 0;
  while i < t.len() {
    let c = t[i];
    i += 1;
    if c == b'%' && s.extended {
      let c = *t.get(i)?;
      i += 1;
      if c == b'%' {
        items.push(Item::Char(b'%'));
        att = true;
      } else if c.is_ascii_digit() {
        let mut n = (c - b'0') as usize;
        while i < t.len() && t[i].is_ascii_digit() {
          n = n * 10 + (t[i] - b'0') as usize;
          i += 1;
        }
        // no C
        sym::assume(n < operands.len());
        if items.last() == Some(&Item::Char(b'(')) {
          att = true;
        }
        items.push(Item::Op(locations[operands[n]].clone()));
      } else {
        return None;
      }
    } else {
      att |= c == b'$' || c == b'%';
      items.push(Item::Char(c));
    }
  }

  let lines: Vec<Vec<Item>> = items.split(|i| *i == Item::Char(b'\n')).map(|l| trim(l)).collect();
  let starts = |l: &[Item], s: &[u8]| l.len() >= s.len() && l.iter().zip(s).all(|(i, c)| *i == Item::Char(*c));
  let global = lines.iter().any(|l| starts(l, b".globl") || starts(l, b".global") || starts(l, b".section"));
  let mut clobbers: Vec<Vec<u8>> = s.clobbers.iter().filter(|c| **c != b"memory" && **c != b"cc").map(|c| c.to_vec()).collect();
  clobbers.sort();
  clobbers.dedup();
  Some(Asm {
    global,
    lines,
    operands: locations,
    clobbers,
    memory: global || !s.extended || s.clobbers.iter().any(|c| *c == b"memory"),
    flags: global || !s.extended || s.clobbers.iter().any(|c| *c == b"cc"),
    att,
  })
}

fn string(lit: &[u8]) -> Option<Vec<u8>> {
  if lit.len() < 2 || lit[0] != b'"' {
    return None;
  }
  let (mut out, mut i) = (vec![], 1);
  while i < lit.len() - 1 {
    if lit[i] == b'\\' {
      i += 1;
      out.push(match lit[i] {
        b't' => b'\t',
        b'\\' | b'"' | b'\'' => lit[i],
        _ => return None,
      });
    } else {
      out.push(lit[i]);
    }
    i += 1;
  }
  Some(out)
}

fn place(t: &[T]) -> Option<Vec<u8>> {
  match t {
    [T::Punct(d), T::Name(n)] if &d[..] == b"$" => Some(n.clone()),
    [T::Punct(s), T::Punct(d), T::Name(n)] if &s[..] == b"*" && &d[..] == b"$" => {
      let mut v = b"*".to_vec();
      v.extend_from_slice(n);
      Some(v)
    },
    [T::Name(n)] | [T::Lit(n)] => Some(n.clone()),
    _ => None,
  }
}

/// The meaning of a Rust `asm!`.
fn rust(t: &[T]) -> Option<Asm> {
  let (name, args) = match t {
    [T::Name(arch), T::Punct(colons), T::Name(name), T::Punct(bang), T::Group(b'(', args)]
    | [T::Name(arch), T::Punct(colons), T::Name(name), T::Punct(bang), T::Group(b'(', args), T::Punct(_)]
      if &arch[..] == b"arch" && &colons[..] == b"::" && &bang[..] == b"!" =>
    {
      (name, args)
    },
    _ => return None,
  };
  let global = match &name[..] {
    b"asm" => false,
    b"global_asm" => true,
    _ => return None,
  };
  let mut asm = Asm { global, lines: vec![], operands: vec![], clobbers: vec![], memory: true, flags: true, att: false };
  let mut templates = vec![];
  let mut args: Vec<&[T]> = args.split(|t| matches!(t, T::Punct(p) if &p[..] == b",")).collect();
  if args.last().map_or(false, |a| a.is_empty()) {
    args.pop();
  }
  for arg in args {
    match arg {
      [T::Lit(l)] if asm.operands.is_empty() => templates.push(string(l)?),
      [T::Name(dir), T::Group(b'(', reg), rest @ ..] => match (&dir[..], &reg[..]) {
        (b"options", _) => {
          for o in reg.split(|t| matches!(t, T::Punct(p) if &p[..] == b",")) {
            match o {
              [T::Name(o)] => match &o[..] {
                b"nomem" => asm.memory = false,
                b"preserves_flags" => asm.flags = false,
                b"att_syntax" => asm.att = true,
                _ => return None,
              },
              _ => return None,
            }
          }
        },
        (b"clobber_abi", _) => (),
        (b"out", [T::Lit(r)]) => match rest {
          [T::Name(n)] if &n[..] == b"_" => asm.clobbers.push(string(r)?),
          _ => return None,
        },
        (b"out", [T::Name(r)]) if &r[..] == b"reg" => asm.operands.push(Bound { from: None, to: Some(place(rest)?) }),
        (b"in", [T::Name(r)]) if &r[..] == b"reg" => asm.operands.push(Bound { from: Some(place(rest)?), to: None }),
        (b"inout", [T::Name(r)]) if &r[..] == b"reg" => {
          let i = rest.iter().position(|t| matches!(t, T::Punct(p) if &p[..] == b"=>"));
          asm.operands.push(match i {
            Some(i) => Bound { from: Some(place(&rest[..i])?), to: Some(place(&rest[i + 1..])?) },
            None => Bound { from: Some(place(rest)?), to: Some(place(rest)?) },
          });
        },
        _ => return None,
      },
      _ => return None,
    }
  }
  for t in templates {
    let (mut line, mut i) = (vec![], 0);
    while i < t.len() {
      match (t[i], t.get(i + 1)) {
        (b'{', Some(b'{')) | (b'}', Some(b'}')) => {
          line.push(Item::Char(t[i]));
          i += 2;
        },
        (b'{', Some(_)) => {
          let end = i + t[i..].iter().position(|c| *c == b'}')?;
          let n: usize = text(&t[i + 1..end]).parse().ok()?;
          line.push(Item::Op(asm.operands.get(n)?.clone()));
          i = end + 1;
        },
        (b'{' | b'}', _) => return None,
        (c, _) => {
          line.push(Item::Char(c));
          i += 1;
        },
      }
    }
    asm.lines.push(trim(&line));
  }
  asm.clobbers.sort();
  Some(asm)
}

struct Known(bool);

impl CodegenContext for Known {
  fn macro_arg_ty(&self, _: &str, name: &str) -> Option<syn::Type> {
    Some(if self.0 && name == "x" { syn::parse_quote! { *mut u32 } } else { syn::parse_quote! { u32 } })
  }
}

fn quoted(s: &[u8]) -> Vec<u8> {
  let mut v = vec![b'"'];
  for c in s {
    match c {
      b'\n' => v.extend_from_slice(b"\\n"),
      b'\t' => v.extend_from_slice(b"\\t"),
      c => v.push(*c),
    }
  }
  v.push(b'"');
  v
}

fn run(s: Source, word: &[u8], known_types: bool) {
  let mut toks: Vec<Vec<u8>> = vec![b"__asm__".to_vec()];
  if !word.is_empty() {
    toks.push(word.to_vec());
  }
  toks.push(b"(".to_vec());
  toks.push(quoted(s.template));
  if s.extended {
    for (ops, more) in [(&s.outputs, !s.inputs.is_empty() || !s.clobbers.is_empty()), (&s.inputs, !s.clobbers.is_empty())] {
      if std::ptr::eq(ops, &s.outputs) || !ops.is_empty() || more {
        toks.push(b":".to_vec());
      }
      for (i, (c, e)) in ops.iter().enumerate() {
        if i > 0 {
          toks.push(b",".to_vec());
        }
        toks.push(quoted(c));
        toks.push(b"(".to_vec());
        if e[0] == b'*' {
          toks.push(b"*".to_vec());
          toks.push(e[1..].to_vec());
        } else {
          toks.push(e.to_vec());
        }
        toks.push(b")".to_vec());
      }
    }
    for (i, c) in s.clobbers.iter().enumerate() {
      toks.push(if i == 0 { b":".to_vec() } else { b",".to_vec() });
      toks.push(quoted(c));
    }
  }
  toks.push(b")".to_vec());
  if sym::fork(2) == 1 {
    toks.push(b";".to_vec());
  }
  if sym::verbose() {
    sym::note(&toks.iter().map(|t| text(t)).collect::<Vec<_>>().join(" "));
  }

  let pointer = s.outputs.iter().chain(&s.inputs).any(|(_, e)| e[0] == b'*');
  let want = meaning(&s);
  let mut set = MacroSet::new();
  let params = ["x", "y", "z"];
  set.define_fn_macro("F", params, toks.iter().map(|t| text(t)));
  let got = set.expand_fn_macro("F").ok().and_then(|(args, body)| {
    let mut m = FnMacro::parse("F", &args, &body).ok()?;
    if known_types { m.generate(Known(pointer)) } else { m.generate(()) }.ok()
  });
  match (got, want) {
    (None, None) => sym::cover(2),
    (Some(_), None) => sym::check(false, 1),
    (None, Some(_)) => sym::check(false, 2),
    (Some(ts), Some(want)) => {
      sym::cover(1);
      let t = rexpr::tokens(ts);
      if sym::verbose() {
        sym::note(&show(&t));
      }
      let (is_fn, code) = match rexpr::item(&t) {
        Some(rexpr::Item::Macro(t)) => (false, t),
        Some(rexpr::Item::Fn(t)) => (true, t),
        None => return sym::check(false, 3),
      };
      sym::check(!is_fn || (want.operands.iter().all(|o| o.to.as_ref().map_or(true, |p| p[0] == b'*')) && !want.global), 4);
      let Some(got) = rust(&if is_fn { as_macro(&code) } else { code }) else { return sym::check(false, 3) };
      if sym::verbose() {
        sym::note(&format!("got  {:?}", got));
        sym::note(&format!("want {:?}", want));
      }
      sym::check(got.operands == want.operands, 5);
      sym::check(got.lines == want.lines, 6);
      sym::check(got.clobbers == want.clobbers, 7);
      sym::check(got.global == want.global, 8);
      sym::check(got.global || (got.memory == want.memory && got.flags == want.flags), 9);
      sym::check(got.att == want.att, 10);
    },
  }
}

/// The parameters of a function look like those of a macro.
fn as_macro(t: &[T]) -> Vec<T> {
  let mut v: Vec<T> = vec![];
  for x in t {
    match x {
      T::Name(n) if matches!(&n[..], b"x" | b"y" | b"z") => v.extend([T::Punct(b"$".to_vec()), x.clone()]),
      T::Group(d, g) => v.push(T::Group(*d, as_macro(g))),
      T::Punct(p) if &p[..] == b";" && v.last() == Some(x) => (),
      x => v.push(x.clone()),
    }
  }
  v
}

fn template(b: &mut [u8]) {
  for x in b.iter_mut() {
    *x = sym::range(32, 125) as u8;
    sym::assume(*x != b'"' && *x != b'\\');
    if *x == b'@' {
      *x = b'\n';
    }
  }
}

/// Any text, with three operands.
#[no_mangle]
pub extern "C" fn any_text() {
  let mut b = [0u8; 2];
  let n = sym::fork(3);
  template(&mut b[..n]);
  let mut b = b[..n].to_vec();
  b.extend_from_slice([&b""[..], b"%0", b"%%2)"][sym::fork(3)]);
  with_operands(&b);
}

#[no_mangle]
pub extern "C" fn any_long_text() {
  let mut b = [0u8; 4];
  let n = 3 + sym::fork(2);
  template(&mut b[..n]);
  with_operands(&b[..n]);
}

fn with_operands(b: &[u8]) {
  let s = Source { extended: true, template: b, outputs: vec![(b"=r", b"x")], inputs: vec![(b"r", b"y"), (b"0", b"z")], clobbers: vec![] };
  run(s, b"", false);
}

/// Any text, without operands.
#[no_mangle]
pub extern "C" fn plain_text() {
  let mut b = [0u8; 3];
  let n = sym::fork(4);
  template(&mut b[..n]);
  let word: &[u8] = [&b""[..], b"volatile", b"__volatile__", b"inline"][sym::fork(4)];
  run(Source { extended: false, template: &b[..n], outputs: vec![], inputs: vec![], clobbers: vec![] }, word, false);
}

/// Any operands.
#[no_mangle]
pub extern "C" fn operands() {
  let mut b = *b"%?,%?";
  b[1] = sym::range(b'0' as usize, b'4' as usize) as u8;
  b[4] = sym::range(b'0' as usize, b'4' as usize) as u8;
  let outputs: Vec<(&[u8], &[u8])> =
    (0..sym::fork(3)).map(|i| ([&b"=r"[..], b"+r", b"=rm"][sym::fork(3)], [&[&b"x"[..], b"*x"][sym::fork(2)], &b"y"[..]][i])).collect();
  let inputs: Vec<(&[u8], &[u8])> =
    (0..sym::fork(4)).map(|i| ([&b"r"[..], b"0", b"1"][sym::fork(3)], [&b"z"[..], b"x", b"7"][i])).collect();
  let template: &[u8] = if outputs.len() + inputs.len() == 0 { b"nop" } else { &b };
  let known = sym::fork(2) == 1;
  run(Source { extended: true, template, outputs, inputs, clobbers: vec![] }, b"volatile", known);
}

/// Any clobbers.
#[no_mangle]
pub extern "C" fn clobbers() {
  const CLOBBER: [&[u8]; 4] = [b"memory", b"cc", b"r0", b"r1"];
  let clobbers: Vec<&[u8]> = (0..sym::fork(4)).map(|_| CLOBBER[sym::fork(4)]).collect();
  let outputs: Vec<(&[u8], &[u8])> = if sym::fork(2) == 1 { vec![(b"=r", b"x")] } else { vec![] };
  let inputs: Vec<(&[u8], &[u8])> = if sym::fork(2) == 1 { vec![(b"r", b"y")] } else { vec![] };
  run(Source { extended: true, template: b"nop", outputs, inputs, clobbers }, b"volatile", sym::fork(2) == 1);
}

/// Definitions of symbols.
#[no_mangle]
pub extern "C" fn symbols() {
  let mut b = *b"?.?lo??l f@?";
  b[0] = [b' ', b'\n', b'\t', b'a'][sym::fork(4)];
  b[2] = sym::range(b'f' as usize, b'h' as usize) as u8;
  b[5] = sym::range(b'a' as usize, b'c' as usize) as u8;
  b[6] = sym::range(b'`' as usize + 1, b'c' as usize) as u8;
  b[10] = b'\n';
  b[11] = sym::range(b'$' as usize, b'(' as usize) as u8;
  let section = sym::fork(2) == 1;
  let template: &[u8] = if section { b"nop\n.section foo" } else { &b };
  run(Source { extended: false, template, outputs: vec![], inputs: vec![], clobbers: vec![] }, b"", sym::fork(2) == 1);
}

entries![any_text, any_long_text, plain_text, operands, clobbers, symbols];
