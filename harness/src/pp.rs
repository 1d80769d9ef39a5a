//! The same definitions for the macro set under test and for the reference preprocessor.
use crate::refs::cpp::{is_comment, Bad, Def, Kind, Set, Tok};
use crate::sym;
use cmacro::{ExpansionError, Identifier, IdentifierContinue, Lit, LitString, MacroArg, MacroSet, MacroToken};

pub fn text(b: &[u8]) -> &str {
  unsafe { std::str::from_utf8_unchecked(b) }
}

#[derive(Default)]
pub struct Both {
  pub real: MacroSet,
  pub model: Set,
}

fn model_toks(body: &[&[u8]]) -> Vec<Tok> {
  body.iter().filter(|t| !is_comment(t)).map(|t| Tok::new(t)).collect()
}

impl Both {
  pub fn obj(&mut self, name: &[u8], body: &[&[u8]]) {
    if sym::verbose() {
      sym::note(&format!("#define {} {}", text(name), body.iter().map(|t| text(t)).collect::<Vec<_>>().join(" ")));
    }
    self.real.define_var_macro(text(name), body.iter().map(|t| text(t)));
    self.model.defs.push(Def { name: name.to_vec(), params: None, variadic: false, body: model_toks(body) });
  }
  pub fn func(&mut self, name: &[u8], params: &[&[u8]], body: &[&[u8]]) {
    if sym::verbose() {
      sym::note(&format!(
        "#define {}({}) {}",
        text(name),
        params.iter().map(|t| text(t)).collect::<Vec<_>>().join(" "),
        body.iter().map(|t| text(t)).collect::<Vec<_>>().join(" ")
      ));
    }
    self.real.define_fn_macro(text(name), params.iter().map(|t| text(t)), body.iter().map(|t| text(t)));
    let ps: Vec<&&[u8]> = params.iter().filter(|t| !is_comment(t)).collect();
    let variadic = ps.last().map_or(false, |p| ***p == *b"...");
    let n = ps.len() - variadic as usize;
    self.model.defs.push(Def {
      name: name.to_vec(),
      params: Some(ps[..n].iter().map(|p| p.to_vec()).collect()),
      variadic,
      body: model_toks(body),
    });
  }

  /// Expansion of a token sequence agrees with the reference.
  pub fn expand(&self, input: &[&[u8]], id: u32) {
    let strs: Vec<&str> = input.iter().map(|t| text(t)).collect();
    if sym::verbose() {
      sym::note(&format!("expand {}", strs.join(" ")));
    }
    let got = self.real.expand(&strs);
    let want = self.model.expand(model_toks(input));
    sym::known(self.model.late.get() as u32);
    compare(got, want, id);
  }

  /// Expansion of a definition agrees with the reference.
  pub fn name(&self, name: &[u8], id: u32) {
    let Some(m) = self.model.find(name) else { return };
    let want = self.model.expand_name(name).unwrap();
    if sym::verbose() {
      sym::note(&format!("expand definition of {}", text(name)));
    }
    sym::known(self.model.late.get() as u32);
    if self.model.defs[m].params.is_some() {
      compare(self.real.expand_fn_macro(text(name)).map(|(_, b)| b), want, id);
    } else {
      compare(self.real.expand_var_macro(text(name)), want, id);
    }
  }
}

fn no_spaces(b: &[u8]) -> Vec<u8> {
  b.iter().copied().filter(|c| *c != b' ').collect()
}

/// Whether a token of the output is the one which the reference produces.
fn same(got: &MacroToken, want: &Tok) -> bool {
  match want.kind {
    Kind::Param(i) => matches!(got, MacroToken::Arg(a) if *a == MacroArg::new(i)),
    Kind::Id => matches!(got, MacroToken::Identifier(i) if i.as_str().as_bytes() == &want.text[..]),
    Kind::Punct => matches!(got, MacroToken::Punctuation(p) if *p == text(&want.text)),
    Kind::Lit if want.made => match got {
      MacroToken::Lit(Lit::String(LitString::Ordinary(b))) => no_spaces(b) == no_spaces(&want.text),
      _ => false,
    },
    Kind::Lit => match Lit::try_from(text(&want.text)) {
      Ok(l) => matches!(got, MacroToken::Lit(g) if *g == l),
      Err(_) => match IdentifierContinue::try_from(text(&want.text)) {
        Ok(c) => matches!(got, MacroToken::IdentifierContinue(g) if *g == c),
        Err(_) => false,
      },
    },
  }
}

/// Tokens which denote nothing make the whole expansion fail.
fn valid(t: &Tok) -> bool {
  match t.kind {
    Kind::Lit if !t.made => {
      Lit::try_from(text(&t.text)).is_ok() || IdentifierContinue::try_from(text(&t.text)).is_ok()
    },
    Kind::Id => Identifier::try_from(text(&t.text)).is_ok(),
    _ => true,
  }
}

pub fn compare(got: Result<Vec<MacroToken<'_>>, ExpansionError>, want: Result<Vec<Tok>, Bad>, id: u32) {
  if sym::verbose() {
    sym::note(&format!("got  {got:?}"));
    sym::note(&match &want {
      Ok(v) => format!("want {}", v.iter().map(|t| format!("{}{}", if t.made { "#" } else { "" }, text(&t.text))).collect::<Vec<_>>().join(" ")),
      Err(e) => format!("want {e:?}"),
    });
  }
  match want {
    Ok(w) => {
      if !w.iter().all(valid) {
        sym::cover(1);
        sym::check(got.is_err(), id + 1);
        return;
      }
      sym::cover(2);
      let Ok(g) = got else {
        sym::check(false, id + 2);
        return;
      };
      let g: Vec<_> = g.iter().filter(|t| !matches!(t, MacroToken::Comment(_))).collect();
      sym::obs(g.len() as u64);
      sym::check(g.len() == w.len(), id);
      for (g, w) in g.iter().zip(w.iter()) {
        sym::check(same(g, w), id);
      }
    },
    Err(Bad::Open) => sym::cover(3),
    Err(b) => {
      sym::cover(4);
      let Err(e) = got else {
        sym::check(false, id + 1);
        return;
      };
      if let (Bad::Arity(required, given), ExpansionError::FnMacroArgumentError { required: r, given: g, .. }) = (b, &e) {
        sym::check(required == *r && (given == *g || given == 0), id + 3);
      }
      if let Bad::Arity(..) = b {
        sym::check(matches!(e, ExpansionError::FnMacroArgumentError { .. }), id + 3);
      }
    },
  }
}

/// Membership mask of a set of ASCII characters.
pub const fn set(s: &[u8]) -> [u64; 2] {
  let mut r = [0; 2];
  let mut i = 0;
  while i < s.len() {
    r[(s[i] >> 6) as usize] |= 1 << (s[i] & 63);
    i += 1;
  }
  r
}

/// An arbitrary one-character token of a set.
#[inline(always)]
pub fn tok(b: &mut u8, set: [u64; 2]) {
  *b = sym::range(0, 127) as u8;
  let lo = (set[0] >> (*b & 63)) & (*b < 64) as u64;
  let hi = (set[1] >> (*b & 63)) & (*b >= 64) as u64;
  sym::assume((lo | hi) & 1 != 0);
}

pub fn toks<'a>(b: &'a mut [u8], n: usize, set: [u64; 2]) -> Vec<&'a [u8]> {
  for x in b[..n].iter_mut() {
    tok(x, set);
  }
  b[..n].chunks(1).collect()
}
