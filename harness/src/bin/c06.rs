//! Classification of token texts.
#![no_main]
use cmacro::{Comment, ExpansionError, Identifier, IdentifierContinue, Lit, MacroSet, MacroToken, Punctuation};
use cmacro_harness::pp::text;
use cmacro_harness::{entries, sym};

/// The punctuators of C.
const PUNCT: [&str; 54] = [
  "[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%", "<<", ">>", "<", ">",
  "<=", ">=", "==", "!=", "^", "|", "&&", "||", "?", ":", ";", "...", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=",
  "&=", "^=", "|=", ",", "#", "##", "<:", ":>", "<%", "%>", "%:", "%:%:",
];

fn punctuator(mut s: &str) -> Option<&'static str> {
  // White space in front of a token which consists of a spliced line end only.
  while let Some(r) = s.strip_prefix("\\\n").or_else(|| s.strip_prefix("\\\r\n")) {
    s = r;
  }
  PUNCT.iter().copied().find(|p| *p == s)
}

fn is_comment(b: &[u8]) -> bool {
  let n = b.len();
  if n < 2 || b[0] != b'/' {
    return false;
  }
  if b[1] == b'/' {
    return !b.contains(&b'\n');
  }
  if b[1] != b'*' || n < 4 || b[n - 2] != b'*' || b[n - 1] != b'/' {
    return false;
  }
  !(4..n - 1).any(|i| b[i - 1] == b'*' && b[i] == b'/' && i < n - 1) && !(n > 4 && b[2] == b'*' && b[3] == b'/')
}

fn word(s: &str, start: bool) -> bool {
  !s.is_empty()
    && s.chars().enumerate().all(|(i, c)| {
      if (c as u32) < 128 {
        c == '_' || c.is_ascii_alphabetic() || (c.is_ascii_digit() && (i > 0 || !start))
      } else if i == 0 && start {
        unicode_ident::is_xid_start(c)
      } else {
        unicode_ident::is_xid_continue(c)
      }
    })
}

fn check(s: &str) {
  let m = MacroSet::new();
  let (input1, input3) = ([s], ["x", s, "y"]);
  let one = m.expand(&input1);
  if sym::verbose() {
    sym::note(&format!("{s:?} -> {one:?}"));
  }
  if punctuator(s) == Some("##") {
    return;
  }
  if s.contains('\\') && Identifier::try_from(s).is_ok() {
    // Universal character names are the subject of C05.
    sym::check(matches!(&one, Ok(v) if v.len() == 1 && matches!(&v[0], MacroToken::Identifier(i) if *i == Identifier::try_from(s).unwrap())), 1);
    return;
  }
  let lit = Lit::try_from(s);
  match one {
    Ok(v) if is_comment(s.as_bytes()) => {
      sym::cover(1);
      sym::check(v.is_empty(), 5);
      sym::check(Comment::try_from(s).is_ok(), 5);
    },
    Ok(v) => {
      sym::check(v.len() == 1, 6);
      match &v[0] {
        MacroToken::Identifier(i) => {
          sym::cover(2);
          sym::check(word(s, true) && i.as_str() == s, 1);
        },
        MacroToken::Lit(l) => {
          sym::cover(3);
          sym::check(!word(s, true) && matches!(&lit, Ok(w) if w == l), 2);
        },
        MacroToken::IdentifierContinue(c) => {
          sym::cover(4);
          sym::check(!word(s, true) && lit.is_err(), 3);
          sym::check(s.contains('\\') || (word(s, false) && c.as_str() == s), 3);
        },
        MacroToken::Punctuation(p) => {
          sym::cover(5);
          let w = punctuator(s);
          sym::check(w.is_some() && *p == w.unwrap(), 4);
          sym::check(matches!(Punctuation::try_from(s), Ok(q) if q == *p), 4);
        },
        _ => sym::check(false, 6),
      }
    },
    Err(e) => {
      sym::cover(6);
      sym::check(!word(s, true) && lit.is_err() && !word(s, false) && punctuator(s).is_none() && !is_comment(s.as_bytes()), 7);
      sym::check(IdentifierContinue::try_from(s).is_err(), 7);
      sym::check(e == ExpansionError::InvalidToken(s.to_owned()), 8);
    },
  }
  // The neighbours make no difference.
  let three = m.expand(&input3);
  let alone = m.expand(&input1);
  match (three, alone) {
    (Ok(t), Ok(a)) => sym::check(t.len() == 2 + a.len() && t[1..t.len() - 1] == a[..], 9),
    (Err(t), Err(a)) => sym::check(t == a, 9),
    _ => sym::check(false, 9),
  }
}

/// Every ASCII text.
#[no_mangle]
pub extern "C" fn text_free() {
  let mut b = [0u8; 5];
  let n = sym::fork(6);
  sym::ascii(&mut b[..n]);
  check(text(&b[..n]));
}

/// Every ASCII text of six characters.
#[no_mangle]
pub extern "C" fn text_deep() {
  let mut b = [0u8; 6];
  sym::ascii(&mut b);
  check(text(&b));
}

/// Texts with characters outside ASCII.
#[no_mangle]
pub extern "C" fn text_unicode() {
  const W: [&str; 12] = ["é", "·", "猫", "🍌", "\u{a0}", "“", "٣", "\u{200d}", "ª", "２", "\u{0}", "\u{7f}"];
  let mut t = Vec::with_capacity(32);
  let (mut a, mut c) = ([0u8; 1], [0u8; 2]);
  let (na, nc) = (sym::fork(2), sym::fork(3));
  sym::ascii(&mut a[..na]);
  sym::ascii(&mut c[..nc]);
  t.extend_from_slice(&a[..na]);
  t.extend_from_slice(W[sym::fork(12)].as_bytes());
  t.extend_from_slice(&c[..nc]);
  check(text(&t));
}

/// Punctuators and comments with a character more or less, and behind a line splice.
#[no_mangle]
pub extern "C" fn text_punct() {
  let mut t = Vec::with_capacity(32);
  t.extend_from_slice(["", "\\\n", "\\\r\n", "\\\n\\\n", "\\\r", "\n", " "][sym::fork(7)].as_bytes());
  const W: [&str; 6] = ["", "/*", "//", "/* x", "%:%", ">>"];
  t.extend_from_slice(W[sym::fork(6)].as_bytes());
  let mut a = [0u8; 3];
  let n = sym::fork(4);
  sym::ascii(&mut a[..n]);
  t.extend_from_slice(&a[..n]);
  check(text(&t));
}

entries![text_deep, text_free, text_unicode, text_punct];
