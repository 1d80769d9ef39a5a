//! Stringification (`#`) and token pasting (`##`).
#![no_main]
use cmacro_harness::pp::{set, tok, toks, Both};
use cmacro_harness::{entries, sym};

const WORDS: [&[u8]; 24] = [
  b"##", b"#", b"x", b"1", b"p", b"q", b"A", b"+", b"F", b"u8", b"\"s\"", b"1.5", b"'c'", b"L", b".", b"=", b"<", b"12u", b"e3", b"(", b"_",
  b"\"\\n\"", b"-", b">",
];

fn word(i: usize) -> &'static [u8] {
  WORDS[i]
}

/// `a ## b` of any two tokens in the replacement list of an object-like macro.
#[no_mangle]
pub extern "C" fn paste_object() {
  let mut both = Both::default();
  both.obj(b"A", &[b"7"]);
  both.obj(b"x1", &[b"8"]);
  both.obj(b"O", &[word(2 + sym::fork(22)), b"##", word(2 + sym::fork(22))]);
  both.name(b"O", 1);
}

/// Pasting of arbitrary characters to names, numbers and prefixes.
#[no_mangle]
pub extern "C" fn paste_chars() {
  let mut both = Both::default();
  const S: [u64; 2] = set(b"ABFLUeghlpuxzz_01248+-*/%&|^<>=!.");
  let (mut a, mut b) = ([0u8; 2], [0u8; 2]);
  both.obj(b"A", &[b"7"]);
  both.obj(b"FA", &[b"9"]);
  let (na, nb) = (1 + sym::fork(2), 1 + sym::fork(2));
  let one = |b: &mut [u8]| {
    tok(&mut b[0], S);
    if b.len() > 1 {
      const C: [u64; 2] = set(b"ABFLUeghlpuxzz_01248");
      tok(&mut b[0], C);
      tok(&mut b[1], C);
    }
  };
  one(&mut a[..na]);
  one(&mut b[..nb]);
  // a token of two characters is a name or a number
  let (a, b) = (&a[..na], &b[..nb]);
  both.func(b"P", &[b"p", b"q"], &[b"p", b"##", b"q"]);
  both.obj(b"O", &[a, b"##", b]);
  both.name(b"O", 1);
  if sym::fork(2) == 1 {
    both.expand(&[b"P", b"(", a, b",", b, b")"], 1);
  }
}

/// Any punctuator of one or two characters pasted with any other.
#[no_mangle]
pub extern "C" fn paste_punct() {
  const S: [u64; 2] = set(b"[]{}.&*+-~!/%<>=^|?:;");
  const TWO: [&[u8]; 21] = [
    b"->", b"++", b"--", b"<<", b">>", b"<=", b">=", b"==", b"!=", b"&&", b"||", b"*=", b"/=", b"%=", b"+=", b"-=", b"&=", b"^=",
    b"|=", b"<:", b"<%",
  ];
  let (mut a, mut b) = ([0u8; 1], [0u8; 1]);
  tok(&mut a[0], S);
  tok(&mut b[0], S);
  let mut both = Both::default();
  let l = sym::fork(22);
  let r = sym::fork(22);
  let l = if l == 21 { &a[..] } else { TWO[l] };
  let r = if r == 21 { &b[..] } else { TWO[r] };
  both.obj(b"O", &[l, b"##", r]);
  both.name(b"O", 1);
}

/// Arbitrary replacement lists with operators, called with every kind of argument.
#[no_mangle]
pub extern "C" fn ops_call() {
  let mut both = Both::default();
  both.obj(b"A", &[b"7"]);
  both.obj(b"xx", &[b"8"]);
  both.func(b"F", &[b"p"], &[b"p", b"p"]);
  let n = 1 + sym::fork(5);
  let mut body: Vec<&[u8]> = vec![];
  let mut nops = 0;
  for i in 0..n {
    let w = sym::fork(if i == 0 || nops >= 2 { 5 } else { 7 });
    nops += (w >= 5) as usize;
    body.push([&b"#"[..], b"p", b"q", b"x", b"A", b"##", b"##"][w]);
    if w == 6 {
      body.push(b"p");
    }
  }
  both.func(b"G", &[b"p", b"q"], &body);
  let args: [&[&[u8]]; 6] = [&[], &[b"x"], &[b"A"], &[b"1"], &[b"x", b"A"], &[b"#"]];
  let mut input: Vec<&[u8]> = vec![b"G", b"("];
  input.extend_from_slice(args[sym::fork(6)]);
  input.push(b",");
  input.extend_from_slice(args[1 + sym::fork(3)]);
  input.push(b")");
  both.expand(&input, 1);
}

/// Stringification of arbitrary argument text, directly and through another macro.
#[no_mangle]
pub extern "C" fn string_arg() {
  let mut both = Both::default();
  both.obj(b"A", &[&b"7"[..], b"+"][..sym::fork(3)]);
  both.func(b"S", &[b"p"], &[b"#", b"p"]);
  both.func(b"X", &[b"p"], &[b"S", b"(", b"p", b")"]);
  both.func(b"V", &[b"..."], &[b"#", b"__VA_ARGS__"]);
  both.func(b"W", &[b"p", b"..."], &[b"#", b"__VA_ARGS__", b"p"]);
  let mut t = [0u8; 4];
  let n = sym::fork(5);
  let t = toks(&mut t, n, set(b"Ab1+,()"));
  let mut input: Vec<&[u8]> = vec![[&b"S"[..], b"X", b"V", b"W"][sym::fork(4)], b"("];
  input.extend_from_slice(&t);
  input.push(b")");
  both.expand(&input, 1);
}

/// Stringification of literals keeps quotes and escapes.
#[no_mangle]
pub extern "C" fn string_lit() {
  let mut both = Both::default();
  both.func(b"S", &[b"p"], &[b"#", b"p"]);
  let lits: [&[u8]; 10] =
    [b"\"a\"", b"\"\\n\"", b"'\\''", b"u8\"x\"", b"\"\\\"\"", b"L'x'", b"0x1F", b"1.50e+3f", b"\"\"", b"'\"'"];
  let mut input: Vec<&[u8]> = vec![b"S", b"("];
  input.push(lits[sym::fork(10)]);
  if sym::fork(2) == 1 {
    input.push(b"+");
    input.push(lits[sym::fork(10)]);
  }
  input.push(b")");
  both.expand(&input, 1);
}

/// Operators whose operands are parameters stay for the generated code; all others are applied.
#[no_mangle]
pub extern "C" fn ops_definition() {
  let mut both = Both::default();
  both.obj(b"A", &[b"7"]);
  both.func(b"S", &[b"p"], &[b"#", b"p"]);
  both.func(b"P", &[b"p", b"q"], &[b"p", b"##", b"q"]);
  let mut body: Vec<&[u8]> = vec![];
  match sym::fork(4) {
    0 => {
      body.extend_from_slice(&[b"S", b"("]);
      let mut t = 0;
      while t < 3 {
        body.push([&b"a"[..], b"b", b"x", b"A"][sym::fork(4)]);
        t += 1;
      }
      body.push(b")");
    },
    1 => {
      body.extend_from_slice(&[b"P", b"("]);
      body.push([&b"a"[..], b"x", b"A"][sym::fork(3)]);
      body.push(b",");
      body.push([&b"b"[..], b"x", b"A"][sym::fork(3)]);
      body.push(b")");
    },
    2 => {
      for i in 0..5 {
        body.push([&b"a"[..], b"x", b"A", b"##"][if i % 2 == 0 { sym::fork(3) } else { 3 * sym::fork(2) }]);
      }
    },
    _ => {
      body.push(b"#");
      body.push([&b"a"[..], b"b"][sym::fork(2)]);
      body.push([&b"a"[..], b"x", b"A"][sym::fork(3)]);
    },
  }
  both.func(b"D", &[b"a", b"b"], &body);
  both.name(b"D", 1);
}

entries![paste_object, paste_chars, paste_punct, ops_call, string_arg, string_lit, ops_definition];
