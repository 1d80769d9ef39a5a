//! Parser for textual LLVM IR (as printed by the pinned rustc) into a flat register code.
//!
//! Every SSA value is flattened into scalars (struct/array members get consecutive slots);
//! vectors are kept packed in one scalar of at most 128 bits.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
  Void,
  Int(u32),
  F32,
  F64,
  Ptr,
  Arr(u64, Box<Ty>),
  Struct(Vec<Ty>, bool),
  Vec(u32, Box<Ty>),
  Other,
}

impl Ty {
  pub fn bits(&self) -> u32 {
    match self {
      Ty::Int(n) => *n,
      Ty::F32 => 32,
      Ty::F64 | Ty::Ptr => 64,
      Ty::Vec(n, t) => n * t.bits(),
      _ => 0,
    }
  }
  pub fn align(&self) -> u64 {
    match self {
      Ty::Int(n) => match *n {
        0..=8 => 1,
        9..=16 => 2,
        17..=32 => 4,
        33..=64 => 8,
        _ => 16,
      },
      Ty::F32 => 4,
      Ty::F64 | Ty::Ptr => 8,
      Ty::Arr(_, t) => t.align(),
      Ty::Struct(f, packed) => {
        if *packed {
          1
        } else {
          f.iter().map(|t| t.align()).max().unwrap_or(1)
        }
      },
      Ty::Vec(..) => (self.size()).next_power_of_two(),
      _ => 1,
    }
  }
  /// Allocation size.
  pub fn size(&self) -> u64 {
    match self {
      Ty::Int(n) => {
        let b = (*n as u64).div_ceil(8);
        let a = self.align();
        b.div_ceil(a) * a
      },
      Ty::F32 => 4,
      Ty::F64 | Ty::Ptr => 8,
      Ty::Arr(n, t) => n * t.size(),
      Ty::Struct(f, packed) => {
        let mut o = 0u64;
        for t in f {
          if !*packed {
            let a = t.align();
            o = o.div_ceil(a) * a;
          }
          o += t.size();
        }
        let a = self.align();
        o.div_ceil(a) * a
      },
      Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
      _ => 0,
    }
  }
  pub fn field_offset(&self, i: usize) -> u64 {
    match self {
      Ty::Struct(f, packed) => {
        let mut o = 0u64;
        for (j, t) in f.iter().enumerate() {
          if !*packed {
            let a = t.align();
            o = o.div_ceil(a) * a;
          }
          if j == i {
            return o;
          }
          o += t.size();
        }
        o
      },
      Ty::Arr(_, t) => t.size() * i as u64,
      Ty::Vec(_, t) => t.size() * i as u64,
      _ => 0,
    }
  }
  pub fn field(&self, i: usize) -> &Ty {
    match self {
      Ty::Struct(f, _) => &f[i],
      Ty::Arr(_, t) | Ty::Vec(_, t) => t,
      _ => self,
    }
  }
  /// Flattened scalars: (byte offset, scalar type).
  pub fn flatten(&self) -> Vec<(u64, Ty)> {
    let mut v = vec![];
    self.flat_into(0, &mut v);
    v
  }
  fn flat_into(&self, base: u64, v: &mut Vec<(u64, Ty)>) {
    match self {
      Ty::Void => {},
      Ty::Struct(f, _) => {
        for i in 0..f.len() {
          f[i].flat_into(base + self.field_offset(i), v)
        }
      },
      Ty::Arr(n, t) => {
        for i in 0..*n {
          t.flat_into(base + i * t.size(), v)
        }
      },
      t => v.push((base, t.clone())),
    }
  }
  pub fn nflat(&self) -> usize {
    self.flatten().len()
  }
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
  R(u32),
  C(u128),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
  Add,
  Sub,
  Mul,
  UDiv,
  SDiv,
  URem,
  SRem,
  And,
  Or,
  Xor,
  Shl,
  LShr,
  AShr,
  FAdd,
  FSub,
  FMul,
  FDiv,
  FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
  Eq,
  Ne,
  Ugt,
  Uge,
  Ult,
  Ule,
  Sgt,
  Sge,
  Slt,
  Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred {
  Oeq,
  Ogt,
  Oge,
  Olt,
  Ole,
  One,
  Ord,
  Ueq,
  Ugt,
  Uge,
  Ult,
  Ule,
  Une,
  Uno,
  True,
  False,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
  Trunc,
  ZExt,
  SExt,
  Mov,
  FpTrunc,
  FpExt,
  FpToUi,
  FpToSi,
  UiToFp,
  SiToFp,
}

#[derive(Clone, Debug)]
pub struct Edge {
  pub block: u32,
  pub moves: Box<[(u32, Opd)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
  Fn(u32),
  Ind(Opd),
}

#[derive(Clone, Debug)]
pub struct CallInst {
  pub dst: u32,
  pub nret: u32,
  pub callee: Callee,
  pub args: Box<[Opd]>,
  pub normal: Option<Edge>,
}

#[derive(Clone, Debug)]
pub enum Inst {
  Bin { op: BinOp, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
  ICmp { p: Pred, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
  FCmp { p: FPred, w: u32, dst: u32, a: Opd, b: Opd },
  FNeg { w: u32, dst: u32, a: Opd },
  Select { w: u32, dst: u32, c: Opd, a: Opd, b: Opd },
  VSelect { w: u32, lanes: u32, dst: u32, c: Opd, a: Opd, b: Opd },
  Cast { op: CastOp, from: u32, to: u32, lanes: u32, dst: u32, a: Opd },
  Gep { dst: u32, base: Opd, off: i64, idx: Box<[(Opd, u32, i64)]> },
  Load { addr: Opd, dst: u32, parts: Box<[(u32, u32)]> },
  Store { addr: Opd, parts: Box<[(u32, u32, Opd)]> },
  Alloca { dst: u32, size: u64, align: u64, n: Opd },
  Moves(Box<[(u32, Opd)]>),
  InsElem { w: u32, lanes: u32, dst: u32, v: Opd, e: Opd, i: Opd },
  ExtElem { w: u32, dst: u32, v: Opd, i: Opd },
  Shuffle { w: u32, n1: u32, dst: u32, a: Opd, b: Opd, mask: Box<[i32]> },
  AtomicRmw { op: String, w: u32, dst: u32, addr: Opd, v: Opd },
  CmpXchg { w: u32, dst: u32, addr: Opd, cmp: Opd, new: Opd },
  Call(Box<CallInst>),
  Ret(Box<[Opd]>),
  Br(Edge),
  CondBr { c: Opd, t: Edge, f: Edge },
  Switch { w: u32, v: Opd, default: Edge, cases: Box<[(u128, Edge)]>, map: HashMap<u128, u32> },
  Unreachable,
  Unsupported(String),
  Nop,
}

#[derive(Debug)]
pub struct Func {
  pub id: u32,
  pub name: String,
  pub params: Vec<u32>, // slots
  pub nslots: u32,
  pub insts: Vec<Inst>,
  pub blocks: Vec<u32>, // start pc
}

/// How a function without usable body (or with an intercepted one) is executed.
pub struct FnDecl {
  pub name: String,
  pub body: Option<(usize, usize)>, // byte range in text: from "define" to closing "}"
  pub ret: Option<Ty>,
}

pub struct Module {
  pub text: Vec<u8>,
  pub types: HashMap<String, Ty>,
  pub fns: Vec<FnDecl>,
  pub fn_ids: HashMap<String, u32>,
  pub globals: HashMap<String, u64>,
  pub init: Vec<(u64, Vec<u8>)>,
  pub global_end: u64,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GLOBAL_BASE: u64 = 0x1_0000;

pub fn fn_addr(id: u32) -> u64 {
  FN_BASE + (id as u64) * 16
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
  W(&'a str),
  Local(&'a str),
  Global(&'a str),
  Num(&'a str),
  Str(&'a str),
  P(char),
  Eof,
}

struct Lex<'a> {
  s: &'a str,
  i: usize,
}

fn is_word(c: u8) -> bool {
  c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
  fn new(s: &'a str) -> Self {
    Lex { s, i: 0 }
  }
  fn ws(&mut self) {
    let b = self.s.as_bytes();
    while self.i < b.len() {
      if b[self.i] == b' ' || b[self.i] == b'\t' || b[self.i] == b'\n' {
        self.i += 1
      } else if b[self.i] == b';' {
        while self.i < b.len() && b[self.i] != b'\n' {
          self.i += 1
        }
      } else {
        break;
      }
    }
  }
  fn name(&mut self) -> &'a str {
    let b = self.s.as_bytes();
    if self.i < b.len() && b[self.i] == b'"' {
      let st = self.i + 1;
      self.i = st;
      while b[self.i] != b'"' {
        self.i += 1
      }
      let r = &self.s[st..self.i];
      self.i += 1;
      r
    } else {
      let st = self.i;
      while self.i < b.len() && is_word(b[self.i]) {
        self.i += 1
      }
      &self.s[st..self.i]
    }
  }
  fn next(&mut self) -> Tok<'a> {
    self.ws();
    let b = self.s.as_bytes();
    if self.i >= b.len() {
      return Tok::Eof;
    }
    let c = b[self.i];
    match c {
      b'%' => {
        self.i += 1;
        Tok::Local(self.name())
      },
      b'@' => {
        self.i += 1;
        Tok::Global(self.name())
      },
      b'"' => {
        let r = self.name();
        Tok::Str(r)
      },
      b'c' if self.i + 1 < b.len() && b[self.i + 1] == b'"' => {
        self.i += 1;
        let r = self.name();
        Tok::Str(r)
      },
      _ if matches!(c, b'0'..=b'9' | b'-')
        || (c == b'+' && self.i + 1 < b.len() && (b[self.i + 1].is_ascii_alphanumeric())) =>
      {
        let st = self.i;
        self.i += 1;
        while self.i < b.len() && (is_word(b[self.i]) || b[self.i] == b'+') {
          self.i += 1
        }
        Tok::Num(&self.s[st..self.i])
      },
      b'.' if self.s[self.i..].starts_with("...") => {
        self.i += 3;
        Tok::P('V')
      },
      _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
        let st = self.i;
        while self.i < b.len() && is_word(b[self.i]) {
          self.i += 1
        }
        Tok::W(&self.s[st..self.i])
      },
      _ => {
        self.i += 1;
        Tok::P(c as char)
      },
    }
  }
  fn peek(&mut self) -> Tok<'a> {
    let i = self.i;
    let t = self.next();
    self.i = i;
    t
  }
  fn eat(&mut self, c: char) -> bool {
    let i = self.i;
    if self.next() == Tok::P(c) {
      true
    } else {
      self.i = i;
      false
    }
  }
  fn eat_w(&mut self, w: &str) -> bool {
    let i = self.i;
    if self.next() == Tok::W(w) {
      true
    } else {
      self.i = i;
      false
    }
  }
  fn expect(&mut self, c: char) {
    let t = self.next();
    if t != Tok::P(c) {
      panic!("IR parse: expected {:?}, got {:?} in: {}", c, t, &self.s[..self.s.len().min(300)]);
    }
  }
  /// Skip a balanced parenthesis group if present.
  fn skip_parens(&mut self) {
    if self.peek() == Tok::P('(') {
      let mut d = 0;
      loop {
        match self.next() {
          Tok::P('(') => d += 1,
          Tok::P(')') => {
            d -= 1;
            if d == 0 {
              return;
            }
          },
          Tok::Eof => return,
          _ => {},
        }
      }
    }
  }
}

fn parse_int(s: &str) -> u128 {
  if let Some(r) = s.strip_prefix('-') {
    (r.parse::<u128>().unwrap_or_else(|_| panic!("int {s}"))).wrapping_neg()
  } else {
    s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}"))
  }
}

pub fn mask(w: u32) -> u128 {
  if w >= 128 {
    u128::MAX
  } else {
    (1u128 << w) - 1
  }
}

fn unescape(s: &str) -> Vec<u8> {
  let b = s.as_bytes();
  let mut v = Vec::with_capacity(b.len());
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'\\' {
      if i + 1 < b.len() && b[i + 1] == b'\\' {
        v.push(b'\\');
        i += 2;
      } else {
        v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
        i += 3;
      }
    } else {
      v.push(b[i]);
      i += 1;
    }
  }
  v
}

struct FnCtx {
  slots: HashMap<String, (u32, u32)>,
  nslots: u32,
}

impl Module {
  fn ty(&self, lx: &mut Lex) -> Ty {
    let t = match lx.next() {
      Tok::W(w) => match w {
        "void" => Ty::Void,
        "ptr" => Ty::Ptr,
        "float" => Ty::F32,
        "double" => Ty::F64,
        "half" | "bfloat" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" => Ty::Other,
        _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => {
          Ty::Int(w[1..].parse().unwrap())
        },
        _ => panic!("IR parse: type {w} in {}", &lx.s[..lx.s.len().min(200)]),
      },
      Tok::Local(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
      Tok::P('[') => {
        let n = match lx.next() {
          Tok::Num(n) => n.parse().unwrap(),
          t => panic!("arr {t:?}"),
        };
        assert!(lx.eat_w("x"));
        let t = self.ty(lx);
        lx.expect(']');
        Ty::Arr(n, Box::new(t))
      },
      Tok::P('{') => {
        let f = self.fields(lx);
        lx.expect('}');
        Ty::Struct(f, false)
      },
      Tok::P('<') => {
        if lx.eat('{') {
          let f = self.fields(lx);
          lx.expect('}');
          lx.expect('>');
          Ty::Struct(f, true)
        } else {
          let n = match lx.next() {
            Tok::Num(n) => n.parse().unwrap(),
            t => panic!("vec {t:?}"),
          };
          assert!(lx.eat_w("x"));
          let t = self.ty(lx);
          lx.expect('>');
          Ty::Vec(n, Box::new(t))
        }
      },
      t => panic!("IR parse: type {t:?} in {}", &lx.s[..lx.s.len().min(200)]),
    };
    t
  }
  fn fields(&self, lx: &mut Lex) -> Vec<Ty> {
    let mut f = vec![];
    if lx.peek() == Tok::P('}') {
      return f;
    }
    loop {
      f.push(self.ty(lx));
      if !lx.eat(',') {
        return f;
      }
    }
  }

  pub fn load(text: Vec<u8>) -> Module {
    let mut m = Module {
      text: vec![],
      types: HashMap::new(),
      fns: vec![],
      fn_ids: HashMap::new(),
      globals: HashMap::new(),
      init: vec![],
      global_end: 0,
    };
    let s = std::str::from_utf8(&text).expect("utf8 IR").to_owned();
    let mut glines: Vec<&str> = vec![];
    let mut aliases: Vec<&str> = vec![];
    let mut tlines: Vec<&str> = vec![];
    let mut pos = 0;
    let bytes = s.as_bytes();
    while pos < bytes.len() {
      let end = memchr(bytes, b'\n', pos);
      let line = &s[pos..end];
      if line.starts_with("define ") {
        // find the end
        let mut p = end + 1;
        loop {
          let e = memchr(bytes, b'\n', p);
          if bytes[p] == b'}' {
            break;
          }
          p = e + 1;
        }
        let name = fn_name(line);
        let id = m.fns.len() as u32;
        m.fn_ids.insert(name.clone(), id);
        m.fns.push(FnDecl { name, body: Some((pos, p)), ret: None });
        pos = p + 2;
        continue;
      } else if line.starts_with("declare ") {
        let name = fn_name(line);
        let id = m.fns.len() as u32;
        m.fn_ids.insert(name.clone(), id);
        m.fns.push(FnDecl { name, body: None, ret: None });
      } else if line.starts_with('@') {
        if line.contains(" alias ") && !line.contains(" constant ") && !line.contains(" global ") {
          aliases.push(line);
        } else {
          glines.push(line);
        }
      } else if line.starts_with('%') {
        tlines.push(line);
      }
      pos = end + 1;
    }
    // named types; resolve in order of repeated passes (rare)
    for _ in 0..4 {
      for l in &tlines {
        let mut lx = Lex::new(l);
        if let Tok::Local(n) = lx.next() {
          lx.expect('=');
          lx.eat_w("type");
          if lx.peek() == Tok::W("opaque") {
            continue;
          }
          let t = m.ty(&mut lx);
          m.types.insert(n.to_owned(), t);
        }
      }
    }
    for a in aliases {
      let mut lx = Lex::new(a);
      if let Tok::Global(n) = lx.next() {
        if let Some(p) = a.rfind('@') {
          let mut l2 = Lex::new(&a[p..]);
          if let Tok::Global(t) = l2.next() {
            if let Some(&id) = m.fn_ids.get(t) {
              m.fn_ids.insert(n.to_owned(), id);
            }
          }
        }
      }
    }
    // assign global addresses
    let mut addr = GLOBAL_BASE;
    struct G<'a> {
      ty: Ty,
      lx: Lex<'a>,
      addr: u64,
      ext: bool,
    }
    let mut gs = vec![];
    for l in &glines {
      let mut lx = Lex::new(l);
      let name = match lx.next() {
        Tok::Global(n) => n.to_owned(),
        _ => continue,
      };
      lx.expect('=');
      let mut ext = false;
      let mut weak = false;
      loop {
        match lx.next() {
          Tok::W("constant") | Tok::W("global") => break,
          Tok::W("external") => ext = true,
          Tok::W("extern_weak") => {
            ext = true;
            weak = true
          },
          Tok::W(_) => lx.skip_parens(),
          Tok::P(_) => {},
          t => panic!("global {t:?}: {}", &l[..l.len().min(200)]),
        }
      }
      let ty = m.ty(&mut lx);
      if weak {
        m.globals.insert(name, 0);
        continue;
      }
      // alignment is at the end: `, align N`
      let al = match l.rfind(", align ") {
        Some(p) => {
          let r: String = l[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
          r.parse::<u64>().unwrap_or(16)
        },
        None => 16,
      }
      .max(1);
      addr = addr.div_ceil(al) * al;
      m.globals.insert(name, addr);
      let sz = ty.size();
      gs.push(G { ty, lx, addr, ext });
      addr += sz.max(1) + 1;
    }
    m.global_end = addr;
    let mut init = vec![];
    for mut g in gs {
      let mut buf = vec![0u8; g.ty.size() as usize];
      if !g.ext {
        m.init_const(&g.ty, &mut g.lx, &mut buf);
      }
      init.push((g.addr, buf));
    }
    m.init = init;
    m.text = text;
    m
  }

  fn init_const(&self, ty: &Ty, lx: &mut Lex, buf: &mut [u8]) {
    match lx.peek() {
      Tok::W("zeroinitializer") | Tok::W("undef") | Tok::W("poison") => {
        lx.next();
        return;
      },
      _ => {},
    }
    match ty {
      Ty::Arr(_, t) => {
        if let Tok::Str(s) = lx.peek() {
          lx.next();
          let v = unescape(s);
          buf[..v.len()].copy_from_slice(&v);
          return;
        }
        lx.expect('[');
        let sz = t.size() as usize;
        let mut i = 0;
        if lx.eat(']') {
          return;
        }
        loop {
          let et = self.ty(lx);
          self.init_const(&et, lx, &mut buf[i * sz..(i + 1) * sz]);
          i += 1;
          if !lx.eat(',') {
            break;
          }
        }
        lx.expect(']');
      },
      Ty::Struct(f, packed) => {
        if *packed {
          lx.expect('<');
        }
        lx.expect('{');
        for i in 0..f.len() {
          if i > 0 {
            lx.expect(',');
          }
          let et = self.ty(lx);
          let o = ty.field_offset(i) as usize;
          let sz = et.size() as usize;
          self.init_const(&et, lx, &mut buf[o..o + sz]);
        }
        lx.expect('}');
        if *packed {
          lx.expect('>');
        }
      },
      _ => {
        let v = self.const_scalar(ty, lx);
        let n = buf.len().min(16);
        buf[..n].copy_from_slice(&v.to_le_bytes()[..n]);
      },
    }
  }

  /// Parse a scalar (or vector) constant of the given type.
  fn const_scalar(&self, ty: &Ty, lx: &mut Lex) -> u128 {
    let t = match lx.next() {
      Tok::W(n) if matches!(ty, Ty::F32 | Ty::F64) && (n.starts_with("f0x") || matches!(n, "inf" | "nan" | "qnan" | "snan")) => Tok::Num(n),
      t => t,
    };
    match t {
      Tok::Num(n) => match ty {
        Ty::F32 | Ty::F64 => {
          let is32 = *ty == Ty::F32;
          let (neg, body) = match n.as_bytes()[0] {
            b'-' => (true, &n[1..]),
            b'+' => (false, &n[1..]),
            _ => (false, n),
          };
          let exp = if is32 { 0x7f80_0000u128 } else { 0x7ff0_0000_0000_0000 };
          let sign = (neg as u128) << if is32 { 31 } else { 63 };
          let hex = |x: &str| u64::from_str_radix(x, 16).unwrap() as u128;
          if let Some(h) = body.strip_prefix("0x") {
            let k = hex(h);
            sign | if is32 { (f64::from_bits(k as u64) as f32).to_bits() as u128 } else { k }
          } else if let Some(h) = body.strip_prefix("f0x") {
            sign | hex(h)
          } else if body == "inf" {
            sign | exp
          } else if body == "qnan" {
            sign | exp | exp >> 1 & !exp
          } else if body == "nan" || body == "snan" {
            lx.expect('(');
            let k = match lx.next() {
              Tok::Num(p) => hex(p.trim_start_matches("0x")),
              t => panic!("nan payload {t:?}"),
            };
            lx.expect(')');
            let q = if body == "nan" { exp >> 1 & !exp } else { 0 };
            sign | exp | q | k
          } else if is32 {
            (n.parse::<f64>().unwrap() as f32).to_bits() as u128
          } else {
            n.parse::<f64>().unwrap().to_bits() as u128
          }
        },
        _ => parse_int(n) & mask(ty.bits()),
      },
      Tok::W("true") => 1,
      Tok::W("false") | Tok::W("null") | Tok::W("undef") | Tok::W("poison") | Tok::W("zeroinitializer") | Tok::W("none") => 0,
      Tok::Global(g) => self.global_addr(g) as u128,
      Tok::W("splat") => {
        lx.expect('(');
        let t = self.ty(lx);
        let v = self.const_scalar(&t, lx);
        lx.expect(')');
        if let Ty::Vec(n, _) = ty {
          let mut r = 0u128;
          for i in 0..*n {
            r |= v << (i * t.bits());
          }
          r
        } else {
          v
        }
      },
      Tok::P('<') => {
        let mut r = 0u128;
        let mut i = 0;
        loop {
          let t = self.ty(lx);
          let v = self.const_scalar(&t, lx);
          r |= v << (i * t.bits());
          i += 1;
          if !lx.eat(',') {
            break;
          }
        }
        lx.expect('>');
        r
      },
      Tok::W(op @ ("inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "ptrtoaddr")) => {
        let _ = op;
        lx.expect('(');
        let t = self.ty(lx);
        let v = self.const_scalar(&t, lx);
        lx.eat_w("to");
        let t2 = self.ty(lx);
        lx.expect(')');
        v & mask(t2.bits())
      },
      Tok::W(op @ ("add" | "sub" | "xor")) => {
        while matches!(lx.peek(), Tok::W("nsw") | Tok::W("nuw")) {
          lx.next();
        }
        lx.expect('(');
        let t = self.ty(lx);
        let a = self.const_scalar(&t, lx);
        lx.expect(',');
        let t2 = self.ty(lx);
        let b = self.const_scalar(&t2, lx);
        lx.expect(')');
        (match op {
          "add" => a.wrapping_add(b),
          "sub" => a.wrapping_sub(b),
          _ => a ^ b,
        }) & mask(t.bits())
      },
      Tok::W("getelementptr") => {
        while let Tok::W(w) = lx.peek() {
          lx.next();
          if w == "inrange" {
            lx.skip_parens();
          }
        }
        lx.expect('(');
        let t = self.ty(lx);
        lx.expect(',');
        let pt = self.ty(lx);
        let mut a = self.const_scalar(&pt, lx) as u64;
        let mut cur = t;
        let mut first = true;
        while lx.eat(',') {
          lx.eat_w("inrange");
          let it = self.ty(lx);
          let v = self.const_scalar(&it, lx);
          let v = sext(v, it.bits()) as i64;
          if first {
            a = a.wrapping_add((v.wrapping_mul(cur.size() as i64)) as u64);
            first = false;
          } else {
            a = a.wrapping_add(match &cur {
              Ty::Struct(..) => cur.field_offset(v as usize),
              _ => (v as u64).wrapping_mul(cur.field(0).size()),
            });
            cur = cur.field(v as usize).clone();
          }
        }
        lx.expect(')');
        a as u128
      },
      Tok::W("asm") => 0,
      Tok::W("blockaddress") => {
        lx.skip_parens();
        0
      },
      Tok::W("dso_local_equivalent") | Tok::W("no_cfi") => self.const_scalar(ty, lx),
      t => panic!("IR parse: const {t:?} in {}", &lx.s[..lx.s.len().min(300)]),
    }
  }

  fn global_addr(&self, g: &str) -> u64 {
    if let Some(&a) = self.globals.get(g) {
      return a;
    }
    if let Some(&id) = self.fn_ids.get(g) {
      return fn_addr(id);
    }
    panic!("unknown global @{g}")
  }

  /// Parse an operand of type `ty`; flattened.
  fn operand(&self, cx: &FnCtx, ty: &Ty, lx: &mut Lex, out: &mut Vec<Opd>) {
    if let Tok::Local(n) = lx.peek() {
      lx.next();
      let (b, k) = *cx.slots.get(n).unwrap_or_else(|| panic!("unknown local %{n} in {}", lx.s));
      for i in 0..k {
        out.push(Opd::R(b + i));
      }
      return;
    }
    match ty {
      Ty::Struct(..) | Ty::Arr(..) => match lx.peek() {
        Tok::W("zeroinitializer") | Tok::W("undef") | Tok::W("poison") => {
          lx.next();
          for _ in 0..ty.nflat() {
            out.push(Opd::C(0));
          }
        },
        Tok::Str(s) => {
          lx.next();
          for b in unescape(s) {
            out.push(Opd::C(b as u128));
          }
        },
        _ => {
          let close = match lx.next() {
            Tok::P('{') => '}',
            Tok::P('[') => ']',
            Tok::P('<') => {
              lx.expect('{');
              '}'
            },
            t => panic!("agg {t:?}"),
          };
          loop {
            let t = self.ty(lx);
            self.operand(cx, &t, lx, out);
            if !lx.eat(',') {
              break;
            }
          }
          lx.expect(close);
          if let Ty::Struct(_, true) = ty {
            lx.expect('>');
          }
        },
      },
      _ => out.push(Opd::C(self.const_scalar(ty, lx))),
    }
  }

  fn op1(&self, cx: &FnCtx, ty: &Ty, lx: &mut Lex) -> Opd {
    let mut v = vec![];
    self.operand(cx, ty, lx, &mut v);
    if v.is_empty() {
      return Opd::C(0);
    }
    v[0]
  }

  fn skip_attrs(&self, lx: &mut Lex) {
    loop {
      match lx.peek() {
        Tok::W(w) => match w {
          "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "inttoptr" | "ptrtoint"
          | "getelementptr" | "splat" | "trunc" | "sub" | "add" | "xor" | "bitcast" | "asm" | "blockaddress" | "none"
          | "ptrtoaddr" => return,
          "align" => {
            lx.next();
            if lx.peek() == Tok::P('(') {
              lx.skip_parens()
            } else {
              lx.next();
            }
          },
          _ => {
            lx.next();
            lx.skip_parens();
          },
        },
        Tok::Str(_) => {
          lx.next();
          if lx.eat('=') {
            lx.next();
          }
        },
        _ => return,
      }
    }
  }

  pub fn compile(&self, id: u32) -> Func {
    let d = &self.fns[id as usize];
    let (s, e) = d.body.unwrap();
    let text = unsafe { std::str::from_utf8_unchecked(&self.text[s..e]) };
    let mut lines = text.lines();
    let head = lines.next().unwrap();
    let mut cx = FnCtx { slots: HashMap::new(), nslots: 0 };
    // header
    let at = find_fn_at(head);
    let mut lx = Lex::new(&head[at..]);
    lx.next(); // global
    lx.expect('(');
    let mut params = vec![];
    let mut pi = 0usize;
    if !lx.eat(')') {
      loop {
        if lx.eat('V') {
          break;
        }
        let t = self.ty(&mut lx);
        self.skip_attrs(&mut lx);
        let name = match lx.peek() {
          Tok::Local(n) => {
            lx.next();
            n.to_owned()
          },
          _ => pi.to_string(),
        };
        let n = t.nflat() as u32;
        cx.slots.insert(name, (cx.nslots, n));
        for i in 0..n {
          params.push(cx.nslots + i);
        }
        cx.nslots += n;
        pi += 1;
        if !lx.eat(',') {
          break;
        }
      }
    }
    // gather logical lines per block
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut first = true;
    let mut pend: Option<String> = None;
    for l in lines {
      if let Some(p) = pend.as_mut() {
        p.push(' ');
        p.push_str(l.trim());
        let done = if p.contains("switch ") && p.trim_start().starts_with("switch") {
          l.trim().starts_with(']')
        } else {
          l.contains("to label")
        };
        if done {
          let p = pend.take().unwrap();
          blocks.last_mut().unwrap().1.push(p);
        }
        continue;
      }
      if l.is_empty() || l.trim_start().starts_with(';') {
        continue;
      }
      if !l.starts_with(' ') {
        // label
        let lab = l.split(':').next().unwrap().trim_matches('"').to_owned();
        blocks.push((lab, vec![]));
        first = false;
        continue;
      }
      let t = l.trim_start();
      if t.starts_with('#') {
        continue;
      }
      if first {
        blocks.push((params_count_label(&cx, pi), vec![]));
        first = false;
      }
      if t.starts_with("switch ") && !t.contains(']') {
        pend = Some(t.to_owned());
        continue;
      }
      if (t.starts_with("invoke ") || t.contains("= invoke ")) && !t.contains("to label") {
        pend = Some(t.to_owned());
        continue;
      }
      if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
        continue;
      }
      blocks.last_mut().unwrap().1.push(t.to_owned());
    }
    let bidx: HashMap<&str, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.as_str(), i as u32)).collect();
    // pass 1: result types
    let mut rtys: Vec<Vec<Ty>> = vec![];
    for (_, ls) in &blocks {
      let mut v = vec![];
      for l in ls {
        if l.starts_with('%') {
          let mut lx = Lex::new(l);
          let n = match lx.next() {
            Tok::Local(n) => n.to_owned(),
            _ => unreachable!(),
          };
          lx.expect('=');
          let t = self.result_ty(&mut lx, &cx, &v);
          let k = t.nflat() as u32;
          cx.slots.insert(n, (cx.nslots, k));
          cx.nslots += k;
          v.push(t);
        } else {
          v.push(Ty::Void);
        }
      }
      rtys.push(v);
    }
    // phis: dest block -> list of (dst slot, ty, [(val, pred)])
    struct Phi<'a> {
      dst: u32,
      n: u32,
      inc: HashMap<&'a str, Vec<Opd>>,
    }
    let mut phis: Vec<Vec<Phi>> = vec![];
    for (_, ls) in &blocks {
      let mut v = vec![];
      for l in ls {
        if !l.starts_with('%') {
          break;
        }
        let mut lx = Lex::new(l);
        let n = match lx.next() {
          Tok::Local(n) => n,
          _ => unreachable!(),
        };
        lx.expect('=');
        if !lx.eat_w("phi") {
          break;
        }
        while matches!(lx.peek(), Tok::W("fast") | Tok::W("nnan") | Tok::W("nsz") | Tok::W("ninf")) {
          lx.next();
        }
        let t = self.ty(&mut lx);
        let (dst, k) = cx.slots[n];
        let mut inc = HashMap::new();
        loop {
          lx.expect('[');
          let mut ops = vec![];
          self.operand(&cx, &t, &mut lx, &mut ops);
          lx.expect(',');
          match lx.next() {
            Tok::Local(b) => {
              inc.insert(b, ops);
            },
            t => panic!("phi {t:?}"),
          }
          lx.expect(']');
          if !lx.eat(',') {
            break;
          }
          if lx.peek() != Tok::P('[') {
            break;
          }
        }
        v.push(Phi { dst, n: k, inc });
      }
      phis.push(v);
    }
    let mk_edge = |from: &str, to: &str| -> Edge {
      let b = *bidx.get(to).unwrap_or_else(|| panic!("label {to}"));
      let mut moves = vec![];
      for p in &phis[b as usize] {
        let ops = &p.inc.get(from).unwrap_or_else(|| panic!("phi missing pred {from} -> {to}"));
        for i in 0..p.n as usize {
          moves.push((p.dst + i as u32, ops[i]));
        }
      }
      Edge { block: b, moves: moves.into_boxed_slice() }
    };
    // pass 2
    let mut insts = vec![];
    let mut starts = vec![];
    for (bi, (lab, ls)) in blocks.iter().enumerate() {
      starts.push(insts.len() as u32);
      for (li, l) in ls.iter().enumerate() {
        let mut lx = Lex::new(l);
        let mut dst = 0;
        if l.starts_with('%') {
          if let Tok::Local(n) = lx.next() {
            dst = cx.slots[n].0;
          }
          lx.expect('=');
        }
        let inst = self.inst(&cx, &mut lx, dst, &rtys[bi][li], lab, &mk_edge);
        if !matches!(inst, Inst::Nop) {
          insts.push(inst);
        }
      }
    }
    Func { id, name: d.name.clone(), params, nslots: cx.nslots, insts, blocks: starts }
  }

  fn result_ty(&self, lx: &mut Lex, _cx: &FnCtx, _prev: &[Ty]) -> Ty {
    let op = match lx.next() {
      Tok::W(w) => w,
      t => panic!("op {t:?} in {}", lx.s),
    };
    match op {
      "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr"
      | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "freeze" => {
        while let Tok::W(w) = lx.peek() {
          if is_flag(w) {
            lx.next();
          } else {
            break;
          }
        }
        self.ty(lx)
      },
      "icmp" | "fcmp" => {
        while let Tok::W(w) = lx.peek() {
          if w == "ptr" || w == "double" || w == "float" || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) {
            break;
          }
          lx.next();
        }
        match self.ty(lx) {
          Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))),
          _ => Ty::Int(1),
        }
      },
      "select" => {
        while let Tok::W(w) = lx.peek() {
          if is_flag(w) {
            lx.next();
          } else {
            break;
          }
        }
        // select i1 %c, T a, T b
        let ct = self.ty(lx);
        self.skip_value(&ct, lx);
        lx.expect(',');
        self.ty(lx)
      },
      "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" | "fptoui" | "fptosi"
      | "uitofp" | "sitofp" | "addrspacecast" | "ptrtoaddr" => {
        while let Tok::W(w) = lx.peek() {
          if is_flag(w) {
            lx.next();
          } else {
            break;
          }
        }
        let t = self.ty(lx);
        self.skip_value(&t, lx);
        assert!(lx.eat_w("to"), "{}", lx.s);
        self.ty(lx)
      },
      "getelementptr" | "alloca" => Ty::Ptr,
      "load" => {
        while matches!(lx.peek(), Tok::W("volatile") | Tok::W("atomic")) {
          lx.next();
        }
        self.ty(lx)
      },
      "phi" => {
        while let Tok::W(w) = lx.peek() {
          if is_flag(w) {
            lx.next();
          } else {
            break;
          }
        }
        self.ty(lx)
      },
      "call" | "tail" | "musttail" | "notail" | "invoke" => self.call_ret_ty(op, lx),
      "extractvalue" => {
        let mut t = self.ty(lx);
        self.skip_value(&t, lx);
        while lx.eat(',') {
          match lx.peek() {
            Tok::Num(n) => {
              lx.next();
              let i: usize = n.parse().unwrap();
              let nt = t.field(i).clone();
              t = nt;
            },
            _ => break,
          }
        }
        t
      },
      "insertvalue" | "insertelement" => self.ty(lx),
      "extractelement" => match self.ty(lx) {
        Ty::Vec(_, t) => *t,
        t => t,
      },
      "shufflevector" => {
        let t = self.ty(lx);
        self.skip_value(&t, lx);
        lx.expect(',');
        let t2 = self.ty(lx);
        self.skip_value(&t2, lx);
        lx.expect(',');
        let mt = self.ty(lx);
        match (t, mt) {
          (Ty::Vec(_, e), Ty::Vec(n, _)) => Ty::Vec(n, e),
          (t, _) => t,
        }
      },
      "atomicrmw" => {
        lx.eat_w("volatile");
        lx.next(); // op
        lx.eat_w("ptr");
        self.skip_value(&Ty::Ptr, lx);
        lx.expect(',');
        self.ty(lx)
      },
      "cmpxchg" => {
        lx.eat_w("weak");
        lx.eat_w("volatile");
        lx.eat_w("ptr");
        self.skip_value(&Ty::Ptr, lx);
        lx.expect(',');
        let t = self.ty(lx);
        Ty::Struct(vec![t, Ty::Int(1)], false)
      },
      "landingpad" => self.ty(lx),
      "va_arg" => Ty::Ptr,
      _ => panic!("IR: result type of {op}: {}", lx.s),
    }
  }

  fn call_ret_ty(&self, op: &str, lx: &mut Lex) -> Ty {
    if op != "call" && op != "invoke" {
      lx.next(); // call
    }
    self.skip_call_attrs(lx);
    self.ty(lx)
  }

  fn skip_call_attrs(&self, lx: &mut Lex) {
    loop {
      match lx.peek() {
        Tok::W(w) => {
          if w == "ptr" || w == "void" || w == "double" || w == "float" || w == "half" {
            return;
          }
          if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) {
            return;
          }
          lx.next();
          if w == "align" && lx.peek() != Tok::P('(') {
            lx.next();
          } else {
            lx.skip_parens();
          }
        },
        Tok::Str(_) => {
          lx.next();
          if lx.eat('=') {
            lx.next();
          }
        },
        _ => return,
      }
    }
  }

  fn skip_value(&self, ty: &Ty, lx: &mut Lex) {
    if let Tok::Local(_) = lx.peek() {
      lx.next();
      return;
    }
    let cx = FnCtx { slots: HashMap::new(), nslots: 0 };
    match ty {
      Ty::Struct(..) | Ty::Arr(..) => {
        // may contain locals (not in practice)
        let mut v = vec![];
        self.operand(&cx, ty, lx, &mut v);
      },
      _ => {
        self.const_scalar(ty, lx);
      },
    }
  }

  fn inst(
    &self,
    cx: &FnCtx,
    lx: &mut Lex,
    dst: u32,
    rty: &Ty,
    lab: &str,
    edge: &dyn Fn(&str, &str) -> Edge,
  ) -> Inst {
    let op = match lx.next() {
      Tok::W(w) => w,
      t => panic!("op {t:?} in {}", lx.s),
    };
    let flags = |lx: &mut Lex| {
      while let Tok::W(w) = lx.peek() {
        if is_flag(w) {
          lx.next();
        } else {
          break;
        }
      }
    };
    let bin = |op| {
      Some(match op {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        "fadd" => BinOp::FAdd,
        "fsub" => BinOp::FSub,
        "fmul" => BinOp::FMul,
        "fdiv" => BinOp::FDiv,
        "frem" => BinOp::FRem,
        _ => return None,
      })
    };
    if let Some(b) = bin(op) {
      flags(lx);
      let t = self.ty(lx);
      let x = self.op1(cx, &t, lx);
      lx.expect(',');
      let y = self.op1(cx, &t, lx);
      let (w, lanes) = lane(&t);
      if w * lanes > 128 {
        return Inst::Unsupported(format!("wide vector: {}", lx.s));
      }
      return Inst::Bin { op: b, w, lanes, dst, a: x, b: y };
    }
    match op {
      "phi" => Inst::Nop,
      "fneg" => {
        flags(lx);
        let t = self.ty(lx);
        let a = self.op1(cx, &t, lx);
        Inst::FNeg { w: t.bits(), dst, a }
      },
      "freeze" => {
        let t = self.ty(lx);
        let mut v = vec![];
        self.operand(cx, &t, lx, &mut v);
        Inst::Moves(v.into_iter().enumerate().map(|(i, o)| (dst + i as u32, o)).collect())
      },
      "icmp" => {
        lx.eat_w("samesign");
        let p = match lx.next() {
          Tok::W(w) => match w {
            "eq" => Pred::Eq,
            "ne" => Pred::Ne,
            "ugt" => Pred::Ugt,
            "uge" => Pred::Uge,
            "ult" => Pred::Ult,
            "ule" => Pred::Ule,
            "sgt" => Pred::Sgt,
            "sge" => Pred::Sge,
            "slt" => Pred::Slt,
            "sle" => Pred::Sle,
            _ => panic!("{}", lx.s),
          },
          _ => panic!("{}", lx.s),
        };
        let t = self.ty(lx);
        let a = self.op1(cx, &t, lx);
        lx.expect(',');
        let b = self.op1(cx, &t, lx);
        let (w, lanes) = lane(&t);
        if w * lanes > 128 {
          return Inst::Unsupported(format!("wide vector: {}", lx.s));
        }
        Inst::ICmp { p, w, lanes, dst, a, b }
      },
      "fcmp" => {
        flags(lx);
        let p = match lx.next() {
          Tok::W(w) => match w {
            "oeq" => FPred::Oeq,
            "ogt" => FPred::Ogt,
            "oge" => FPred::Oge,
            "olt" => FPred::Olt,
            "ole" => FPred::Ole,
            "one" => FPred::One,
            "ord" => FPred::Ord,
            "ueq" => FPred::Ueq,
            "ugt" => FPred::Ugt,
            "uge" => FPred::Uge,
            "ult" => FPred::Ult,
            "ule" => FPred::Ule,
            "une" => FPred::Une,
            "uno" => FPred::Uno,
            "true" => FPred::True,
            _ => FPred::False,
          },
          _ => panic!("{}", lx.s),
        };
        let t = self.ty(lx);
        let a = self.op1(cx, &t, lx);
        lx.expect(',');
        let b = self.op1(cx, &t, lx);
        Inst::FCmp { p, w: t.bits(), dst, a, b }
      },
      "select" => {
        flags(lx);
        let ct = self.ty(lx);
        let c = self.op1(cx, &ct, lx);
        lx.expect(',');
        let t = self.ty(lx);
        let mut a = vec![];
        self.operand(cx, &t, lx, &mut a);
        lx.expect(',');
        let t2 = self.ty(lx);
        let mut b = vec![];
        self.operand(cx, &t2, lx, &mut b);
        if let Ty::Vec(..) = ct {
          let (w, lanes) = lane(&t);
          return Inst::VSelect { w, lanes, dst, c, a: a[0], b: b[0] };
        }
        if a.len() == 1 {
          Inst::Select { w: t.bits(), dst, c, a: a[0], b: b[0] }
        } else {
          Inst::Unsupported(format!("aggregate select: {}", lx.s))
        }
      },
      "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" | "fptoui" | "fptosi"
      | "uitofp" | "sitofp" | "ptrtoaddr" => {
        flags(lx);
        let t = self.ty(lx);
        let a = self.op1(cx, &t, lx);
        lx.eat_w("to");
        let t2 = self.ty(lx);
        let (fw, lanes) = lane(&t);
        let (tw, lanes2) = lane(&t2);
        let c = match op {
          "zext" => CastOp::ZExt,
          "sext" => CastOp::SExt,
          "trunc" => CastOp::Trunc,
          "bitcast" => {
            return Inst::Moves(Box::new([(dst, a)]));
          },
          "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            if tw < fw {
              CastOp::Trunc
            } else if tw > fw {
              CastOp::ZExt
            } else {
              return Inst::Moves(Box::new([(dst, a)]));
            }
          },
          "fptrunc" => CastOp::FpTrunc,
          "fpext" => CastOp::FpExt,
          "fptoui" => CastOp::FpToUi,
          "fptosi" => CastOp::FpToSi,
          "uitofp" => CastOp::UiToFp,
          _ => CastOp::SiToFp,
        };
        if lanes != lanes2 || fw * lanes > 128 || tw * lanes > 128 {
          return Inst::Unsupported(format!("wide cast: {}", lx.s));
        }
        Inst::Cast { op: c, from: fw, to: tw, lanes, dst, a }
      },
      "getelementptr" => {
        while let Tok::W(w) = lx.peek() {
          if matches!(w, "inbounds" | "nuw" | "nusw" | "inrange") {
            lx.next();
            lx.skip_parens();
          } else {
            break;
          }
        }
        let t = self.ty(lx);
        lx.expect(',');
        let pt = self.ty(lx);
        let base = self.op1(cx, &pt, lx);
        let mut off = 0i64;
        let mut idx = vec![];
        let mut cur = t;
        let mut first = true;
        while lx.eat(',') {
          if let Tok::P('!') = lx.peek() {
            break;
          }
          let it = self.ty(lx);
          let o = self.op1(cx, &it, lx);
          let scale;
          if first {
            scale = cur.size() as i64;
            first = false;
          } else if let Ty::Struct(..) = cur {
            let k = match o {
              Opd::C(k) => k as usize,
              _ => panic!("gep"),
            };
            off += cur.field_offset(k) as i64;
            cur = cur.field(k).clone();
            continue;
          } else {
            let nt = cur.field(0).clone();
            scale = nt.size() as i64;
            cur = nt;
          }
          match o {
            Opd::C(k) => off = off.wrapping_add((sext(k, it.bits()) as i64).wrapping_mul(scale)),
            r => idx.push((r, it.bits(), scale)),
          }
        }
        Inst::Gep { dst, base, off, idx: idx.into_boxed_slice() }
      },
      "load" => {
        while matches!(lx.peek(), Tok::W("volatile") | Tok::W("atomic")) {
          lx.next();
        }
        let t = self.ty(lx);
        lx.expect(',');
        let pt = self.ty(lx);
        let addr = self.op1(cx, &pt, lx);
        let parts: Vec<(u32, u32)> = t.flatten().iter().map(|(o, t)| (*o as u32, t.bits())).collect();
        if parts.iter().any(|p| p.1 > 128) {
          return Inst::Unsupported(format!("wide load: {}", lx.s));
        }
        Inst::Load { addr, dst, parts: parts.into_boxed_slice() }
      },
      "store" => {
        while matches!(lx.peek(), Tok::W("volatile") | Tok::W("atomic")) {
          lx.next();
        }
        let t = self.ty(lx);
        let mut v = vec![];
        if t.flatten().iter().any(|p| p.1.bits() > 128) {
          return Inst::Unsupported(format!("wide store: {}", lx.s));
        }
        self.operand(cx, &t, lx, &mut v);
        lx.expect(',');
        let pt = self.ty(lx);
        let addr = self.op1(cx, &pt, lx);
        let parts: Vec<(u32, u32, Opd)> =
          t.flatten().iter().zip(v).map(|((o, t), x)| (*o as u32, t.bits(), x)).collect();
        Inst::Store { addr, parts: parts.into_boxed_slice() }
      },
      "alloca" => {
        lx.eat_w("inalloca");
        let t = self.ty(lx);
        let mut n = Opd::C(1);
        let mut align = t.align();
        while lx.eat(',') {
          if lx.eat_w("align") {
            if let Tok::Num(a) = lx.next() {
              align = a.parse().unwrap();
            }
          } else if let Tok::P('!') = lx.peek() {
            break;
          } else {
            let nt = self.ty(lx);
            n = self.op1(cx, &nt, lx);
          }
        }
        Inst::Alloca { dst, size: t.size(), align, n }
      },
      "extractvalue" => {
        let t = self.ty(lx);
        let mut v = vec![];
        self.operand(cx, &t, lx, &mut v);
        let (mut start, mut cur) = (0usize, t);
        while lx.eat(',') {
          if let Tok::Num(n) = lx.peek() {
            lx.next();
            let i: usize = n.parse().unwrap();
            for j in 0..i {
              start += cur.field(j).nflat();
            }
            cur = cur.field(i).clone();
          } else {
            break;
          }
        }
        let n = cur.nflat();
        Inst::Moves((0..n).map(|i| (dst + i as u32, v[start + i])).collect())
      },
      "insertvalue" => {
        let t = self.ty(lx);
        let mut v = vec![];
        self.operand(cx, &t, lx, &mut v);
        lx.expect(',');
        let et = self.ty(lx);
        let mut e = vec![];
        self.operand(cx, &et, lx, &mut e);
        let (mut start, mut cur) = (0usize, t);
        while lx.eat(',') {
          if let Tok::Num(n) = lx.peek() {
            lx.next();
            let i: usize = n.parse().unwrap();
            for j in 0..i {
              start += cur.field(j).nflat();
            }
            cur = cur.field(i).clone();
          } else {
            break;
          }
        }
        for (i, x) in e.into_iter().enumerate() {
          v[start + i] = x;
        }
        Inst::Moves(v.into_iter().enumerate().map(|(i, o)| (dst + i as u32, o)).collect())
      },
      "insertelement" => {
        let t = self.ty(lx);
        let v = self.op1(cx, &t, lx);
        lx.expect(',');
        let et = self.ty(lx);
        let e = self.op1(cx, &et, lx);
        lx.expect(',');
        let it = self.ty(lx);
        let i = self.op1(cx, &it, lx);
        let (w, lanes) = lane(&t);
        Inst::InsElem { w, lanes, dst, v, e, i }
      },
      "extractelement" => {
        let t = self.ty(lx);
        let v = self.op1(cx, &t, lx);
        lx.expect(',');
        let it = self.ty(lx);
        let i = self.op1(cx, &it, lx);
        let (w, _) = lane(&t);
        Inst::ExtElem { w, dst, v, i }
      },
      "shufflevector" => {
        let t = self.ty(lx);
        let a = self.op1(cx, &t, lx);
        lx.expect(',');
        let t2 = self.ty(lx);
        let b = self.op1(cx, &t2, lx);
        lx.expect(',');
        let mt = self.ty(lx);
        let n = if let Ty::Vec(n, _) = mt { n } else { 0 };
        let mut mask = vec![];
        match lx.next() {
          Tok::W("zeroinitializer") => mask = vec![0; n as usize],
          Tok::W("poison") | Tok::W("undef") => mask = vec![-1; n as usize],
          Tok::W("splat") => {
            lx.expect('(');
            self.ty(lx);
            if let Tok::Num(k) = lx.next() {
              mask = vec![k.parse().unwrap(); n as usize]
            }
          },
          _ => loop {
            self.ty(lx);
            match lx.next() {
              Tok::Num(k) => mask.push(k.parse().unwrap()),
              _ => mask.push(-1),
            }
            if !lx.eat(',') {
              break;
            }
          },
        }
        let (w, n1) = lane(&t);
        if w * n1 > 128 || w * n > 128 {
          return Inst::Unsupported(format!("wide shuffle {}", lx.s));
        }
        Inst::Shuffle { w, n1, dst, a, b, mask: mask.into_boxed_slice() }
      },
      "atomicrmw" => {
        lx.eat_w("volatile");
        let o = match lx.next() {
          Tok::W(o) => o.to_owned(),
          _ => panic!(),
        };
        let pt = self.ty(lx);
        let addr = self.op1(cx, &pt, lx);
        lx.expect(',');
        let t = self.ty(lx);
        let v = self.op1(cx, &t, lx);
        Inst::AtomicRmw { op: o, w: t.bits(), dst, addr, v }
      },
      "cmpxchg" => {
        lx.eat_w("weak");
        lx.eat_w("volatile");
        let pt = self.ty(lx);
        let addr = self.op1(cx, &pt, lx);
        lx.expect(',');
        let t = self.ty(lx);
        let cmp = self.op1(cx, &t, lx);
        lx.expect(',');
        let t = self.ty(lx);
        let new = self.op1(cx, &t, lx);
        Inst::CmpXchg { w: t.bits(), dst, addr, cmp, new }
      },
      "fence" => Inst::Nop,
      "call" | "tail" | "musttail" | "notail" | "invoke" => {
        if op != "call" && op != "invoke" {
          lx.next();
        }
        self.skip_call_attrs(lx);
        let mut t = self.ty(lx);
        let _ = &mut t;
        // variadic function type
        if lx.peek() == Tok::P('(') {
          lx.skip_parens();
        }
        let callee = match lx.next() {
          Tok::Global(g) => {
            if g.starts_with("llvm.lifetime")
              || g.starts_with("llvm.experimental.noalias")
              || g.starts_with("llvm.assume")
              || g.starts_with("llvm.dbg")
              || g.starts_with("llvm.donothing")
              || g.starts_with("llvm.prefetch")
              || g.starts_with("llvm.x86.sse2.pause")
            {
              return Inst::Nop;
            }
            match self.fn_ids.get(g) {
              Some(&id) => Callee::Fn(id),
              None => return Inst::Unsupported(format!("call to unknown @{g}")),
            }
          },
          Tok::Local(n) => Callee::Ind(Opd::R(cx.slots[n].0)),
          Tok::W("asm") => {
            // Only the empty memory barrier is supported.
            if lx.s.contains("asm sideeffect \"\"") {
              // black_box style barrier: may have an argument but no result
              if *rty == Ty::Void {
                return Inst::Nop;
              }
            }
            return Inst::Unsupported(format!("inline asm: {}", lx.s));
          },
          Tok::W("inttoptr") => return Inst::Unsupported(format!("call inttoptr: {}", lx.s)),
          t => panic!("callee {t:?}: {}", lx.s),
        };
        lx.expect('(');
        let mut args = vec![];
        if !lx.eat(')') {
          loop {
            let at = self.ty(lx);
            if at == Ty::Other {
              // metadata
              let mut d = 0i32;
              loop {
                match lx.peek() {
                  Tok::P(',') if d == 0 => break,
                  Tok::P(')') if d == 0 => break,
                  Tok::P('(') => d += 1,
                  Tok::P(')') => d -= 1,
                  Tok::Eof => break,
                  _ => {},
                }
                lx.next();
              }
            } else {
              self.skip_attrs(lx);
              self.operand(cx, &at, lx, &mut args);
            }
            if !lx.eat(',') {
              break;
            }
          }
          lx.expect(')');
        }
        let normal = if op == "invoke" {
          let p = lx.s.find("to label %").expect("invoke label");
          let mut l2 = Lex::new(&lx.s[p + 9..]);
          match l2.next() {
            Tok::Local(b) => Some(edge(lab, b)),
            t => panic!("invoke {t:?}"),
          }
        } else {
          None
        };
        Inst::Call(Box::new(CallInst { dst, nret: rty.nflat() as u32, callee, args: args.into_boxed_slice(), normal }))
      },
      "ret" => {
        let t = self.ty(lx);
        let mut v = vec![];
        if t != Ty::Void {
          self.operand(cx, &t, lx, &mut v);
        }
        Inst::Ret(v.into_boxed_slice())
      },
      "br" => {
        if lx.eat_w("label") {
          match lx.next() {
            Tok::Local(b) => Inst::Br(edge(lab, b)),
            t => panic!("br {t:?}"),
          }
        } else {
          let t = self.ty(lx);
          let c = self.op1(cx, &t, lx);
          lx.expect(',');
          lx.eat_w("label");
          let a = match lx.next() {
            Tok::Local(b) => b,
            t => panic!("br {t:?}"),
          };
          lx.expect(',');
          lx.eat_w("label");
          let b = match lx.next() {
            Tok::Local(b) => b,
            t => panic!("br {t:?}"),
          };
          Inst::CondBr { c, t: edge(lab, a), f: edge(lab, b) }
        }
      },
      "switch" => {
        let t = self.ty(lx);
        let v = self.op1(cx, &t, lx);
        lx.expect(',');
        lx.eat_w("label");
        let d = match lx.next() {
          Tok::Local(b) => edge(lab, b),
          t => panic!("switch {t:?}"),
        };
        lx.expect('[');
        let mut cases = vec![];
        let mut map = HashMap::new();
        while !lx.eat(']') {
          let ct = self.ty(lx);
          let k = self.const_scalar(&ct, lx);
          lx.expect(',');
          lx.eat_w("label");
          match lx.next() {
            Tok::Local(b) => {
              map.insert(k, cases.len() as u32);
              cases.push((k, edge(lab, b)))
            },
            t => panic!("switch {t:?}"),
          }
        }
        Inst::Switch { w: t.bits(), v, default: d, cases: cases.into_boxed_slice(), map }
      },
      "unreachable" => Inst::Unreachable,
      "landingpad" | "resume" | "va_arg" | "indirectbr" | "callbr" | "catchswitch" | "cleanupret" => {
        Inst::Unsupported(format!("{op}"))
      },
      _ => panic!("IR: unknown op {op}: {}", lx.s),
    }
  }
}

fn params_count_label(cx: &FnCtx, _pi: usize) -> String {
  // The implicit entry label is the next unnamed number after the parameters.
  let mut n = 0u32;
  while cx.slots.contains_key(&n.to_string()) {
    n += 1;
  }
  n.to_string()
}

fn lane(t: &Ty) -> (u32, u32) {
  match t {
    Ty::Vec(n, e) => (e.bits(), *n),
    t => (t.bits(), 1),
  }
}

fn is_flag(w: &str) -> bool {
  matches!(
    w,
    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract"
      | "afn" | "reassoc"
  )
}

pub fn sext(v: u128, w: u32) -> i128 {
  if w >= 128 {
    return v as i128;
  }
  let s = 128 - w;
  ((v << s) as i128) >> s
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
  b[from..].iter().position(|x| *x == c).map(|p| p + from).unwrap_or(b.len())
}

fn find_fn_at(line: &str) -> usize {
  // The function name is the first `@` that is directly followed by name and `(`,
  // outside of parenthesised attribute groups.
  let b = line.as_bytes();
  let mut d = 0i32;
  let mut i = 0;
  while i < b.len() {
    match b[i] {
      b'(' => d += 1,
      b')' => d -= 1,
      b'@' if d == 0 => return i,
      b'"' => {
        i += 1;
        while b[i] != b'"' {
          i += 1
        }
      },
      _ => {},
    }
    i += 1;
  }
  panic!("no function name: {line}")
}

fn fn_name(line: &str) -> String {
  let at = find_fn_at(line);
  let mut lx = Lex::new(&line[at..]);
  match lx.next() {
    Tok::Global(n) => n.to_owned(),
    t => panic!("fn name {t:?}"),
  }
}
