//! Hash-consed bit-vector expressions.
//!
//! Symbolic inputs are variables; most are 8 bits wide.  Boolean expressions which depend on
//! a single 8-bit variable are normalised to `InSet(var, set)`.

use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, b: &[u8]) {
    for c in b {
      self.write_u64(*c as u64)
    }
  }
  fn write_u64(&mut self, v: u64) {
    self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
  }
  fn write_u8(&mut self, v: u8) {
    self.write_u64(v as u64)
  }
  fn write_u32(&mut self, v: u32) {
    self.write_u64(v as u64)
  }
  fn write_usize(&mut self, v: usize) {
    self.write_u64(v as u64)
  }
  fn write_u128(&mut self, v: u128) {
    self.write_u64(v as u64);
    self.write_u64((v >> 64) as u64)
  }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
  Const,
  Var,
  InSet,
  Add,
  Sub,
  Mul,
  UDiv,
  SDiv,
  URem,
  SRem,
  And,
  Or,
  Xor,
  Shl,
  LShr,
  AShr,
  Eq,
  Ult,
  Ule,
  Slt,
  Sle,
  Ite,
  Concat,
  Extract,
  ZExt,
  SExt,
  Table,
  UMulOv,
  SMulOv,
  /// The decimal digit of `a` at position `k`, as an ASCII character.
  Dec,
  /// A floating-point operation: `k` is the kind, and the width of the operands times 256.
  Fp,
}

pub const FP_ADD: u128 = 0;
pub const FP_SUB: u128 = 1;
pub const FP_MUL: u128 = 2;
pub const FP_DIV: u128 = 3;
pub const FP_EQ: u128 = 4;
pub const FP_LT: u128 = 5;
pub const FP_LE: u128 = 6;
pub const FP_UNO: u128 = 7;
/// Between floating-point formats.
pub const FP_CONV: u128 = 8;
/// From integers.
pub const FP_UINT: u128 = 9;
pub const FP_SINT: u128 = 10;
/// To integers, for values in range.
pub const FP_TO_UINT: u128 = 11;
pub const FP_TO_SINT: u128 = 12;
/// To integral values.
pub const FP_FLOOR: u128 = 13;
pub const FP_CEIL: u128 = 14;
pub const FP_TRUNC: u128 = 15;
pub const FP_ROUND: u128 = 16;
pub const FP_EVEN: u128 = 17;
pub const FP_SQRT: u128 = 18;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
  pub op: Op,
  pub w: u8,
  pub a: E,
  pub b: E,
  pub c: E,
  pub k: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
  pub sup: u128,
  pub lo: u128,
  pub hi: u128,
  /// Contains floating-point operations.
  pub fp: bool,
}

/// Where the values of floating-point operations start in a model.
pub const FP_BASE: usize = 128;
const NO_FP: u128 = u128::MAX;

pub type Set = [u64; 4];

pub fn set_has(s: &Set, i: usize) -> bool {
  s[i >> 6] >> (i & 63) & 1 == 1
}
pub fn set_and(a: &Set, b: &Set) -> Set {
  [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_or(a: &Set, b: &Set) -> Set {
  [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn set_not(a: &Set) -> Set {
  [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_xor(a: &Set, b: &Set) -> Set {
  [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]]
}
pub fn set_empty(a: &Set) -> bool {
  a.iter().all(|x| *x == 0)
}
pub fn set_iter(s: &Set) -> impl Iterator<Item = usize> + '_ {
  (0..256).filter(move |i| set_has(s, *i))
}
pub fn set_first(s: &Set) -> Option<usize> {
  for i in 0..4 {
    if s[i] != 0 {
      return Some(i * 64 + s[i].trailing_zeros() as usize);
    }
  }
  None
}

#[derive(Clone, Debug)]
pub struct Var {
  pub w: u32,
  /// Initial domain (byte variables only).
  pub dom: Set,
}

#[derive(Default)]
pub struct Arena {
  pub nodes: Vec<Node>,
  pub info: Vec<Info>,
  map: FxMap<Node, E>,
  pub vars: Vec<Var>,
  pub sets: Vec<Set>,
  set_map: FxMap<Set, u32>,
  pub tables: Vec<Rc<Vec<u128>>>,
  table_map: FxMap<Vec<u128>, u32>,
  byte_tables: FxMap<E, Rc<[u128; 256]>>,
  // evaluation scratch
  ev_stamp: Vec<u32>,
  ev_val: Vec<u128>,
  ev_cur: u32,
  /// Floating-point operations, numbered.  The values they have in a model follow those of the
  /// variables, unless they are computed.
  fp_index: FxMap<E, usize>,
}

/// State of one domain-aware rewriting pass.
struct Simp<'a> {
  memo: FxMap<E, E>,
  rng: FxMap<E, (u128, u128)>,
  doms: &'a [Set],
}


impl Arena {
  pub fn new() -> Arena {
    let mut a = Arena::default();
    // id 0 is reserved
    a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
    a.info.push(Info { sup: 0, lo: 0, hi: 0, fp: false });
    a
  }

  pub fn w(&self, e: E) -> u32 {
    self.nodes[e as usize].w as u32
  }
  pub fn sup(&self, e: E) -> u128 {
    self.info[e as usize].sup
  }
  pub fn has_fp(&self, e: E) -> bool {
    self.info[e as usize].fp
  }
  /// Put the value of a variable, or of a floating-point operation, into a model.
  pub fn assign(m: &mut Vec<u128>, v: usize, x: u128) {
    if m.len() <= v {
      m.resize(v + 1, NO_FP);
    }
    m[v] = x;
  }
  /// The floating-point operations in expressions, with their positions in a model.
  pub fn fp_nodes(&self, es: &[E]) -> Vec<(E, usize)> {
    let mut seen: FxMap<E, ()> = Default::default();
    let mut work: Vec<E> = es.to_vec();
    let mut out = vec![];
    while let Some(e) = work.pop() {
      if !self.has_fp(e) || seen.insert(e, ()).is_some() {
        continue;
      }
      let n = &self.nodes[e as usize];
      if n.op == Op::Fp {
        out.push((e, FP_BASE + self.fp_index[&e]));
      }
      match n.op {
        Op::Ite => work.extend([n.a, n.b, n.c]),
        Op::Extract | Op::ZExt | Op::SExt | Op::Table | Op::Dec => work.push(n.a),
        _ => work.extend([n.a, n.b]),
      }
    }
    out
  }
  pub fn is_const(&self, e: E) -> Option<u128> {
    let n = &self.nodes[e as usize];
    if n.op == Op::Const {
      Some(n.k)
    } else {
      None
    }
  }

  pub fn set_id(&mut self, s: Set) -> u32 {
    if let Some(&i) = self.set_map.get(&s) {
      return i;
    }
    let i = self.sets.len() as u32;
    self.sets.push(s);
    self.set_map.insert(s, i);
    i
  }

  fn raw(&mut self, n: Node) -> E {
    if let Some(&e) = self.map.get(&n) {
      return e;
    }
    let e = self.nodes.len() as E;
    let info = self.compute_info(&n);
    self.nodes.push(n);
    self.info.push(info);
    self.map.insert(n, e);
    e
  }

  fn compute_info(&self, n: &Node) -> Info {
    let m = mask(n.w as u32);
    let i = |e: E| self.info[e as usize];
    let sup = match n.op {
      Op::Const => 0,
      Op::Var | Op::InSet => 1u128 << (if n.op == Op::Var { n.k } else { n.a as u128 }),
      Op::Ite => i(n.a).sup | i(n.b).sup | i(n.c).sup,
      Op::Extract | Op::ZExt | Op::SExt | Op::Table | Op::Dec => i(n.a).sup,
      _ => i(n.a).sup | i(n.b).sup,
    };
    let (lo, hi) = match n.op {
      Op::Const => (n.k, n.k),
      Op::Var => {
        let v = &self.vars[n.k as usize];
        if v.w == 8 {
          let mut lo = 255;
          let mut hi = 0;
          for x in set_iter(&v.dom) {
            lo = lo.min(x as u128);
            hi = hi.max(x as u128);
          }
          (lo.min(hi), hi)
        } else {
          (0, m)
        }
      },
      Op::Add => {
        let (a, b) = (i(n.a), i(n.b));
        match a.hi.checked_add(b.hi) {
          Some(h) if h <= m => (a.lo + b.lo, h),
          _ => (0, m),
        }
      },
      Op::Sub => {
        let (a, b) = (i(n.a), i(n.b));
        if a.lo >= b.hi {
          (a.lo - b.hi, a.hi - b.lo)
        } else {
          (0, m)
        }
      },
      Op::Mul => {
        let (a, b) = (i(n.a), i(n.b));
        match a.hi.checked_mul(b.hi) {
          Some(h) if h <= m => (a.lo * b.lo, h),
          _ => (0, m),
        }
      },
      Op::UDiv => {
        let (a, b) = (i(n.a), i(n.b));
        if b.lo > 0 {
          (a.lo / b.hi, a.hi / b.lo)
        } else {
          (0, m)
        }
      },
      Op::URem => {
        let (a, b) = (i(n.a), i(n.b));
        if b.lo > 0 {
          if a.hi < b.lo {
            (a.lo, a.hi)
          } else {
            (0, (b.hi - 1).min(a.hi))
          }
        } else {
          (0, m)
        }
      },
      Op::And => {
        let (a, b) = (i(n.a), i(n.b));
        (0, a.hi.min(b.hi))
      },
      Op::Or => {
        let (a, b) = (i(n.a), i(n.b));
        let h = a.hi | b.hi;
        let bits = 128 - h.leading_zeros();
        (a.lo.max(b.lo), mask(bits))
      },
      Op::Xor => {
        let (a, b) = (i(n.a), i(n.b));
        let h = a.hi | b.hi;
        (0, mask(128 - h.leading_zeros()))
      },
      Op::Shl => {
        let (a, b) = (i(n.a), i(n.b));
        if b.lo == b.hi && b.lo < 128 {
          let h = a.hi << b.lo;
          if h >> b.lo == a.hi && h <= m {
            (a.lo << b.lo, h)
          } else {
            (0, m)
          }
        } else {
          (0, m)
        }
      },
      Op::LShr => {
        let (a, b) = (i(n.a), i(n.b));
        if b.lo == b.hi && b.lo < 128 {
          (a.lo >> b.lo, a.hi >> b.lo)
        } else {
          (0, a.hi)
        }
      },
      Op::Ite => {
        let (a, b) = (i(n.b), i(n.c));
        (a.lo.min(b.lo), a.hi.max(b.hi))
      },
      Op::Concat => {
        let (a, b) = (i(n.a), i(n.b));
        let bw = self.nodes[n.b as usize].w;
        ((a.lo << bw) | b.lo, (a.hi << bw) | b.hi)
      },
      Op::Extract => {
        let a = i(n.a);
        let k = n.k as u32;
        // exact only if the high part is constant
        if (a.hi >> k) <= m {
          (a.lo >> k, a.hi >> k)
        } else {
          (0, m)
        }
      },
      Op::ZExt => (i(n.a).lo, i(n.a).hi),
      Op::Dec => (48, 57),
      Op::Table => {
        let t = &self.tables[n.k as usize];
        let a = i(n.a);
        let (s, e) = (a.lo as usize, (a.hi as usize).min(t.len() - 1));
        let mut lo = u128::MAX;
        let mut hi = 0;
        for x in &t[s.min(e)..=e] {
          lo = lo.min(*x);
          hi = hi.max(*x);
        }
        (lo, hi)
      },
      _ => (0, m),
    };
    let fp = match n.op {
      Op::Const | Op::Var | Op::InSet => false,
      Op::Fp => true,
      Op::Ite => i(n.a).fp || i(n.b).fp || i(n.c).fp,
      Op::Extract | Op::ZExt | Op::SExt | Op::Table | Op::Dec => i(n.a).fp,
      _ => i(n.a).fp || i(n.b).fp,
    };
    Info { sup, lo, hi, fp }
  }

  pub fn konst(&mut self, k: u128, w: u32) -> E {
    self.raw(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: k & mask(w) })
  }
  pub fn tru(&mut self) -> E {
    self.konst(1, 1)
  }
  pub fn fals(&mut self) -> E {
    self.konst(0, 1)
  }
  pub fn bool(&mut self, b: bool) -> E {
    self.konst(b as u128, 1)
  }

  pub fn new_var(&mut self, w: u32, dom: Set) -> E {
    let id = self.vars.len();
    self.vars.push(Var { w, dom });
    self.var_expr(id)
  }
  pub fn var_expr(&mut self, id: usize) -> E {
    let w = self.vars[id].w;
    self.raw(Node { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, k: id as u128 })
  }

  /// The single byte variable this expression depends on.
  pub fn single_byte(&self, e: E) -> Option<usize> {
    let s = self.sup(e);
    if s.count_ones() == 1 {
      let v = s.trailing_zeros() as usize;
      if self.vars[v].w == 8 {
        return Some(v);
      }
    }
    None
  }

  pub fn in_set(&mut self, var: usize, s: Set) -> E {
    let dom = self.vars[var].dom;
    let s = set_and(&s, &dom);
    if set_empty(&s) {
      return self.fals();
    }
    if s == dom {
      return self.tru();
    }
    let id = self.set_id(s);
    self.raw(Node { op: Op::InSet, w: 1, a: var as E, b: 0, c: 0, k: id as u128 })
  }

  pub fn as_in_set(&self, e: E) -> Option<(usize, Set)> {
    let n = &self.nodes[e as usize];
    if n.op == Op::InSet {
      Some((n.a as usize, self.sets[n.k as usize]))
    } else {
      None
    }
  }

  /// Value of a single-byte expression for every value of its variable.
  pub fn byte_table(&mut self, e: E) -> Rc<[u128; 256]> {
    if let Some(t) = self.byte_tables.get(&e) {
      return t.clone();
    }
    let n = self.nodes[e as usize];
    let mut r = [0u128; 256];
    match n.op {
      Op::Const => r = [n.k; 256],
      Op::Var => {
        for (i, x) in r.iter_mut().enumerate() {
          *x = i as u128
        }
      },
      Op::InSet => {
        let s = self.sets[n.k as usize];
        for (i, x) in r.iter_mut().enumerate() {
          *x = set_has(&s, i) as u128
        }
      },
      Op::Ite => {
        let c = self.byte_table(n.a);
        let a = self.byte_table(n.b);
        let b = self.byte_table(n.c);
        for i in 0..256 {
          r[i] = if c[i] & 1 == 1 { a[i] } else { b[i] }
        }
      },
      Op::Extract | Op::ZExt | Op::SExt | Op::Table | Op::Dec => {
        let a = self.byte_table(n.a);
        let aw = self.w(n.a);
        for i in 0..256 {
          r[i] = self.apply(&n, a[i], 0, 0, aw, 0);
        }
      },
      _ => {
        let a = self.byte_table(n.a);
        let b = self.byte_table(n.b);
        let (aw, bw) = (self.w(n.a), self.w(n.b));
        for i in 0..256 {
          r[i] = self.apply(&n, a[i], b[i], 0, aw, bw);
        }
      },
    }
    let t = Rc::new(r);
    if n.op != Op::Const {
      if self.byte_tables.len() > 20000 {
        self.byte_tables.clear();
      }
      self.byte_tables.insert(e, t.clone());
    }
    t
  }

  /// Apply the operator to concrete operands.
  fn apply(&self, n: &Node, a: u128, b: u128, c: u128, aw: u32, bw: u32) -> u128 {
    let w = n.w as u32;
    match n.op {
      Op::Const => n.k,
      Op::Var | Op::InSet => unreachable!(),
      Op::Ite => {
        if a & 1 == 1 {
          b
        } else {
          c
        }
      },
      Op::Concat => (a << bw) | b,
      Op::Extract => (a >> n.k as u32) & mask(w),
      Op::ZExt => a,
      Op::Dec => (a / 10u128.pow(n.k as u32)) % 10 + 48,
      Op::SExt => (sext(a, aw) as u128) & mask(w),
      Op::Fp => fp_concrete(n.k & 255, (n.k >> 8) as u32, w, a, b),
      Op::Table => {
        let t = &self.tables[n.k as usize];
        t.get(a as usize).copied().unwrap_or(0)
      },
      op => bin_concrete(op, a, b, if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulOv | Op::SMulOv) { aw } else { w }),
    }
  }

  pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
    self.ev_cur += 1;
    if self.ev_stamp.len() < self.nodes.len() {
      let n = self.nodes.len() + 1024;
      self.ev_stamp.resize(n, 0);
      self.ev_val.resize(n, 0);
    }
    self.ev(e, model)
  }

  fn ev(&mut self, e: E, model: &[u128]) -> u128 {
    let n = self.nodes[e as usize];
    match n.op {
      Op::Const => return n.k,
      Op::Var => return model.get(n.k as usize).copied().unwrap_or(0),
      Op::InSet => {
        let v = model.get(n.a as usize).copied().unwrap_or(0);
        return set_has(&self.sets[n.k as usize], v as usize & 255) as u128;
      },
      _ => {},
    }
    if self.ev_stamp[e as usize] == self.ev_cur {
      return self.ev_val[e as usize];
    }
    let given = if n.op == Op::Fp { self.fp_index.get(&e).and_then(|i| model.get(FP_BASE + i)).copied().unwrap_or(NO_FP) } else { NO_FP };
    let r = match n.op {
      Op::Fp if given != NO_FP => given,
      Op::Ite => {
        if self.ev(n.a, model) & 1 == 1 {
          self.ev(n.b, model)
        } else {
          self.ev(n.c, model)
        }
      },
      Op::Extract | Op::ZExt | Op::SExt | Op::Table | Op::Dec => {
        let a = self.ev(n.a, model);
        let aw = self.w(n.a);
        self.apply(&n, a, 0, 0, aw, 0)
      },
      _ => {
        let a = self.ev(n.a, model);
        let b = self.ev(n.b, model);
        let (aw, bw) = (self.w(n.a), self.w(n.b));
        self.apply(&n, a, b, 0, aw, bw)
      },
    };
    self.ev_stamp[e as usize] = self.ev_cur;
    self.ev_val[e as usize] = r;
    r
  }

  /// Finish construction: normalise single-byte booleans.
  fn fin(&mut self, n: Node) -> E {
    if n.w == 1 {
      if let Some(&e) = self.map.get(&n) {
        // may have been normalised before
        if let Some(v) = self.single_byte(e) {
          return self.norm_bool(e, v);
        }
        return e;
      }
      let e = self.raw(n);
      if let Some(v) = self.single_byte(e) {
        return self.norm_bool(e, v);
      }
      let i = self.info[e as usize];
      if i.lo == i.hi {
        return self.konst(i.lo, 1);
      }
      return e;
    }
    let e = self.raw(n);
    let i = self.info[e as usize];
    if i.lo == i.hi {
      return self.konst(i.lo, n.w as u32);
    }
    e
  }

  fn norm_bool(&mut self, e: E, v: usize) -> E {
    if matches!(self.nodes[e as usize].op, Op::InSet | Op::Const) {
      return e;
    }
    let t = self.byte_table(e);
    let mut s = [0u64; 4];
    for i in 0..256 {
      if t[i] & 1 == 1 {
        s[i >> 6] |= 1 << (i & 63)
      }
    }
    self.in_set(v, s)
  }

  pub fn not(&mut self, e: E) -> E {
    if let Some(k) = self.is_const(e) {
      return self.konst(k ^ 1, 1);
    }
    if let Some((v, s)) = self.as_in_set(e) {
      return self.in_set(v, set_not(&s));
    }
    let n = self.nodes[e as usize];
    if n.op == Op::Xor && n.w == 1 {
      if self.is_const(n.b) == Some(1) {
        return n.a;
      }
    }
    let t = self.tru();
    self.raw(Node { op: Op::Xor, w: 1, a: e, b: t, c: 0, k: 0 })
  }

  pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
    let aw = self.w(a);
    let bw = self.w(b);
    let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulOv | Op::SMulOv);
    let rw = if cmp {
      1
    } else if op == Op::Concat {
      aw + bw
    } else {
      aw
    };
    debug_assert!(op == Op::Concat || aw == bw, "width mismatch {op:?} {aw} {bw}");
    let (ka, kb) = (self.is_const(a), self.is_const(b));
    if let (Some(x), Some(y)) = (ka, kb) {
      let r = if op == Op::Concat { (x << bw) | y } else { bin_concrete(op, x, y, aw) };
      return self.konst(r, rw);
    }
    let (mut a, mut b, mut ka, mut kb) = (a, b, ka, kb);
    // canonical: constant on the right for commutative operators
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
      if ka.is_some() || (kb.is_none() && a > b) {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut ka, &mut kb);
      }
    }
    let m = mask(aw);
    let na = self.nodes[a as usize];
    let nb = self.nodes[b as usize];
    // the sign of -x
    if op == Op::Slt && kb == Some(0) {
      if let Some(x) = self.negated(a) {
        let z = self.konst(0, aw);
        let zero = self.bin(Op::Eq, x, z);
        return self.not(zero);
      }
    }
    // signs out of divisions: -x / y = -(x / y), -x % y = -(x % y), x % -y = x % y
    if matches!(op, Op::SDiv | Op::SRem) {
      if let Some(x) = self.negated(a) {
        let r = self.bin(op, x, b);
        let z = self.konst(0, aw);
        return self.bin(Op::Sub, z, r);
      }
      if let Some(y) = self.negated(b) {
        let r = self.bin(op, a, y);
        let z = self.konst(0, aw);
        return if op == Op::SRem { r } else { self.bin(Op::Sub, z, r) };
      }
    }
    match op {
      Op::Add => {
        if kb == Some(0) {
          return a;
        }
        if let Some(k) = kb {
          if na.op == Op::Add {
            if let Some(k2) = self.is_const(na.b) {
              let kk = self.konst(k.wrapping_add(k2), aw);
              return self.bin(Op::Add, na.a, kk);
            }
          }
          if na.op == Op::Ite {
            if let Some(r) = self.push_ite(op, a, b) {
              return r;
            }
          }
        }
      },
      Op::Sub => {
        if kb == Some(0) {
          return a;
        }
        if a == b {
          return self.konst(0, aw);
        }
        if ka == Some(0) && nb.op == Op::Sub && self.is_const(nb.a) == Some(0) {
          return nb.b;
        }
        if let Some(k) = kb {
          let kk = self.konst(k.wrapping_neg(), aw);
          return self.bin(Op::Add, a, kk);
        }
      },
      Op::Mul => {
        if kb == Some(0) {
          return b;
        }
        if kb == Some(1) {
          return a;
        }
        if na.op == Op::Ite {
          if let Some(r) = self.push_ite(op, a, b) {
            return r;
          }
        }
      },
      Op::UDiv | Op::SDiv | Op::SRem if self.narrow_width(a, b, aw, op).is_some() || kb == Some(1) && op != Op::SRem => {
        if kb == Some(1) && op != Op::SRem {
          return a;
        }
        return self.narrow(op, a, b);
      },
      Op::URem => {
        if self.narrow_width(a, b, aw, op).is_some() {
          return self.narrow(op, a, b);
        }
        if kb == Some(1) {
          return self.konst(0, aw);
        }
        if let Some(k) = kb {
          if k > 0 && self.info[a as usize].hi < k {
            return a;
          }
        }
      },
      Op::And => {
        if kb == Some(0) {
          return b;
        }
        if kb == Some(m) || a == b {
          return a;
        }
        if let Some(k) = kb {
          // low mask covering the whole range
          if (k + 1).is_power_of_two() && self.info[a as usize].hi <= k {
            return a;
          }
          // pure low mask -> zext(extract)
          if (k + 1).is_power_of_two() && aw > 1 {
            let bits = k.trailing_ones();
            if bits < aw {
              let x = self.extract(a, 0, bits);
              return self.zext(x, aw);
            }
          }
          if na.op == Op::And {
            if let Some(k2) = self.is_const(na.b) {
              let kk = self.konst(k & k2, aw);
              return self.bin(Op::And, na.a, kk);
            }
          }
          if na.op == Op::Ite {
            if let Some(r) = self.push_ite(op, a, b) {
              return r;
            }
          }
        }
        if aw == 1 {
          if let (Some((v, s)), Some((v2, s2))) = (self.as_in_set(a), self.as_in_set(b)) {
            if v == v2 {
              return self.in_set(v, set_and(&s, &s2));
            }
          }
        }
      },
      Op::Or => {
        if kb == Some(0) || a == b {
          return a;
        }
        if kb == Some(m) {
          return b;
        }
        if aw == 1 {
          if let (Some((v, s)), Some((v2, s2))) = (self.as_in_set(a), self.as_in_set(b)) {
            if v == v2 {
              return self.in_set(v, set_or(&s, &s2));
            }
          }
        } else if kb.is_none() {
          // zext(lo) | shl(x, n): build a concat
          if let Some(r) = self.or_concat(a, b) {
            return r;
          }
          if let Some(r) = self.or_concat(b, a) {
            return r;
          }
        }
      },
      Op::Xor => {
        if kb == Some(0) {
          return a;
        }
        if a == b {
          return self.konst(0, aw);
        }
        if aw == 1 {
          if kb == Some(1) {
            return self.not(a);
          }
          if let (Some((v, s)), Some((v2, s2))) = (self.as_in_set(a), self.as_in_set(b)) {
            if v == v2 {
              return self.in_set(v, set_xor(&s, &s2));
            }
          }
        }
      },
      Op::Shl => {
        if let Some(k) = kb {
          if k == 0 {
            return a;
          }
          if k >= aw as u128 {
            return self.konst(0, aw);
          }
          let k = k as u32;
          let lo = self.extract(a, 0, aw - k);
          let z = self.konst(0, k);
          return self.bin(Op::Concat, lo, z);
        }
        if ka == Some(0) {
          return a;
        }
      },
      Op::LShr => {
        if let Some(k) = kb {
          if k == 0 {
            return a;
          }
          if k >= aw as u128 {
            return self.konst(0, aw);
          }
          let k = k as u32;
          let hi = self.extract(a, k, aw - k);
          return self.zext(hi, aw);
        }
        if ka == Some(0) {
          return a;
        }
      },
      Op::AShr => {
        if let Some(k) = kb {
          if k == 0 {
            return a;
          }
          if self.info[a as usize].hi < 1u128 << (aw - 1) {
            return self.bin(Op::LShr, a, b);
          }
        }
      },
      Op::Eq => {
        if a == b {
          return self.tru();
        }
        if na.op == Op::Dec && nb.op == Op::Dec && na.k == nb.k {
          // the same digit of two numbers, most likely the same number
          let w = self.w(na.a).max(self.w(nb.a));
          let (x, y) = (self.zext(na.a, w), self.zext(nb.a, w));
          let same = self.bin(Op::Eq, x, y);
          if self.is_const(same) == Some(1) {
            return same;
          }
          let digit = self.fin(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 });
          return self.bin(Op::Or, same, digit);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < ib.lo || ib.hi < ia.lo {
          return self.fals();
        }
        if aw == 1 {
          if let Some(k) = kb {
            return if k == 1 { a } else { self.not(a) };
          }
        }
        if let Some(k) = kb {
          match na.op {
            Op::ZExt => {
              let iw = self.w(na.a);
              if k > mask(iw) {
                return self.fals();
              }
              let kk = self.konst(k, iw);
              return self.bin(Op::Eq, na.a, kk);
            },
            Op::SExt => {
              let iw = self.w(na.a);
              if (sext(k, iw) as u128) & m != k {
                return self.fals();
              }
              let kk = self.konst(k, iw);
              return self.bin(Op::Eq, na.a, kk);
            },
            Op::Concat => {
              let lw = self.w(na.b);
              let hw = self.w(na.a);
              let kh = self.konst(k >> lw, hw);
              let kl = self.konst(k, lw);
              let x = self.bin(Op::Eq, na.a, kh);
              if self.is_const(x) == Some(0) {
                return x;
              }
              let y = self.bin(Op::Eq, na.b, kl);
              return self.bin(Op::And, x, y);
            },
            Op::Add => {
              if let Some(k2) = self.is_const(na.b) {
                let kk = self.konst(k.wrapping_sub(k2), aw);
                return self.bin(Op::Eq, na.a, kk);
              }
            },
            Op::Xor => {
              if let Some(k2) = self.is_const(na.b) {
                let kk = self.konst(k ^ k2, aw);
                return self.bin(Op::Eq, na.a, kk);
              }
              if k == 0 {
                return self.bin(Op::Eq, na.a, na.b);
              }
            },
            Op::Or if k == 0 => {
              let z = self.konst(0, aw);
              let x = self.bin(Op::Eq, na.a, z);
              let y = self.bin(Op::Eq, na.b, z);
              return self.bin(Op::And, x, y);
            },
            Op::Ite => {
              let (kb1, kb2) = (self.is_const(na.b), self.is_const(na.c));
              if kb1.is_some() || kb2.is_some() {
                let x = self.bin(Op::Eq, na.b, b);
                let y = self.bin(Op::Eq, na.c, b);
                return self.ite(na.a, x, y);
              }
            },
            _ => {},
          }
        } else if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
          return self.bin(Op::Eq, na.a, nb.a);
        } else if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
          let x = self.bin(Op::Eq, na.a, nb.a);
          let y = self.bin(Op::Eq, na.b, nb.b);
          return self.bin(Op::And, x, y);
        }
      },
      Op::Ult | Op::Ule => {
        if a == b {
          return self.bool(op == Op::Ule);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let strict = op == Op::Ult;
        if (strict && ia.hi < ib.lo) || (!strict && ia.hi <= ib.lo) {
          return self.tru();
        }
        if (strict && ia.lo >= ib.hi) || (!strict && ia.lo > ib.hi) {
          return self.fals();
        }
        if na.op == Op::ZExt && kb.is_some() {
          let iw = self.w(na.a);
          if kb.unwrap() <= mask(iw) {
            let kk = self.konst(kb.unwrap(), iw);
            return self.bin(op, na.a, kk);
          }
        }
        if nb.op == Op::ZExt && ka.is_some() {
          let iw = self.w(nb.a);
          if ka.unwrap() <= mask(iw) {
            let kk = self.konst(ka.unwrap(), iw);
            return self.bin(op, kk, nb.a);
          }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
          return self.bin(op, na.a, nb.a);
        }
        if aw == 1 {
          let nota = self.not(a);
          return if strict { self.bin(Op::And, nota, b) } else { self.bin(Op::Or, nota, b) };
        }
      },
      Op::Slt | Op::Sle => {
        if a == b {
          return self.bool(op == Op::Sle);
        }
        let sb = 1u128 << (aw - 1);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        // both in the same half: unsigned comparison
        let half = |i: &Info| {
          if i.hi < sb {
            Some(false)
          } else if i.lo >= sb {
            Some(true)
          } else {
            None
          }
        };
        match (half(&ia), half(&ib)) {
          (Some(x), Some(y)) if x == y => {
            return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
          },
          (Some(x), Some(_)) => return self.bool(x),
          _ => {},
        }
        if na.op == Op::SExt && kb.is_some() {
          let iw = self.w(na.a);
          let k = kb.unwrap();
          if (sext(k, iw) as u128) & m == k {
            let kk = self.konst(k, iw);
            return self.bin(op, na.a, kk);
          }
        }
      },
      Op::UMulOv => {
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi.checked_mul(ib.hi).map_or(false, |h| h <= m) {
          return self.fals();
        }
        if let Some(k) = kb {
          if k == 0 {
            return self.fals();
          }
          let kk = self.konst(m / k, aw);
          return self.bin(Op::Ult, kk, a);
        }
        if let Some(k) = ka {
          if k == 0 {
            return self.fals();
          }
          let kk = self.konst(m / k, aw);
          return self.bin(Op::Ult, kk, b);
        }
      },
      Op::SMulOv => {
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let smax = m >> 1;
        if ia.hi <= smax && ib.hi <= smax && ia.hi.checked_mul(ib.hi).map_or(false, |h| h <= smax) {
          return self.fals();
        }
        let (x, k) = if let Some(k) = kb {
          (a, Some(k))
        } else {
          (b, ka)
        };
        if let Some(k) = k {
          let ks = sext(k, aw);
          if ks == 0 {
            return self.fals();
          }
          if ks > 0 {
            let max = smax as i128;
            let min = -max - 1;
            let hi = self.konst((max / ks) as u128, aw);
            let lo = self.konst((min / ks) as u128, aw);
            let c1 = self.bin(Op::Slt, hi, x);
            let c2 = self.bin(Op::Slt, x, lo);
            return self.bin(Op::Or, c1, c2);
          }
        }
      },
      Op::Concat => {
        // adjacent extracts of the same expression
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + bw as u128 {
          return self.extract(na.a, nb.k as u32, aw + bw);
        }
        if ka == Some(0) {
          return self.zext(b, rw);
        }
        // the whole of an expression whose lower part was simplified
        if na.op == Op::Extract && na.k == bw as u128 && self.w(na.a) == rw && self.extract(na.a, 0, bw) == b {
          return na.a;
        }
        // (x ++ e[hi]) ++ e[lo]
        if na.op == Op::Concat && nb.op == Op::Extract {
          let n2 = self.nodes[na.b as usize];
          if n2.op == Op::Extract && n2.a == nb.a && n2.k == nb.k + bw as u128 {
            let lo = self.extract(nb.a, nb.k as u32, n2.w as u32 + bw);
            return self.bin(Op::Concat, na.a, lo);
          }
        }
        if na.op == Op::ZExt && ka.is_none() {
          let x = self.bin(Op::Concat, na.a, b);
          return self.zext(x, rw);
        }
        if let Some(k2) = kb {
          if na.op == Op::Concat {
            if let Some(k1) = self.is_const(na.b) {
              let lw = self.w(na.b);
              let kk = self.konst((k1 << bw) | k2, lw + bw);
              return self.bin(Op::Concat, na.a, kk);
            }
          }
        }
      },
      _ => {},
    }
    self.fin(Node { op, w: rw as u8, a, b, c: 0, k: 0 })
  }

  pub fn as_ite(&self, e: E) -> Option<(E, E, E)> {
    let n = self.nodes[e as usize];
    (n.op == Op::Ite).then_some((n.a, n.b, n.c))
  }

  /// `x` of `-x` for a number `x` which is not negative.
  fn negated(&self, e: E) -> Option<E> {
    let n = self.nodes[e as usize];
    let w = n.w as u32;
    let ok = n.op == Op::Sub && self.is_const(n.a) == Some(0) && self.info[n.b as usize].hi < 1u128 << (w - 1);
    ok.then_some(n.b)
  }

  /// The width in which a division of numbers as small as these gives the same result.
  fn narrow_width(&self, a: E, b: E, w: u32, op: Op) -> Option<u32> {
    let hi = self.info[a as usize].hi.max(self.info[b as usize].hi);
    let signed = matches!(op, Op::SDiv | Op::SRem);
    match [8, 16, 32, 64].into_iter().find(|k| hi <= mask(*k)) {
      Some(k) if k < w => Some(k),
      _ if signed && hi < 1u128 << (w - 1) => Some(w),
      _ => None,
    }
  }

  fn narrow(&mut self, op: Op, a: E, b: E) -> E {
    let w = self.w(a);
    let k = self.narrow_width(a, b, w, op).unwrap();
    let op = match op {
      Op::SDiv => Op::UDiv,
      Op::SRem => Op::URem,
      op => op,
    };
    let (a, b) = (self.extract(a, 0, k), self.extract(b, 0, k));
    let r = self.bin(op, a, b);
    self.zext(r, w)
  }

  fn push_ite(&mut self, op: Op, a: E, b: E) -> Option<E> {
    let na = self.nodes[a as usize];
    self.is_const(na.b)?;
    self.is_const(na.c)?;
    let x = self.bin(op, na.b, b);
    let y = self.bin(op, na.c, b);
    Some(self.ite(na.a, x, y))
  }

  fn or_concat(&mut self, hi: E, lo: E) -> Option<E> {
    // hi = concat(x, 0_n) (possibly zero-extended), lo fits in n bits
    let w = self.w(hi);
    let (mut h, mut hw) = (hi, w);
    let n = self.nodes[h as usize];
    if n.op == Op::ZExt {
      h = n.a;
      hw = self.w(h);
    }
    let n = self.nodes[h as usize];
    if n.op != Op::Concat {
      return None;
    }
    if self.is_const(n.b)? != 0 {
      return None;
    }
    let lw = self.w(n.b);
    if self.info[lo as usize].hi > mask(lw) {
      return None;
    }
    let l = self.extract(lo, 0, lw);
    let r = self.bin(Op::Concat, n.a, l);
    let _ = &mut hw;
    Some(self.zext(r, w))
  }

  pub fn ite(&mut self, c: E, a: E, b: E) -> E {
    if let Some(k) = self.is_const(c) {
      return if k & 1 == 1 { a } else { b };
    }
    if a == b {
      return a;
    }
    let w = self.w(a);
    let (ka, kb) = (self.is_const(a), self.is_const(b));
    if w == 1 {
      match (ka, kb) {
        (Some(1), Some(0)) => return c,
        (Some(0), Some(1)) => return self.not(c),
        (Some(1), None) => return self.bin(Op::Or, c, b),
        (Some(0), None) => {
          let n = self.not(c);
          return self.bin(Op::And, n, b);
        },
        (None, Some(0)) => return self.bin(Op::And, c, a),
        (None, Some(1)) => {
          let n = self.not(c);
          return self.bin(Op::Or, n, a);
        },
        _ => {},
      }
    }
    // nested with the same condition
    let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
    if na.op == Op::Ite && na.a == c {
      return self.ite(c, na.b, b);
    }
    if nb.op == Op::Ite && nb.a == c {
      return self.ite(c, a, nb.c);
    }
    self.fin(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 })
  }

  pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
    let ew = self.w(e);
    if lo == 0 && w == ew {
      return e;
    }
    debug_assert!(lo + w <= ew, "extract {lo}+{w} of {ew}");
    let n = self.nodes[e as usize];
    match n.op {
      Op::Const => return self.konst(n.k >> lo, w),
      Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
      Op::ZExt => {
        let iw = self.w(n.a);
        if lo >= iw {
          return self.konst(0, w);
        }
        if lo + w <= iw {
          return self.extract(n.a, lo, w);
        }
        let x = self.extract(n.a, lo, iw - lo);
        return self.zext(x, w);
      },
      Op::SExt => {
        let iw = self.w(n.a);
        if lo + w <= iw {
          return self.extract(n.a, lo, w);
        }
        if lo == 0 && w > iw {
          return self.sext(n.a, w);
        }
      },
      Op::Concat => {
        let lw = self.w(n.b);
        if lo >= lw {
          return self.extract(n.a, lo - lw, w);
        }
        if lo + w <= lw {
          return self.extract(n.b, lo, w);
        }
        let l = self.extract(n.b, lo, lw - lo);
        let h = self.extract(n.a, 0, lo + w - lw);
        return self.bin(Op::Concat, h, l);
      },
      Op::Ite => {
        if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() || lo > 0 {
          let a = self.extract(n.b, lo, w);
          let b = self.extract(n.c, lo, w);
          return self.ite(n.a, a, b);
        }
      },
      Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor if lo == 0 => {
        if matches!(n.op, Op::And | Op::Or | Op::Xor) || w <= 64 {
          let a = self.extract(n.a, 0, w);
          let b = self.extract(n.b, 0, w);
          return self.bin(n.op, a, b);
        }
      },
      Op::And | Op::Or | Op::Xor => {
        let a = self.extract(n.a, lo, w);
        let b = self.extract(n.b, lo, w);
        return self.bin(n.op, a, b);
      },
      Op::Table => {
        let t = self.tables[n.k as usize].clone();
        let v: Vec<u128> = t.iter().map(|x| (x >> lo) & mask(w)).collect();
        return self.table(n.a, v, w);
      },
      _ => {},
    }
    if self.info[e as usize].hi >> lo == 0 {
      return self.konst(0, w);
    }
    self.fin(Node { op: Op::Extract, w: w as u8, a: e, b: 0, c: 0, k: lo as u128 })
  }

  pub fn zext(&mut self, e: E, w: u32) -> E {
    let ew = self.w(e);
    if ew == w {
      return e;
    }
    debug_assert!(w > ew);
    let n = self.nodes[e as usize];
    match n.op {
      Op::Const => return self.konst(n.k, w),
      Op::ZExt => return self.zext(n.a, w),
      Op::Table => {
        let t = self.tables[n.k as usize].clone();
        return self.table(n.a, t.to_vec(), w);
      },
      Op::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
        let a = self.zext(n.b, w);
        let b = self.zext(n.c, w);
        return self.ite(n.a, a, b);
      },
      _ => {},
    }
    self.fin(Node { op: Op::ZExt, w: w as u8, a: e, b: 0, c: 0, k: 0 })
  }

  pub fn sext(&mut self, e: E, w: u32) -> E {
    let ew = self.w(e);
    if ew == w {
      return e;
    }
    let n = self.nodes[e as usize];
    match n.op {
      Op::Const => return self.konst(sext(n.k, ew) as u128, w),
      Op::SExt => return self.sext(n.a, w),
      Op::ZExt => return self.zext(n.a, w),
      Op::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
        let a = self.sext(n.b, w);
        let b = self.sext(n.c, w);
        return self.ite(n.a, a, b);
      },
      _ => {},
    }
    if ew > 1 && self.info[e as usize].hi < 1u128 << (ew - 1) {
      return self.zext(e, w);
    }
    if ew == 1 {
      let a = self.konst(u128::MAX, w);
      let b = self.konst(0, w);
      return self.ite(e, a, b);
    }
    self.fin(Node { op: Op::SExt, w: w as u8, a: e, b: 0, c: 0, k: 0 })
  }

  /// Lookup table; indices beyond the table yield 0 (callers guarantee the range).
  pub fn table(&mut self, idx: E, t: Vec<u128>, w: u32) -> E {
    if let Some(k) = self.is_const(idx) {
      let v = t.get(k as usize).copied().unwrap_or(0);
      return self.konst(v, w);
    }
    let i = self.info[idx as usize];
    let lo = i.lo as usize;
    let hi = (i.hi.min(t.len() as u128 - 1)) as usize;
    if lo <= hi && t[lo..=hi].iter().all(|x| *x == t[lo]) {
      return self.konst(t[lo], w);
    }
    let id = if let Some(&id) = self.table_map.get(&t) {
      id
    } else {
      let id = self.tables.len() as u32;
      self.tables.push(Rc::new(t.clone()));
      self.table_map.insert(t, id);
      id
    };
    self.fin(Node { op: Op::Table, w: w as u8, a: idx, b: 0, c: 0, k: id as u128 })
  }

  pub fn dec(&mut self, a: E, k: u32) -> E {
    if let Some(x) = self.is_const(a) {
      return self.konst((x / 10u128.pow(k)) % 10 + 48, 8);
    }
    let hi = self.info[a as usize].hi;
    if 10u128.pow(k) > hi {
      return self.konst(48, 8);
    }
    let w = [8, 16, 32, 64].into_iter().find(|w| hi <= mask(*w)).unwrap_or(128);
    let a = if w < self.w(a) { self.extract(a, 0, w) } else { a };
    self.fin(Node { op: Op::Dec, w: 8, a, b: 0, c: 0, k: k as u128 })
  }

  /// A floating-point operation on operands of width `from` with a result of width `w`.
  pub fn fp(&mut self, kind: u128, from: u32, w: u32, a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
      return self.konst(fp_concrete(kind, from, w, x, y), w);
    }
    // integers only as wide as they are
    if kind == FP_UINT || kind == FP_SINT {
      let n = self.nodes[a as usize];
      if n.op == Op::ZExt {
        let from = self.w(n.a);
        return self.fp(FP_UINT, from, w, n.a, n.a);
      }
      if n.op == Op::SExt && kind == FP_SINT {
        let from = self.w(n.a);
        return self.fp(FP_SINT, from, w, n.a, n.a);
      }
    }
    // comparisons with constants are comparisons of bits
    let simple = self.is_const(a).is_some() || self.is_const(b).is_some() || a == b;
    if matches!(kind, FP_EQ | FP_LT | FP_LE | FP_UNO) && simple {
      return self.fp_compare(kind, from, a, b);
    }
    // the order of operands does not matter
    let (a, b) = if matches!(kind, FP_ADD | FP_MUL | FP_EQ | FP_UNO) && a > b { (b, a) } else { (a, b) };
    let e = self.fin(Node { op: Op::Fp, w: w as u8, a, b, c: 0, k: kind | (from as u128) << 8 });
    if self.nodes[e as usize].op == Op::Fp {
      let n = self.fp_index.len();
      self.fp_index.entry(e).or_insert(n);
    }
    e
  }

  fn fp_compare(&mut self, kind: u128, w: u32, a: E, b: E) -> E {
    let inf = if w == 32 { f32::INFINITY.to_bits() as u128 } else { f64::INFINITY.to_bits() as u128 };
    let (inf, abs, zero) = (self.konst(inf, w), self.konst(mask(w) >> 1, w), self.konst(0, w));
    let (x, y) = (self.bin(Op::And, a, abs), self.bin(Op::And, b, abs));
    let (n, m) = (self.bin(Op::Ult, inf, x), self.bin(Op::Ult, inf, y));
    let uno = self.bin(Op::Or, n, m);
    if kind == FP_UNO {
      return uno;
    }
    let either = self.bin(Op::Or, x, y);
    let zeros = self.bin(Op::Eq, either, zero);
    let same = self.bin(Op::Eq, a, b);
    let eq = self.bin(Op::Or, zeros, same);
    let r = if kind == FP_EQ {
      eq
    } else {
      let (s, t) = (self.extract(a, w - 1, 1), self.extract(b, w - 1, 1));
      let (lt, gt) = (self.bin(Op::Ult, a, b), self.bin(Op::Ult, b, a));
      let (ns, nt, nz) = (self.not(s), self.not(t), self.not(zeros));
      let u = self.bin(Op::And, s, nt);
      let u = self.bin(Op::And, u, nz);
      let v = self.bin(Op::And, ns, nt);
      let v = self.bin(Op::And, v, lt);
      let q = self.bin(Op::And, s, t);
      let q = self.bin(Op::And, q, gt);
      let r = self.bin(Op::Or, u, v);
      let r = self.bin(Op::Or, r, q);
      if kind == FP_LE {
        self.bin(Op::Or, r, eq)
      } else {
        r
      }
    };
    let ordered = self.not(uno);
    self.bin(Op::And, r, ordered)
  }

  /// Rewrite `e` under the given domains of the byte variables: word-level interval reasoning,
  /// and a canonical form for everything which depends on a single byte variable.
  pub fn simp(&mut self, e: E, doms: &[Set]) -> E {
    let mut s = Simp { memo: Default::default(), rng: Default::default(), doms };
    self.simp_rec(e, &mut s)
  }

  fn rng(&self, e: E, s: &Simp) -> (u128, u128) {
    if let Some(r) = s.rng.get(&e) {
      return *r;
    }
    let i = self.info[e as usize];
    (i.lo, i.hi)
  }

  fn simp_rec(&mut self, e: E, s: &mut Simp) -> E {
    if self.sup(e) == 0 {
      return e;
    }
    if let Some(r) = s.memo.get(&e) {
      return *r;
    }
    let n = self.nodes[e as usize];
    let w = n.w as u32;
    let m = mask(w);
    let r;
    let mut range: Option<(u128, u128)> = None;
    if let Some(v) = self.single_byte(e) {
      let d = s.doms.get(v).copied().unwrap_or(self.vars[v].dom);
      let t = self.byte_table(e);
      let first = set_first(&d).unwrap_or(0);
      let (mut lo, mut hi) = (u128::MAX, 0);
      let mut affine = w >= 8;
      let mut k0 = None;
      for i in set_iter(&d) {
        lo = lo.min(t[i]);
        hi = hi.max(t[i]);
        if i != first {
          let k = match k0 {
            Some(k) => k,
            None => {
              // slope from the first two points, which have to be one apart
              let k = t[i].wrapping_sub(t[first]) & m;
              if i != first + 1 {
                affine = false;
              }
              k0 = Some(k);
              k
            },
          };
          if t[i] != t[first].wrapping_add(k.wrapping_mul((i - first) as u128)) & m {
            affine = false;
          }
        }
      }
      let k0 = k0.unwrap_or(1);
      let c0 = t[first].wrapping_sub(k0.wrapping_mul(first as u128));
      range = Some((lo.min(hi), hi));
      if lo >= hi {
        r = self.konst(t[first], w);
      } else if w == 1 {
        let mut st = [0u64; 4];
        for i in set_iter(&d) {
          if t[i] & 1 == 1 {
            st[i >> 6] |= 1 << (i & 63);
          }
        }
        r = self.in_set(v, st);
      } else if affine {
        let x = self.var_expr(v);
        let x = self.zext(x, w);
        let k = self.konst(k0, w);
        let x = self.bin(Op::Mul, x, k);
        let c = self.konst(c0 & m, w);
        r = self.bin(Op::Add, x, c);
      } else {
        let mut tt = t.to_vec();
        for (i, x) in tt.iter_mut().enumerate() {
          if !set_has(&d, i) {
            *x = t[first];
          }
        }
        let x = self.var_expr(v);
        r = self.table(x, tt, w);
      }
    } else {
      match n.op {
        Op::Const | Op::Var | Op::InSet => r = e,
        Op::Ite => {
          let c = self.simp_rec(n.a, s);
          r = match self.is_const(c) {
            Some(1) => self.simp_rec(n.b, s),
            Some(_) => self.simp_rec(n.c, s),
            None => {
              let a = self.simp_rec(n.b, s);
              let b = self.simp_rec(n.c, s);
              let (x, y) = (self.rng(a, s), self.rng(b, s));
              range = Some((x.0.min(y.0), x.1.max(y.1)));
              self.ite(c, a, b)
            },
          };
        },
        Op::Extract => {
          let a = self.simp_rec(n.a, s);
          let x = self.rng(a, s);
          if n.k == 0 && x.1 <= m {
            range = Some(x);
          }
          r = self.extract(a, n.k as u32, w);
        },
        Op::ZExt => {
          let a = self.simp_rec(n.a, s);
          range = Some(self.rng(a, s));
          r = self.zext_push(a, w, s);
        },
        Op::SExt => {
          let a = self.simp_rec(n.a, s);
          let aw = self.w(a);
          let x = self.rng(a, s);
          if x.1 < 1u128 << (aw - 1) {
            range = Some(x);
            r = self.zext_push(a, w, s);
          } else {
            r = self.sext(a, w);
          }
        },
        Op::Dec => {
          let a = self.simp_rec(n.a, s);
          r = self.dec(a, n.k as u32);
        },
        Op::Fp => {
          let a = self.simp_rec(n.a, s);
          let b = self.simp_rec(n.b, s);
          // the same operation stays the same expression
          r = if self.is_const(a).is_some() && self.is_const(b).is_some() {
            self.fp(n.k & 255, (n.k >> 8) as u32, w, a, b)
          } else {
            e
          };
        },
        Op::Table => {
          let a = self.simp_rec(n.a, s);
          let t = self.tables[n.k as usize].to_vec();
          r = self.table(a, t, w);
        },
        op => {
          let a = self.simp_rec(n.a, s);
          let b = self.simp_rec(n.b, s);
          let (x, y) = (self.rng(a, s), self.rng(b, s));
          let aw = self.w(a);
          let no_ovf = |ar: &mut Arena, sum: E, part: E, s: &mut Simp| {
            // `sum` is part + other without overflow
            let m = ar.nodes[sum as usize];
            if m.op != Op::Add || (m.a != part && m.b != part) {
              return false;
            }
            let p = ar.simp_rec(m.a, s);
            let q = ar.simp_rec(m.b, s);
            ar.rng(p, s).1.checked_add(ar.rng(q, s).1).is_some_and(|h| h <= mask(m.w as u32))
          };
          let known = match op {
            Op::Ult if no_ovf(self, n.a, n.b, s) => Some(false),
            Op::Ule if no_ovf(self, n.b, n.a, s) => Some(true),
            Op::Ult if x.1 < y.0 => Some(true),
            Op::Ult if x.0 >= y.1 => Some(false),
            Op::Ule if x.1 <= y.0 => Some(true),
            Op::Ule if x.0 > y.1 => Some(false),
            Op::Slt | Op::Sle if x.1 < 1u128 << (aw - 1) && y.1 < 1u128 << (aw - 1) => {
              if op == Op::Slt {
                if x.1 < y.0 {
                  Some(true)
                } else if x.0 >= y.1 {
                  Some(false)
                } else {
                  None
                }
              } else if x.1 <= y.0 {
                Some(true)
              } else if x.0 > y.1 {
                Some(false)
              } else {
                None
              }
            },
            Op::Eq if x.1 < y.0 || y.1 < x.0 => Some(false),
            Op::UMulOv => match x.1.checked_mul(y.1) {
              Some(h) if h <= mask(aw) => Some(false),
              _ => None,
            },
            Op::SMulOv if x.1 < 1u128 << (aw - 1) && y.1 < 1u128 << (aw - 1) => match x.1.checked_mul(y.1) {
              Some(h) if h < 1u128 << (aw - 1) => Some(false),
              _ => None,
            },
            _ => None,
          };
          r = match known {
            Some(k) => self.bool(k),
            None => {
              range = match op {
                Op::Add => x.1.checked_add(y.1).filter(|h| *h <= m).map(|h| (x.0 + y.0, h)),
                Op::Mul => x.1.checked_mul(y.1).filter(|h| *h <= m).map(|h| (x.0 * y.0, h)),
                Op::Sub if x.0 >= y.1 => Some((x.0 - y.1, x.1 - y.0)),
                Op::Concat => {
                  let bw = self.w(b);
                  Some(((x.0 << bw) | y.0, (x.1 << bw) | y.1))
                },
                Op::And => Some((0, x.1.min(y.1))),
                Op::Or | Op::Xor => Some((0, mask(128 - (x.1 | y.1).leading_zeros()))),
                Op::UDiv if y.0 > 0 => Some((x.0 / y.1, x.1 / y.0)),
                Op::URem if y.0 > 0 && x.1 < y.0 => Some(x),
                Op::URem if y.0 > 0 => Some((0, (y.1 - 1).min(x.1))),
                _ => None,
              };
              self.bin(op, a, b)
            },
          };
        },
      }
    }
    if let Some((lo, hi)) = range {
      if self.is_const(r).is_none() {
        let i = self.info[r as usize];
        s.rng.insert(r, (lo.max(i.lo), hi.min(i.hi)));
      }
    }
    s.memo.insert(e, r);
    r
  }

  /// Zero extension, moved below additions and multiplications which cannot overflow.
  fn zext_push(&mut self, a: E, w: u32, s: &mut Simp) -> E {
    let n = self.nodes[a as usize];
    let m = mask(n.w as u32);
    if self.single_byte(a).is_none() && matches!(n.op, Op::Add | Op::Mul) {
      let (x, y) = (self.rng(n.a, s), self.rng(n.b, s));
      let h = if n.op == Op::Add { x.1.checked_add(y.1) } else { x.1.checked_mul(y.1) };
      if h.is_some_and(|h| h <= m) {
        let p = self.zext_push(n.a, w, s);
        let q = self.zext_push(n.b, w, s);
        s.rng.insert(p, x);
        s.rng.insert(q, y);
        return self.bin(n.op, p, q);
      }
    }
    if n.op == Op::Const {
      return self.konst(n.k, w);
    }
    let x = self.rng(a, s);
    let z = self.zext(a, w);
    if self.single_byte(a).is_some() {
      return self.simp_rec(z, s);
    }
    s.rng.insert(z, x);
    z
  }

  /// Over-approximation of the values `e` can take, at most `limit` of them.
  pub fn values(&mut self, e: E, limit: usize, doms: &[Set]) -> Option<Vec<u128>> {
    if let Some(k) = self.is_const(e) {
      return Some(vec![k]);
    }
    if let Some(v) = self.single_byte(e) {
      let t = self.byte_table(e);
      let d = doms.get(v).copied().unwrap_or(self.vars[v].dom);
      let mut r: Vec<u128> = set_iter(&d).map(|i| t[i]).collect();
      r.sort_unstable();
      r.dedup();
      return if r.len() <= limit { Some(r) } else { None };
    }
    let n = self.nodes[e as usize];
    let i = self.info[e as usize];
    let m = mask(n.w as u32);
    let mut r: Vec<u128> = match n.op {
      Op::Ite => {
        let mut a = self.values(n.b, limit, doms)?;
        a.extend(self.values(n.c, limit, doms)?);
        a
      },
      Op::ZExt => self.values(n.a, limit, doms)?,
      Op::SExt => {
        let w = self.w(n.a);
        self.values(n.a, limit, doms)?.into_iter().map(|x| sext(x, w) as u128 & m).collect()
      },
      Op::Table => {
        let t = self.tables[n.k as usize].clone();
        match self.values(n.a, limit, doms) {
          Some(v) => v.into_iter().filter_map(|x| t.get(x as usize).copied()).collect(),
          None => t.to_vec(),
        }
      },
      Op::Extract => self.values(n.a, limit, doms)?.into_iter().map(|x| (x >> n.k as u32) & m).collect(),
      Op::Add | Op::Sub | Op::Mul | Op::Concat => {
        match (self.values(n.a, limit, doms), self.values(n.b, limit, doms)) {
          (Some(a), Some(b)) if a.len() * b.len() <= limit => {
            let bw = self.w(n.b);
            let aw = self.w(n.a);
            let mut r = vec![];
            for x in &a {
              for y in &b {
                r.push(self.apply(&n, *x, *y, 0, aw, bw));
              }
            }
            r
          },
          _ => {
            if i.hi - i.lo < limit as u128 {
              (i.lo..=i.hi).collect()
            } else {
              return None;
            }
          },
        }
      },
      _ => {
        if i.hi - i.lo < limit as u128 {
          (i.lo..=i.hi).collect()
        } else {
          return None;
        }
      },
    };
    r.sort_unstable();
    r.dedup();
    if r.len() <= limit {
      Some(r)
    } else {
      None
    }
  }

  pub fn show(&self, e: E, depth: usize) -> String {
    let n = &self.nodes[e as usize];
    if depth == 0 {
      return "..".into();
    }
    match n.op {
      Op::Const => format!("{}", n.k),
      Op::Var => format!("v{}", n.k),
      Op::InSet => {
        let s: Vec<usize> = set_iter(&self.sets[n.k as usize]).collect();
        if s.len() > 12 {
          format!("(v{} in {} values)", n.a, s.len())
        } else {
          format!("(v{} in {:?})", n.a, s)
        }
      },
      Op::Ite => format!("ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
      Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
      Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
      Op::Table => format!("T{}[{}]", n.k, self.show(n.a, depth - 1)),
      op => format!("{op:?}({}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
    }
  }
}

pub fn fp_concrete(kind: u128, from: u32, w: u32, a: u128, b: u128) -> u128 {
  macro_rules! arith {
    ($f:ident, $u:ident) => {{
      let (x, y) = ($f::from_bits(a as $u), $f::from_bits(b as $u));
      match kind {
        FP_ADD => (x + y).to_bits() as u128,
        FP_SUB => (x - y).to_bits() as u128,
        FP_MUL => (x * y).to_bits() as u128,
        FP_DIV => (x / y).to_bits() as u128,
        FP_EQ => (x == y) as u128,
        FP_LT => (x < y) as u128,
        FP_LE => (x <= y) as u128,
        FP_TO_UINT => x as u128 & mask(w),
        FP_TO_SINT => x as i128 as u128 & mask(w),
        FP_FLOOR => x.floor().to_bits() as u128,
        FP_CEIL => x.ceil().to_bits() as u128,
        FP_TRUNC => x.trunc().to_bits() as u128,
        FP_ROUND => x.round().to_bits() as u128,
        FP_EVEN => x.round_ties_even().to_bits() as u128,
        FP_SQRT => x.sqrt().to_bits() as u128,
        _ => (x.is_nan() || y.is_nan()) as u128,
      }
    }};
  }
  match kind {
    FP_CONV if w == 32 => (f64::from_bits(a as u64) as f32).to_bits() as u128,
    FP_CONV => (f32::from_bits(a as u32) as f64).to_bits() as u128,
    FP_UINT if w == 32 => (a as f32).to_bits() as u128,
    FP_UINT => (a as f64).to_bits() as u128,
    FP_SINT if w == 32 => (sext(a, from) as f32).to_bits() as u128,
    FP_SINT => (sext(a, from) as f64).to_bits() as u128,
    _ if from == 32 => arith!(f32, u32),
    _ => arith!(f64, u64),
  }
}

pub fn bin_concrete(op: Op, a: u128, b: u128, w: u32) -> u128 {
  let m = mask(w);
  match op {
    Op::Add => a.wrapping_add(b) & m,
    Op::Sub => a.wrapping_sub(b) & m,
    Op::Mul => a.wrapping_mul(b) & m,
    // SMT-LIB semantics for division by zero
    Op::UDiv => {
      if b == 0 {
        m
      } else {
        a / b
      }
    },
    Op::URem => {
      if b == 0 {
        a
      } else {
        a % b
      }
    },
    Op::SDiv => {
      let (x, y) = (sext(a, w), sext(b, w));
      if y == 0 {
        if x >= 0 {
          m
        } else {
          1
        }
      } else {
        (x.wrapping_div(y) as u128) & m
      }
    },
    Op::SRem => {
      let (x, y) = (sext(a, w), sext(b, w));
      if y == 0 {
        a
      } else {
        (x.wrapping_rem(y) as u128) & m
      }
    },
    Op::And => a & b,
    Op::Or => a | b,
    Op::Xor => a ^ b,
    Op::Shl => {
      if b >= w as u128 {
        0
      } else {
        (a << b as u32) & m
      }
    },
    Op::LShr => {
      if b >= w as u128 {
        0
      } else {
        a >> b as u32
      }
    },
    Op::AShr => {
      let s = sext(a, w);
      let k = b.min(w as u128 - 1) as u32;
      ((s >> k) as u128) & m
    },
    Op::Eq => (a == b) as u128,
    Op::Ult => (a < b) as u128,
    Op::Ule => (a <= b) as u128,
    Op::Slt => (sext(a, w) < sext(b, w)) as u128,
    Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
    Op::UMulOv => match a.checked_mul(b) {
      Some(p) => (p > m) as u128,
      None => 1,
    },
    Op::SMulOv => match sext(a, w).checked_mul(sext(b, w)) {
      Some(p) => (sext(p as u128 & m, w) != p) as u128,
      None => 1,
    },
    _ => unreachable!(),
  }
}
