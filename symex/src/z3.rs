//! Minimal binding to libz3's C API.

use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
  fn Z3_mk_config() -> P;
  fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
  fn Z3_mk_context(c: P) -> P;
  fn Z3_del_context(c: P);
  fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
  fn Z3_mk_simple_solver(c: P) -> P;
  fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
  fn Z3_solver_inc_ref(c: P, s: P);
  fn Z3_solver_dec_ref(c: P, s: P);
  fn Z3_solver_assert(c: P, s: P, a: P);
  fn Z3_solver_reset(c: P, s: P);
  fn Z3_solver_check(c: P, s: P) -> c_int;
  fn Z3_solver_get_model(c: P, s: P) -> P;
  fn Z3_solver_set_params(c: P, s: P, p: P);
  fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
  fn Z3_mk_params(c: P) -> P;
  fn Z3_params_inc_ref(c: P, p: P);
  fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
  fn Z3_model_inc_ref(c: P, m: P);
  fn Z3_model_dec_ref(c: P, m: P);
  fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
  fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
  fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
  fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
  fn Z3_mk_const(c: P, s: P, t: P) -> P;
  fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
  fn Z3_mk_true(c: P) -> P;
  fn Z3_mk_false(c: P) -> P;
  fn Z3_mk_eq(c: P, a: P, b: P) -> P;
  fn Z3_mk_not(c: P, a: P) -> P;
  fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
  fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_xor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
  fn Z3_mk_concat(c: P, a: P, b: P) -> P;
  fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
  fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, signed: bool) -> P;
  fn Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
  fn Z3_mk_fpa_sort_32(c: P) -> P;
  fn Z3_mk_fpa_sort_64(c: P) -> P;
  fn Z3_mk_fpa_rne(c: P) -> P;
  fn Z3_mk_fpa_rna(c: P) -> P;
  fn Z3_mk_fpa_rtp(c: P) -> P;
  fn Z3_mk_fpa_rtn(c: P) -> P;
  fn Z3_mk_fpa_rtz(c: P) -> P;
  fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
  fn Z3_mk_fpa_sqrt(c: P, rm: P, t: P) -> P;
  fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: u32) -> P;
  fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: u32) -> P;
  fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
  fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
  fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
  fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
  fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
  fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
  fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
  fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
  fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
  fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
  fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
  fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
  fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
}

extern "C" fn on_error(_: P, code: c_int) {
  eprintln!("z3 error {code}");
  std::process::abort();
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
  pub queries: u64,
  pub sat: u64,
  pub unsat: u64,
  pub unknown: u64,
  pub time: f64,
  pub max_time: f64,
}

pub enum Res {
  Sat(Vec<(usize, u128)>),
  Unsat,
  Unknown,
}

/// A solver context.  Booleans (w == 1) are translated to Bool, everything else to bit-vectors.
pub struct Z3 {
  c: P,
  s: P,
  s2: P,
  /// For queries with floating-point operations.
  s3: P,
  memo: FxMap<E, P>,
  pub stats: Stats,
  uses: u64,
  pub timeout_ms: u32,
  slow: f64,
}

impl Z3 {
  pub fn new(timeout_ms: u32) -> Z3 {
    let mut z = Z3 {
      c: std::ptr::null_mut(),
      s: std::ptr::null_mut(),
      s2: std::ptr::null_mut(),
      s3: std::ptr::null_mut(),
      memo: Default::default(),
      stats: Default::default(),
      uses: 0,
      timeout_ms,
      slow: std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(f64::INFINITY),
    };
    z.init();
    z
  }

  fn init(&mut self) {
    unsafe {
      if !self.c.is_null() {
        Z3_solver_dec_ref(self.c, self.s);
        Z3_solver_dec_ref(self.c, self.s2);
        Z3_solver_dec_ref(self.c, self.s3);
        Z3_del_context(self.c);
      }
      self.memo.clear();
      let cfg = Z3_mk_config();
      let k = CString::new("model").unwrap();
      let v = CString::new("true").unwrap();
      Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
      self.c = Z3_mk_context(cfg);
      Z3_set_error_handler(self.c, Some(on_error));
      self.s = Z3_mk_simple_solver(self.c);
      Z3_solver_inc_ref(self.c, self.s);
      let l = CString::new("QF_BV").unwrap();
      self.s2 = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
      Z3_solver_inc_ref(self.c, self.s2);
      let l = CString::new("QF_BVFP").unwrap();
      self.s3 = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
      Z3_solver_inc_ref(self.c, self.s3);
      self.set_timeout(self.s, 3000.min(self.timeout_ms));
      self.set_timeout(self.s2, self.timeout_ms);
      self.set_timeout(self.s3, self.timeout_ms);
    }
  }

  fn set_timeout(&self, s: P, ms: u32) {
    unsafe {
      let p = Z3_mk_params(self.c);
      Z3_params_inc_ref(self.c, p);
      let k = CString::new("timeout").unwrap();
      Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
      Z3_solver_set_params(self.c, s, p);
    }
  }

  fn bvsort(&self, w: u32) -> P {
    unsafe { Z3_mk_bv_sort(self.c, w) }
  }
  fn num(&self, k: u128, w: u32) -> P {
    let s = CString::new(k.to_string()).unwrap();
    unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.bvsort(w)) }
  }
  fn var(&self, id: usize, w: u32) -> P {
    let s = CString::new(format!("v{id}")).unwrap();
    unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), self.bvsort(w)) }
  }

  /// Membership of a byte variable in a set, as a disjunction of ranges.
  fn in_set(&self, v: usize, s: &Set) -> P {
    let x = self.var(v, 8);
    let mut parts = vec![];
    let mut i = 0;
    while i < 256 {
      if set_has(s, i) {
        let st = i;
        while i < 256 && set_has(s, i) {
          i += 1
        }
        let e = i - 1;
        unsafe {
          parts.push(if st == e {
            Z3_mk_eq(self.c, x, self.num(st as u128, 8))
          } else {
            let a = Z3_mk_bvule(self.c, self.num(st as u128, 8), x);
            let b = Z3_mk_bvule(self.c, x, self.num(e as u128, 8));
            let ab = [a, b];
            Z3_mk_and(self.c, 2, ab.as_ptr())
          });
        }
      } else {
        i += 1
      }
    }
    unsafe {
      match parts.len() {
        0 => Z3_mk_false(self.c),
        1 => parts[0],
        n => Z3_mk_or(self.c, n as c_uint, parts.as_ptr()),
      }
    }
  }

  fn table(&self, t: &[u128], lo: usize, hi: usize, bit: i32, idx: P, w: u32) -> P {
    // ite tree over index bits; [lo, hi) is the index range of this subtree
    if lo >= t.len() {
      return self.num(0, w);
    }
    let e = hi.min(t.len());
    if t[lo..e].iter().all(|x| *x == t[lo]) && e == hi {
      return self.num(t[lo], w);
    }
    if bit < 0 {
      return self.num(t[lo], w);
    }
    let mid = lo + (1usize << bit);
    let l = self.table(t, lo, mid, bit - 1, idx, w);
    let h = self.table(t, mid, hi, bit - 1, idx, w);
    unsafe {
      let b = Z3_mk_eq(self.c, Z3_mk_extract(self.c, bit as c_uint, bit as c_uint, idx), self.num(1, 1));
      Z3_mk_ite(self.c, b, h, l)
    }
  }

  /// Boolean to a 1-bit vector.
  fn b2v(&self, p: P) -> P {
    unsafe { Z3_mk_ite(self.c, p, self.num(1, 1), self.num(0, 1)) }
  }

  /// As a bit-vector (1-bit values are kept as Bool in the memo).
  fn bv(&mut self, ar: &Arena, e: E) -> P {
    let p = self.tr(ar, e);
    if ar.w(e) == 1 {
      self.b2v(p)
    } else {
      p
    }
  }

  fn fp_var(&self, e: E, w: u32) -> P {
    let s = CString::new(format!("f{e}")).unwrap();
    unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), self.bvsort(w)) }
  }

  /// The definition of a floating-point operation.
  fn exact(&mut self, ar: &Arena, e: E) -> P {
    let n = ar.nodes[e as usize];
    let w = n.w as u32;
    let c = self.c;
    let p = unsafe {
          let from = (n.k >> 8) as u32;
          let sort = |w: u32| if w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
          let a = self.bv(ar, n.a);
          let b = self.bv(ar, n.b);
          let rm = Z3_mk_fpa_rne(c);
          let fl = |x: P| Z3_mk_fpa_to_fp_bv(c, x, sort(from));
          match n.k & 255 {
            FP_ADD => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rm, fl(a), fl(b))),
            FP_SUB => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rm, fl(a), fl(b))),
            FP_MUL => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rm, fl(a), fl(b))),
            FP_DIV => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rm, fl(a), fl(b))),
            FP_EQ => Z3_mk_fpa_eq(c, fl(a), fl(b)),
            FP_LT => Z3_mk_fpa_lt(c, fl(a), fl(b)),
            FP_LE => Z3_mk_fpa_leq(c, fl(a), fl(b)),
            FP_UNO => {
              let xy = [Z3_mk_fpa_is_nan(c, fl(a)), Z3_mk_fpa_is_nan(c, fl(b))];
              Z3_mk_or(c, 2, xy.as_ptr())
            },
            FP_CONV => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rm, fl(a), sort(w))),
            FP_UINT => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rm, a, sort(w))),
            FP_SINT => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rm, a, sort(w))),
            FP_TO_UINT => Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fl(a), w),
            FP_TO_SINT => Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fl(a), w),
            FP_FLOOR => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fl(a))),
            FP_CEIL => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fl(a))),
            FP_TRUNC => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), fl(a))),
            FP_ROUND => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), fl(a))),
            FP_EVEN => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, fl(a))),
            FP_SQRT => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, rm, fl(a))),
            k => panic!("z3: floating-point operation {k}"),
          }
            };
    let v = self.fp_var(e, w);
    unsafe {
      if w == 1 {
        Z3_mk_eq(c, Z3_mk_eq(c, v, self.num(1, 1)), p)
      } else {
        Z3_mk_eq(c, v, p)
      }
    }
  }

  fn tr(&mut self, ar: &Arena, e: E) -> P {
    if let Some(&p) = self.memo.get(&e) {
      return p;
    }
    let n = ar.nodes[e as usize];
    let w = n.w as u32;
    let c = self.c;
    let p = unsafe {
      match n.op {
        Op::Const => {
          if w == 1 {
            if n.k == 1 {
              Z3_mk_true(c)
            } else {
              Z3_mk_false(c)
            }
          } else {
            self.num(n.k, w)
          }
        },
        Op::Var => {
          let v = self.var(n.k as usize, w);
          if w == 1 {
            Z3_mk_eq(c, v, self.num(1, 1))
          } else {
            v
          }
        },
        Op::InSet => self.in_set(n.a as usize, &ar.sets[n.k as usize]),
        Op::Ite => {
          let x = self.tr(ar, n.a);
          let y = self.tr(ar, n.b);
          let z = self.tr(ar, n.c);
          Z3_mk_ite(c, x, y, z)
        },
        Op::Extract => {
          let a = self.bv(ar, n.a);
          let x = Z3_mk_extract(c, (n.k as u32 + w - 1) as c_uint, n.k as c_uint, a);
          if w == 1 {
            Z3_mk_eq(c, x, self.num(1, 1))
          } else {
            x
          }
        },
        Op::ZExt => {
          let aw = ar.w(n.a);
          let a = self.bv(ar, n.a);
          Z3_mk_zero_ext(c, w - aw, a)
        },
        Op::SExt => {
          let aw = ar.w(n.a);
          let a = self.bv(ar, n.a);
          Z3_mk_sign_ext(c, w - aw, a)
        },
        Op::Dec => {
          let aw = ar.w(n.a);
          let a = self.bv(ar, n.a);
          // wide enough for the divisor
          let (a, aw) = if aw < 8 { (Z3_mk_zero_ext(c, 8 - aw, a), 8) } else { (a, aw) };
          let d = 10u128.pow(n.k as u32);
          if aw < 128 && d >> aw != 0 {
            self.num(48, 8)
          } else {
            let q = if d == 1 { a } else { Z3_mk_bvudiv(c, a, self.num(d, aw)) };
            let r = Z3_mk_bvurem(c, q, self.num(10, aw));
            let r = if aw == 8 { r } else { Z3_mk_extract(c, 7, 0, r) };
            Z3_mk_bvadd(c, r, self.num(48, 8))
          }
        },
        // any value; see `exact`
        Op::Fp => {
          let v = self.fp_var(e, w);
          if w == 1 {
            Z3_mk_eq(c, v, self.num(1, 1))
          } else {
            v
          }
        },
        Op::Table => {
          let t = ar.tables[n.k as usize].clone();
          let iw = ar.w(n.a);
          let a = self.bv(ar, n.a);
          let mut bits = 0;
          while (1usize << bits) < t.len() {
            bits += 1
          }
          let bits = bits.max(1).min(iw as i32);
          let x = self.table(&t, 0, 1usize << bits, bits - 1, a, w);
          if w == 1 {
            Z3_mk_eq(c, x, self.num(1, 1))
          } else {
            x
          }
        },
        Op::And | Op::Or | Op::Xor if w == 1 => {
          let x = self.tr(ar, n.a);
          let y = self.tr(ar, n.b);
          let xy = [x, y];
          match n.op {
            Op::And => Z3_mk_and(c, 2, xy.as_ptr()),
            Op::Or => Z3_mk_or(c, 2, xy.as_ptr()),
            _ => {
              if ar.is_const(n.b) == Some(1) {
                Z3_mk_not(c, x)
              } else {
                Z3_mk_xor(c, x, y)
              }
            },
          }
        },
        Op::Eq if ar.w(n.a) == 1 => {
          let x = self.tr(ar, n.a);
          let y = self.tr(ar, n.b);
          Z3_mk_eq(c, x, y)
        },
        op => {
          let a = self.bv(ar, n.a);
          let b = self.bv(ar, n.b);
          let r = match op {
            Op::Add => Z3_mk_bvadd(c, a, b),
            Op::Sub => Z3_mk_bvsub(c, a, b),
            Op::Mul => Z3_mk_bvmul(c, a, b),
            Op::UDiv => Z3_mk_bvudiv(c, a, b),
            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
            Op::URem => Z3_mk_bvurem(c, a, b),
            Op::SRem => Z3_mk_bvsrem(c, a, b),
            Op::And => Z3_mk_bvand(c, a, b),
            Op::Or => Z3_mk_bvor(c, a, b),
            Op::Xor => Z3_mk_bvxor(c, a, b),
            Op::Shl => Z3_mk_bvshl(c, a, b),
            Op::LShr => Z3_mk_bvlshr(c, a, b),
            Op::AShr => Z3_mk_bvashr(c, a, b),
            Op::Eq => Z3_mk_eq(c, a, b),
            Op::Ult => Z3_mk_bvult(c, a, b),
            Op::Ule => Z3_mk_bvule(c, a, b),
            Op::Slt => Z3_mk_bvslt(c, a, b),
            Op::Sle => Z3_mk_bvsle(c, a, b),
            Op::Concat => Z3_mk_concat(c, a, b),
            Op::UMulOv => Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, a, b, false)),
            Op::SMulOv => {
              let x = [Z3_mk_bvmul_no_overflow(c, a, b, true), Z3_mk_bvmul_no_underflow(c, a, b)];
              Z3_mk_not(c, Z3_mk_and(c, 2, x.as_ptr()))
            },
            op => panic!("z3: {op:?}"),
          };
          // arithmetic on 1-bit values yields a vector, the memo expects Bool
          if w == 1 && !matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulOv | Op::SMulOv) {
            Z3_mk_eq(c, r, self.num(1, 1))
          } else {
            r
          }
        },
      }
    };
    self.memo.insert(e, p);
    p
  }

  /// Check satisfiability of domains and constraints; returns a model for the given variables.
  /// Unless `exact`, floating-point operations have any values, which are part of the model.
  pub fn check(&mut self, ar: &Arena, doms: &[(usize, Set)], cons: &[E], vars: &[usize], exact: bool) -> Res {
    self.uses += 1;
    if self.memo.len() > 400_000 || self.uses % 20_000 == 0 {
      self.init();
    }
    let t0 = std::time::Instant::now();
    let mut asserts: Vec<P> = vec![];
    for (v, d) in doms {
      if *d != [u64::MAX; 4] {
        asserts.push(self.in_set(*v, d));
      }
    }
    for e in cons {
      asserts.push(self.tr(ar, *e));
    }
    let fps = ar.fp_nodes(cons);
    if exact {
      for (e, _) in &fps {
        let d = self.exact(ar, *e);
        asserts.push(d);
      }
    }
    let c = self.c;
    let mut out = Res::Unknown;
    for s in if exact && !fps.is_empty() { [self.s3, self.s] } else { [self.s, self.s2] } {
      let r = unsafe {
        Z3_solver_reset(c, s);
        for a in &asserts {
          Z3_solver_assert(c, s, *a);
        }
        Z3_solver_check(c, s)
      };
      match r {
        1 => {
          let mut m = vec![];
          unsafe {
            let model = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, model);
            let fps = fps.iter().map(|(e, v)| (*v, if exact { std::ptr::null_mut() } else { self.fp_var(*e, ar.w(*e)) }));
            let vars = vars.iter().map(|v| (*v, self.var(*v, ar.vars[*v].w)));
            for (v, x) in vars.chain(fps) {
              if x.is_null() {
                continue;
              }
              let mut o: P = std::ptr::null_mut();
              if Z3_model_eval(c, model, x, true, &mut o) {
                let st = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap();
                m.push((v, st.parse::<u128>().expect("numeral")));
              }
            }
            Z3_model_dec_ref(c, model);
          }
          self.stats.sat += 1;
          out = Res::Sat(m);
          break;
        },
        -1 => {
          self.stats.unsat += 1;
          out = Res::Unsat;
          break;
        },
        _ => {},
      }
    }
    if let Res::Unknown = out {
      self.stats.unknown += 1;
    }
    let dt = t0.elapsed().as_secs_f64();
    if dt > self.slow {
      eprintln!("; {dt:.3}s\n{}", self.dump(ar, doms, cons));
    }
    self.stats.queries += 1;
    self.stats.time += dt;
    if dt > self.stats.max_time {
      self.stats.max_time = dt;
    }
    out
  }

  /// SMT-LIB text of the last query (for cross-checking with another solver).
  pub fn dump(&mut self, ar: &Arena, doms: &[(usize, Set)], cons: &[E]) -> String {
    let mut asserts: Vec<P> = vec![];
    for (v, d) in doms {
      asserts.push(self.in_set(*v, d));
    }
    for e in cons {
      asserts.push(self.tr(ar, *e));
    }
    unsafe {
      Z3_solver_reset(self.c, self.s2);
      for a in &asserts {
        Z3_solver_assert(self.c, self.s2, *a);
      }
      CStr::from_ptr(Z3_solver_to_string(self.c, self.s2)).to_str().unwrap().to_owned()
    }
  }
}
