//! The symbolic interpreter.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
  C(u128),
  S(E),
}

pub struct Frame {
  func: Rc<Func>,
  pc: usize,
  regs: Vec<Val>,
  sp_save: u64,
  ret_dst: u32,
  ret_n: u32,
  /// Index of the call instruction in the caller (for invoke edges).
  call_pc: usize,
}

impl Clone for Frame {
  fn clone(&self) -> Frame {
    Frame {
      func: self.func.clone(),
      pc: self.pc,
      regs: self.regs.clone(),
      sp_save: self.sp_save,
      ret_dst: self.ret_dst,
      ret_n: self.ret_n,
      call_pc: self.call_pc,
    }
  }
}

struct FNode {
  frame: Frame,
  next: Option<Rc<FNode>>,
}

struct List<T> {
  v: T,
  next: Option<Rc<List<T>>>,
}

type L<T> = Option<Rc<List<T>>>;

fn list_vec<T: Clone>(l: &L<T>) -> Vec<T> {
  let mut v = vec![];
  let mut c = l.as_ref();
  while let Some(n) = c {
    v.push(n.v.clone());
    c = n.next.as_ref();
  }
  v.reverse();
  v
}

pub struct State {
  cur: Frame,
  stack: Option<Rc<FNode>>,
  depth: u32,
  mem: Mem,
  sp: u64,
  heap_top: u64,
  free: [u64; 48],
  doms: Rc<Vec<Set>>,
  coupled: u128,
  cons: L<E>,
  model: Rc<Vec<u128>>,
  model_ok: bool,
  inputs: L<u32>,
  ninputs: u32,
  trace: L<u64>,
  ntrace: u32,
  prefix: Option<Rc<Vec<u64>>>,
  ppos: usize,
  obs: L<Val>,
  covers: u128,
  known: u32,
  opaque: bool,
  pins: L<(E, u128)>,
  steps: u64,
  /// Case groups of the current switch which are already excluded.
  sw_skip: u32,
}

impl Clone for State {
  fn clone(&self) -> State {
    State {
      cur: self.cur.clone(),
      stack: self.stack.clone(),
      depth: self.depth,
      mem: self.mem.clone(),
      sp: self.sp,
      heap_top: self.heap_top,
      free: self.free,
      doms: self.doms.clone(),
      coupled: self.coupled,
      cons: self.cons.clone(),
      model: self.model.clone(),
      model_ok: self.model_ok,
      inputs: self.inputs.clone(),
      ninputs: self.ninputs,
      trace: self.trace.clone(),
      ntrace: self.ntrace,
      prefix: self.prefix.clone(),
      ppos: self.ppos,
      obs: self.obs.clone(),
      covers: self.covers,
      known: self.known,
      opaque: self.opaque,
      pins: self.pins.clone(),
      steps: self.steps,
      sw_skip: self.sw_skip,
    }
  }
}

// Deep lists would overflow the native stack on drop.
impl<T> Drop for List<T> {
  fn drop(&mut self) {
    let mut n = self.next.take();
    while let Some(rc) = n {
      match Rc::try_unwrap(rc) {
        Ok(mut x) => n = x.next.take(),
        Err(_) => break,
      }
    }
  }
}
impl Drop for FNode {
  fn drop(&mut self) {
    let mut n = self.next.take();
    while let Some(rc) = n {
      match Rc::try_unwrap(rc) {
        Ok(mut x) => n = x.next.take(),
        Err(_) => break,
      }
    }
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Bi {
  None,
  Panic,
  Abort,
  Exit,
  Malloc,
  Calloc,
  Realloc,
  Free,
  PosixMemalign,
  KeyCreate,
  Memcmp,
  Strlen,
  GetRandom,
  RetZero,
  Write,
  HashOne,
  HashWrite,
  SymBytes,
  SymChoice,
  SymRange,
  SymBits,
  SymAssume,
  SymAssert,
  SymCover,
  SymObs,
  SymKnown,
  SymOpaque,
  SymConcrete,
  Memcpy,
  Memset,
  Intr,
  FloatParse64,
  FmtDec,
  FmtDecInner,
  FmtDisplay,
  FloatParse32,
  Missing,
}

pub struct Config {
  pub max_steps: u64,
  pub max_depth: u32,
  pub deadline: Instant,
  pub samples: usize,
  pub keep: usize,
  pub check_paths: bool,
  pub confirm: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
  pub kind: String,
  pub id: u32,
  pub known: u32,
  pub site: String,
  pub inputs: Vec<(u32, u128)>,
  pub steps: u64,
}

#[derive(Clone, Debug)]
pub struct Sample {
  pub inputs: Vec<(u32, u128)>,
  pub obs: Vec<u64>,
  pub covers: u128,
}

#[derive(Default, Clone, Debug)]
pub struct Report {
  pub paths: u64,
  pub assumed: u64,
  pub steps: u64,
  pub forks: u64,
  pub branches_sym: u64,
  pub fast_decided: u64,
  pub confirmed: u64,
  /// Queries with the exact meaning of floating-point operations.
  pub fp_queries: u64,
  pub asserts: u64,
  pub asserts_static: u64,
  pub assert_queries: u64,
  pub assert_unsat: u64,
  pub path_queries: u64,
  pub path_unsat: u64,
  pub covers: u128,
  pub violations: Vec<Violation>,
  pub nviol: BTreeMap<String, u64>,
  pub samples: Vec<Sample>,
  pub errors: BTreeMap<String, u64>,
  pub unknown: u64,
  pub funcs: BTreeSet<String>,
  pub z3: Stats,
  pub truncated: u64,
  pub max_path_steps: u64,
  pub assert_ids: BTreeSet<u32>,
}

impl Report {
  pub fn merge(&mut self, o: Report) {
    self.paths += o.paths;
    self.assumed += o.assumed;
    self.steps += o.steps;
    self.forks += o.forks;
    self.branches_sym += o.branches_sym;
    self.fast_decided += o.fast_decided;
    self.confirmed += o.confirmed;
    self.fp_queries += o.fp_queries;
    self.asserts += o.asserts;
    self.asserts_static += o.asserts_static;
    self.assert_queries += o.assert_queries;
    self.assert_unsat += o.assert_unsat;
    self.path_queries += o.path_queries;
    self.path_unsat += o.path_unsat;
    self.covers |= o.covers;
    self.violations.extend(o.violations);
    for (k, v) in o.nviol {
      *self.nviol.entry(k).or_default() += v;
    }
    self.samples.extend(o.samples);
    for (k, v) in o.errors {
      *self.errors.entry(k).or_default() += v;
    }
    self.unknown += o.unknown;
    self.funcs.extend(o.funcs);
    self.z3.queries += o.z3.queries;
    self.z3.sat += o.z3.sat;
    self.z3.unsat += o.z3.unsat;
    self.z3.unknown += o.z3.unknown;
    self.z3.time += o.z3.time;
    self.z3.max_time = self.z3.max_time.max(o.z3.max_time);
    self.truncated += o.truncated;
    self.max_path_steps = self.max_path_steps.max(o.max_path_steps);
    self.assert_ids.extend(o.assert_ids);
  }
}

/// Work shared between the worker threads: decision prefixes.
pub struct Shared {
  pub queue: Mutex<(Vec<Vec<u64>>, usize)>,
  pub cv: Condvar,
  pub idle: AtomicUsize,
  pub stop: AtomicBool,
  pub nthreads: usize,
}

enum End {
  Done,
  Assumed,
  Panic(String),
  Abort(String),
  Error(String),
  Steps,
  Depth,
}

type R<T> = Result<T, End>;

impl From<Fault> for End {
  fn from(f: Fault) -> End {
    End::Error(format!("memory access at {:#x}", f.0))
  }
}

pub struct Exec {
  m: Arc<Module>,
  bi: Arc<Vec<u8>>,
  funcs: Vec<Option<Rc<Func>>>,
  ar: Arena,
  z3: Z3,
  work: Vec<State>,
  cfg: Arc<Config>,
  pub rep: Report,
  pool: Vec<Vec<Val>>,
  pad_integral: Option<u32>,
  base: Mem,
  var_keys: FxMap<(u32, u32, Set), u32>,
  shared: Arc<Shared>,
  entry: u32,
  seen_viol: BTreeMap<String, u64>,
}

const BIS: &[Bi] = &[
  Bi::None,
  Bi::Panic,
  Bi::Abort,
  Bi::Exit,
  Bi::Malloc,
  Bi::Calloc,
  Bi::Realloc,
  Bi::Free,
  Bi::PosixMemalign,
  Bi::KeyCreate,
  Bi::Memcmp,
  Bi::Strlen,
  Bi::GetRandom,
  Bi::RetZero,
  Bi::Write,
  Bi::HashOne,
  Bi::HashWrite,
  Bi::SymBytes,
  Bi::SymChoice,
  Bi::SymRange,
  Bi::SymBits,
  Bi::SymAssume,
  Bi::SymAssert,
  Bi::SymCover,
  Bi::SymObs,
  Bi::SymKnown,
  Bi::SymOpaque,
  Bi::SymConcrete,
  Bi::Memcpy,
  Bi::Memset,
  Bi::Intr,
  Bi::FloatParse64,
  Bi::FmtDec,
  Bi::FmtDecInner,
  Bi::FmtDisplay,
  Bi::FloatParse32,
  Bi::Missing,
];

/// Decide which functions are executed by the engine itself.
pub fn builtins(m: &Module) -> Vec<u8> {
  m.fns
    .iter()
    .map(|f| {
      let n = f.name.as_str();
      let b = match n {
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign,
        "memcmp" | "bcmp" => Bi::Memcmp,
        "strlen" => Bi::Strlen,
        "getrandom" => Bi::GetRandom,
        "abort" | "llvm.trap" => Bi::Abort,
        "exit" | "_exit" => Bi::Exit,
        "write" | "writev" => Bi::Write,
        "memcpy" | "memmove" => Bi::Memcpy,
        "memset" => Bi::Memset,
        "sym_native" | "sym_note" | "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" => Bi::RetZero,
        "pthread_key_create" => Bi::KeyCreate,
        "sym_bytes" => Bi::SymBytes,
        "sym_choice" => Bi::SymChoice,
        "sym_range" => Bi::SymRange,
        "sym_bits" => Bi::SymBits,
        "sym_assume" => Bi::SymAssume,
        "sym_assert" => Bi::SymAssert,
        "sym_cover" => Bi::SymCover,
        "sym_obs" => Bi::SymObs,
        "sym_known" => Bi::SymKnown,
        "sym_opaque" => Bi::SymOpaque,
        "sym_concrete" => Bi::SymConcrete,
        _ if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") => Bi::Memcpy,
        _ if n.starts_with("llvm.memset") => Bi::Memset,
        _ if n.starts_with("llvm.") => Bi::Intr,
        _ if n.contains("4core9panicking")
          || n.contains("3std9panicking")
          || n.contains("13unwrap_failed")
          || n.contains("4core6option13expect_failed")
          || n.contains("5alloc18handle_alloc_error")
          || n.contains("5slice5index16slice_index_fail")
          || n.contains("3str16slice_error_fail")
          || n.contains("4cell19panic_already_borrowed")
          || n.contains("4cell27panic_already_mutably_borrowed")
          || n.contains("__rust_start_panic")
          || n.contains("10rust_panic") =>
        {
          Bi::Panic
        },
        _ if n.contains("8hash_one") && n.contains("BuildHasher") => Bi::HashOne,
        _ if n.contains("4hash3sip") && n.contains("6Hasher5write") => Bi::HashWrite,
        _ if n.contains("4core3fmt3num") && n.ends_with("4__fmt") => Bi::FmtDec,
        _ if n.contains("4core3fmt3num") && n.ends_with("10__fmt_inner") => Bi::FmtDecInner,
        _ if (n.contains("4core3fmt3num3imp") || n.contains("4core3fmt5float")) && n.ends_with("7Display3fmt") && display_type(n).is_some() => Bi::FmtDisplay,
        _ if n.contains("float_parsedNt") && n.contains("FromStr8from_str") => Bi::FloatParse64,
        _ if n.contains("float_parsefNt") && n.contains("FromStr8from_str") => Bi::FloatParse32,
        _ if f.body.is_none() => Bi::Missing,
        _ => Bi::None,
      };
      BIS.iter().position(|x| *x == b).unwrap() as u8
    })
    .collect()
}

/// Width and signedness of the integer type of a `Display` implementation.
fn display_type(n: &str) -> Option<(u32, bool)> {
  // only written if digits are of no interest
  if n.contains("4core3fmt5floatdNt") {
    return Some((64, false));
  }
  if n.contains("4core3fmt5floatfNt") {
    return Some((32, false));
  }
  let rest = n.split("4core3fmt3num3imp").nth(1)?;
  if !rest[1..].starts_with("Nt") {
    return None;
  }
  Some(match rest.as_bytes()[0] {
    b'a' => (8, true),
    b's' => (16, true),
    b'l' => (32, true),
    b'x' | b'i' => (64, true),
    b'h' => (8, false),
    b't' => (16, false),
    b'm' => (32, false),
    b'y' | b'j' => (64, false),
    _ => return None,
  })
}

fn short(n: &str) -> String {
  // Last path components of a v0-mangled name, good enough for reports.
  let mut parts: Vec<&str> = vec![];
  let b = n.as_bytes();
  let mut i = 0;
  while i < b.len() {
    if b[i].is_ascii_digit() && b[i] != b'0' {
      let st = i;
      while i < b.len() && b[i].is_ascii_digit() {
        i += 1
      }
      if let Ok(k) = n[st..i].parse::<usize>() {
        let mut s = i;
        if s < b.len() && b[s] == b'_' {
          s += 1
        }
        if s + k <= b.len() && k > 1 && n.is_char_boundary(s) && n.is_char_boundary(s + k) {
          let w = &n[s..s + k];
          if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !w.as_bytes()[0].is_ascii_digit() {
            parts.push(w);
            i = s + k;
            continue;
          }
        }
      }
    } else {
      i += 1
    }
  }
  let k = parts.len().min(5);
  if parts.is_empty() {
    n.to_owned()
  } else {
    parts[..k].join("::")
  }
}

impl Exec {
  pub fn new(m: Arc<Module>, bi: Arc<Vec<u8>>, cfg: Arc<Config>, shared: Arc<Shared>, entry: u32, z3_timeout: u32) -> Exec {
    let mut base = Mem { regions: [vec![], vec![], vec![]] };
    base.map(GLOBAL_BASE, m.global_end - GLOBAL_BASE + 64);
    for (a, b) in &m.init {
      let mut i = 0;
      while i < b.len() {
        let k = (b.len() - i).min(16);
        let mut t = [0u8; 16];
        t[..k].copy_from_slice(&b[i..i + k]);
        base.write_concrete(a + i as u64, k, u128::from_le_bytes(t)).unwrap();
        i += k;
      }
    }
    let n = m.fns.len();
    Exec {
      m,
      bi,
      funcs: vec![None; n],
      ar: Arena::new(),
      z3: Z3::new(z3_timeout),
      work: vec![],
      cfg,
      rep: Report::default(),
      pool: vec![],
      pad_integral: None,
      base,
      var_keys: Default::default(),
      shared,
      entry,
      seen_viol: BTreeMap::new(),
    }
  }

  fn func(&mut self, id: u32) -> Rc<Func> {
    if let Some(f) = &self.funcs[id as usize] {
      return f.clone();
    }
    let f = Rc::new(self.m.compile(id));
    self.rep.funcs.insert(f.name.clone());
    self.funcs[id as usize] = Some(f.clone());
    f
  }

  fn initial(&mut self, prefix: Vec<u64>) -> State {
    let f = self.func(self.entry);
    let regs = vec![Val::C(0); f.nslots as usize];
    State {
      cur: Frame { func: f, pc: 0, regs, sp_save: STACK_BASE, ret_dst: 0, ret_n: 0, call_pc: 0 },
      stack: None,
      depth: 0,
      mem: self.base.clone(),
      sp: STACK_BASE,
      heap_top: HEAP_BASE + 64,
      free: [0; 48],
      doms: Rc::new(vec![]),
      coupled: 0,
      cons: None,
      model: Rc::new(vec![]),
      model_ok: true,
      inputs: None,
      ninputs: 0,
      trace: None,
      ntrace: 0,
      prefix: if prefix.is_empty() { None } else { Some(Rc::new(prefix)) },
      ppos: 0,
      obs: None,
      covers: 0,
      known: 0,
      opaque: false,
      pins: None,
      steps: 0,
      sw_skip: 0,
    }
  }

  pub fn worker(&mut self) {
    struct Guard(Arc<Shared>);
    impl Drop for Guard {
      fn drop(&mut self) {
        if std::thread::panicking() {
          self.0.stop.store(true, Ordering::Relaxed);
        }
      }
    }
    let _guard = Guard(self.shared.clone());
    loop {
      let item = {
        let shared = self.shared.clone();
        let mut q = shared.queue.lock().unwrap();
        loop {
          if self.shared.stop.load(Ordering::Relaxed) || Instant::now() > self.cfg.deadline {
            self.rep.truncated += q.0.len() as u64;
            q.0.clear();
            self.finish();
            return;
          }
          if let Some(p) = q.0.pop() {
            q.1 += 1; // active
            break p;
          }
          if q.1 == 0 {
            self.shared.cv.notify_all();
            self.finish();
            return;
          }
          self.shared.idle.fetch_add(1, Ordering::Relaxed);
          let (g, _) = self.shared.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap();
          q = g;
          self.shared.idle.fetch_sub(1, Ordering::Relaxed);
        }
      };
      let s = self.initial(item);
      self.work.push(s);
      while let Some(st) = self.work.pop() {
        if Instant::now() > self.cfg.deadline || self.shared.stop.load(Ordering::Relaxed) {
          self.rep.truncated += 1 + self.work.len() as u64;
          self.work.clear();
          self.shared.stop.store(true, Ordering::Relaxed);
          break;
        }
        self.run(st);
        self.share();
      }
      let shared = self.shared.clone();
      let mut q = shared.queue.lock().unwrap();
      q.1 -= 1;
      self.shared.cv.notify_all();
    }
  }

  fn share(&mut self) {
    if self.work.len() >= 2 && self.shared.idle.load(Ordering::Relaxed) > 0 {
      let mut q = self.shared.queue.lock().unwrap();
      if q.0.len() < self.shared.nthreads {
        let s = self.work.remove(0);
        if s.prefix.is_some() && s.ppos < s.prefix.as_ref().unwrap().len() {
          q.0.push(s.prefix.as_ref().unwrap().to_vec());
        } else {
          q.0.push(list_vec(&s.trace));
        }
        self.shared.cv.notify_one();
      }
    }
  }

  fn finish(&mut self) {
    self.rep.z3 = self.z3.stats.clone();
  }

  // ---------------------------------------------------------------- expressions

  #[inline]
  fn e(&mut self, v: Val, w: u32) -> E {
    match v {
      Val::C(k) => self.ar.konst(k, w),
      Val::S(e) => e,
    }
  }

  #[inline]
  fn v(&self, e: E) -> Val {
    match self.ar.is_const(e) {
      Some(k) => Val::C(k),
      None => Val::S(e),
    }
  }

  fn in_prefix(st: &State) -> bool {
    match &st.prefix {
      Some(p) => st.ppos < p.len(),
      None => false,
    }
  }

  /// Variables of `sup` which are not fixed by their domain.
  fn effective(&self, st: &State, sup: u128) -> u128 {
    let mut r = 0;
    let mut s = sup;
    while s != 0 {
      let v = s.trailing_zeros() as usize;
      s &= s - 1;
      if self.ar.vars[v].w != 8 || st.doms[v].iter().map(|x| x.count_ones()).sum::<u32>() != 1 {
        r |= 1 << v;
      }
    }
    r
  }

  fn add_constraint(&mut self, st: &mut State, c: E) {
    let n = self.ar.nodes[c as usize];
    match n.op {
      Op::Const => {},
      Op::And => {
        self.add_constraint(st, n.a);
        self.add_constraint(st, n.b);
      },
      Op::InSet => {
        let s = self.ar.sets[n.k as usize];
        let d = Rc::make_mut(&mut st.doms);
        d[n.a as usize] = set_and(&d[n.a as usize], &s);
      },
      Op::Xor if n.w == 1 && self.ar.is_const(n.b) == Some(1) && self.ar.nodes[n.a as usize].op == Op::Or => {
        let o = self.ar.nodes[n.a as usize];
        let x = self.ar.not(o.a);
        let y = self.ar.not(o.b);
        self.add_constraint(st, x);
        self.add_constraint(st, y);
      },
      _ => {
        let sup = self.ar.sup(c);
        if self.effective(st, sup) != sup {
          // variables fixed by their domain do not couple others
          let s = self.ar.simp(c, &st.doms);
          if self.ar.is_const(s) == Some(1) {
            return;
          }
          if s != c && self.ar.is_const(s).is_none() {
            self.add_constraint(st, s);
            return;
          }
        }
        // already present?
        let mut cur = st.cons.as_ref();
        while let Some(l) = cur {
          if l.v == c {
            return;
          }
          cur = l.next.as_ref();
        }
        st.coupled |= self.ar.sup(c);
        st.cons = Some(Rc::new(List { v: c, next: st.cons.take() }));
      },
    }
  }

  /// Constraints transitively sharing variables with `sup`.
  fn slice(&self, st: &State, sup: u128) -> (Vec<E>, u128) {
    let all = list_vec(&st.cons);
    let mut s = sup;
    let mut used = vec![false; all.len()];
    loop {
      let mut ch = false;
      for (i, c) in all.iter().enumerate() {
        if !used[i] && self.ar.sup(*c) & s != 0 {
          used[i] = true;
          s |= self.ar.sup(*c);
          ch = true;
        }
      }
      if !ch {
        break;
      }
    }
    (all.iter().zip(used).filter(|x| x.1).map(|x| *x.0).collect(), s)
  }

  fn query(&mut self, st: &State, sup: u128, extra: &[E], full: bool) -> (Res, Vec<usize>) {
    let extra: Vec<E> = extra.iter().map(|e| self.ar.simp(*e, &st.doms)).collect();
    self.query_as(st, sup, &extra, full, false)
  }

  fn query_raw(&mut self, st: &State, sup: u128, extra: &[E]) -> (Res, Vec<usize>) {
    self.query_as(st, sup, extra, false, false)
  }

  fn query_as(&mut self, st: &State, sup: u128, extra: &[E], full: bool, exact: bool) -> (Res, Vec<usize>) {
    let (mut cons, s) = if full {
      let all = list_vec(&st.cons);
      (all, u128::MAX)
    } else {
      self.slice(st, sup)
    };
    cons.extend_from_slice(extra);
    let mut doms = vec![];
    let mut vars = vec![];
    for l in list_vec(&st.inputs) {
      let v = l as usize;
      if s >> v & 1 == 1 {
        if self.ar.vars[v].w == 8 {
          doms.push((v, st.doms[v]));
        }
        vars.push(v);
      }
    }
    (self.z3.check(&self.ar, &doms, &cons, &vars, exact), vars)
  }

  /// Guess a model with some simple numbers, which is cheaper than the solver.
  fn guess(&mut self, st: &State, extra: &[E]) -> Option<Vec<u128>> {
    let cons = list_vec(&st.cons);
    let mut m: Vec<u128> = st.model.iter().copied().take(FP_BASE).collect();
    if cons.iter().chain(extra).all(|e| self.ar.eval(*e, &m) == 1) {
      return Some(m);
    }
    let mut seed = 1u64;
    for _ in 0..24 {
      for l in list_vec(&st.inputs) {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let v = l as usize;
        m[v] = match self.ar.vars[v].w {
          8 => set_first(&st.doms[v]).unwrap_or(0) as u128,
          32 => (((seed >> 33) as u32 % 4096) as f32 / 64.0).to_bits() as u128,
          64 if seed >> 40 & 3 == 0 => (seed >> 50) as u128,
          64 => (((seed >> 33) as u32 % 4096) as f64 / 64.0).to_bits() as u128,
          _ => st.model[v],
        };
      }
      if cons.iter().chain(extra).all(|e| self.ar.eval(*e, &m) == 1) {
        return Some(m);
      }
    }
    None
  }

  /// A model of the path condition and of `extra` in which floating-point operations have their
  /// values.
  fn exact_model(&mut self, st: &State, extra: &[E]) -> R<Option<Vec<u128>>> {
    let cons = list_vec(&st.cons);
    if !cons.iter().chain(extra).any(|e| self.ar.has_fp(*e)) && extra.is_empty() {
      return Ok(Some(st.model.to_vec()));
    }
    if let Some(m) = self.guess(st, extra) {
      return Ok(Some(m));
    }
    let mut m: Vec<u128> = st.model.iter().copied().take(FP_BASE).collect();
    self.rep.fp_queries += 1;
    if std::env::var_os("SYMEX_FPQ").is_some() {
      eprintln!("fpq extra {:?} site {}", extra.iter().map(|e| self.ar.show(*e, 6)).collect::<Vec<_>>(), self.site(st));
      for c in &cons { eprintln!("  given {}", self.ar.show(*c, 6)); }
    }
    match self.query_as(st, u128::MAX, extra, true, true).0 {
      Res::Sat(vals) => {
        for (v, x) in vals {
          Arena::assign(&mut m, v, x);
        }
        Ok(Some(m))
      },
      Res::Unsat => Ok(None),
      Res::Unknown => Err(End::Error("solver: unknown with floating-point operations".into())),
    }
  }

  /// A violation, if the path is feasible.
  fn violation_here(&mut self, st: &State, kind: &str, id: u32) {
    match self.exact_model(st, &[]) {
      Ok(Some(m)) => self.violation(st, kind, id, &m),
      Ok(None) => {},
      Err(End::Error(e)) => *self.rep.errors.entry(e).or_default() += 1,
      Err(_) => {},
    }
  }

  fn ensure_model(&mut self, st: &mut State) -> R<()> {
    if st.model_ok {
      return Ok(());
    }
    let mut m = st.model.to_vec();
    for l in list_vec(&st.inputs) {
      let v = l as usize;
      if m.len() <= v {
        m.resize(v + 1, 0);
      }
      if self.ar.vars[v].w == 8 {
        m[v] = set_first(&st.doms[v]).ok_or_else(|| End::Error("empty domain in replay".into()))? as u128;
      }
    }
    if st.cons.is_some() {
      match self.query(st, u128::MAX, &[], true).0 {
        Res::Sat(vals) => {
          for (v, x) in vals {
            Arena::assign(&mut m, v, x);
          }
        },
        Res::Unsat => return Err(End::Error("infeasible prefix".into())),
        Res::Unknown => return Err(End::Error("solver: unknown on prefix".into())),
      }
    }
    st.model = Rc::new(m);
    st.model_ok = true;
    Ok(())
  }

  /// Is `c` satisfiable together with the path condition?  Returns a model.
  /// With `confirm`, a negative answer of the cheap domain reasoning is put to the solver.
  fn feasible(&mut self, st: &State, c: E) -> R<Option<Rc<Vec<u128>>>> {
    let q0 = self.z3.stats.queries;
    let r = self.feasible0(st, c)?;
    if r.is_none() && self.cfg.confirm && self.z3.stats.queries == q0 && self.ar.is_const(c).is_none() {
      self.rep.confirmed += 1;
      let sup = self.ar.sup(c);
      match self.query_raw(st, sup, &[c]).0 {
        Res::Unsat => {},
        Res::Sat(_) => return Err(End::Error("solver contradicts the domain reasoning".into())),
        Res::Unknown => return Err(End::Error("solver: unknown on branch".into())),
      }
    }
    Ok(r)
  }

  fn feasible0(&mut self, st: &State, c: E) -> R<Option<Rc<Vec<u128>>>> {
    if let Some(k) = self.ar.is_const(c) {
      return Ok(if k == 1 { Some(st.model.clone()) } else { None });
    }
    if self.ar.eval(c, &st.model) == 1 {
      return Ok(Some(st.model.clone()));
    }
    let c = if self.ar.as_in_set(c).is_some() { c } else { self.ar.simp(c, &st.doms) };
    if let Some(k) = self.ar.is_const(c) {
      self.rep.fast_decided += 1;
      if k == 1 {
        // the current model has other values for floating-point operations
        return Ok(Some(Rc::new(st.model.iter().copied().take(FP_BASE).collect())));
      }
      return Ok(None); // false under the current model
    }
    let fp = self.ar.has_fp(c);
    // direct domain intersection
    if let Some((v, s)) = self.ar.as_in_set(c) {
      let d = set_and(&st.doms[v], &s);
      if set_empty(&d) {
        self.rep.fast_decided += 1;
        return Ok(None);
      }
      let cons = if st.coupled >> v & 1 == 1 { self.slice(st, 1u128 << v).0 } else { vec![] };
      let mut m = st.model.to_vec();
      for x in set_iter(&d) {
        m[v] = x as u128;
        if cons.iter().all(|e| self.ar.eval(*e, &m) == 1) {
          self.rep.fast_decided += 1;
          return Ok(Some(Rc::new(m)));
        }
        if cons.is_empty() {
          break;
        }
      }
    } else {
      let sup = self.ar.sup(c);
      let eff = self.effective(st, sup);
      if eff == 0 && !fp {
        self.rep.fast_decided += 1;
        return Ok(None); // evaluates to false under the only assignment
      }
      // try changing one variable
      let (cons, _) = self.slice(st, sup);
      let mut e2 = eff;
      let mut tries = 0;
      while e2 != 0 && tries < 6 {
        let v = e2.trailing_zeros() as usize;
        e2 &= e2 - 1;
        if self.ar.vars[v].w != 8 {
          continue;
        }
        tries += 1;
        let mut m = st.model.to_vec();
        let d = st.doms[v];
        for x in set_iter(&d) {
          m[v] = x as u128;
          if self.ar.eval(c, &m) == 1 && cons.iter().all(|e| self.ar.eval(*e, &m) == 1) {
            self.rep.fast_decided += 1;
            return Ok(Some(Rc::new(m)));
          }
        }
        if eff.count_ones() == 1 && cons.is_empty() && !fp {
          self.rep.fast_decided += 1;
          return Ok(None);
        }
      }
    }
    let sup = self.ar.sup(c);
    match self.query(st, sup, &[c], false).0 {
      Res::Sat(vals) => {
        let mut m = st.model.to_vec();
        for (v, x) in vals {
          Arena::assign(&mut m, v, x);
        }
        Ok(Some(Rc::new(m)))
      },
      Res::Unsat => Ok(None),
      Res::Unknown => Err(End::Error("solver: unknown on branch".into())),
    }
  }

  fn record(st: &mut State, d: u64) {
    st.trace = Some(Rc::new(List { v: d, next: st.trace.take() }));
    st.ntrace += 1;
  }

  /// Resolve a symbolic branch.  The other side (if feasible) is returned as a cloned state
  /// with its constraint added; the caller positions it.
  fn branch(&mut self, st: &mut State, c: E) -> R<(bool, Option<State>)> {
    if let Some(k) = self.ar.is_const(c) {
      return Ok((k == 1, None));
    }
    self.rep.branches_sym += 1;
    if Self::in_prefix(st) {
      let d = st.prefix.as_ref().unwrap()[st.ppos];
      st.ppos += 1;
      Self::record(st, d);
      if d & 2 == 0 {
        let k = if d & 1 == 1 { c } else { self.ar.not(c) };
        self.add_constraint(st, k);
        st.model_ok = false;
      }
      return Ok((d & 1 == 1, None));
    }
    self.ensure_model(st)?;
    let b = self.ar.eval(c, &st.model) == 1;
    let nc = self.ar.not(c);
    let (this, other) = if b { (c, nc) } else { (nc, c) };
    match self.feasible(st, other)? {
      None => {
        Self::record(st, b as u64 | 2);
        Ok((b, None))
      },
      Some(m) => {
        self.rep.forks += 1;
        let mut o = st.clone();
        o.model = m;
        self.add_constraint(&mut o, other);
        Self::record(&mut o, !b as u64);
        self.add_constraint(st, this);
        Self::record(st, b as u64);
        Ok((b, Some(o)))
      },
    }
  }

  /// Make a symbolic value concrete by forking over its feasible values.
  /// Forked states re-execute the current instruction.
  fn concretize(&mut self, st: &mut State, v: Val, what: &str) -> R<u128> {
    let e = match v {
      Val::C(k) => return Ok(k),
      Val::S(e) => e,
    };
    let mut cur = st.pins.as_ref();
    while let Some(l) = cur {
      if l.v.0 == e {
        return Ok(l.v.1);
      }
      cur = l.next.as_ref();
    }
    let w = self.ar.w(e);
    if Self::in_prefix(st) {
      let d = st.prefix.as_ref().unwrap()[st.ppos] as u128;
      st.ppos += 1;
      Self::record(st, d as u64);
      let k = self.ar.konst(d, w);
      let c = self.ar.bin(Op::Eq, e, k);
      self.add_constraint(st, c);
      st.pins = Some(Rc::new(List { v: (e, d), next: st.pins.take() }));
      st.model_ok = false;
      return Ok(d);
    }
    self.ensure_model(st)?;
    self.rep.branches_sym += 1;
    let mine = self.ar.eval(e, &st.model);
    let doms = st.doms.clone();
    let mut alts: Vec<(u128, Rc<Vec<u128>>)> = vec![];
    match self.ar.values(e, 600, &doms) {
      Some(vals) => {
        for x in vals {
          if x == mine {
            continue;
          }
          let k = self.ar.konst(x, w);
          let c = self.ar.bin(Op::Eq, e, k);
          if let Some(m) = self.feasible(st, c)? {
            alts.push((x, m));
          }
        }
      },
      None => {
        // enumerate with the solver
        let k = self.ar.konst(mine, w);
        let eq = self.ar.bin(Op::Eq, e, k);
        let mut excl = self.ar.not(eq);
        loop {
          match self.feasible(st, excl)? {
            None => break,
            Some(m) => {
              let x = self.ar.eval(e, &m);
              let k = self.ar.konst(x, w);
              let eq = self.ar.bin(Op::Eq, e, k);
              let ne = self.ar.not(eq);
              excl = self.ar.bin(Op::And, excl, ne);
              alts.push((x, m));
            },
          }
          if alts.len() > 300 {
            return Err(End::Error(format!("too many values while concretising {what}: {}", self.ar.show(e, 6))));
          }
        }
      },
    }
    for (x, m) in alts {
      if x >> 64 != 0 {
        return Err(End::Error("wide concretisation".into()));
      }
      self.rep.forks += 1;
      let mut o = st.clone();
      o.model = m;
      let k = self.ar.konst(x, w);
      let c = self.ar.bin(Op::Eq, e, k);
      self.add_constraint(&mut o, c);
      o.pins = Some(Rc::new(List { v: (e, x), next: o.pins.take() }));
      Self::record(&mut o, x as u64);
      o.cur.pc -= 1;
      self.work.push(o);
    }
    if mine >> 64 != 0 {
      return Err(End::Error("wide concretisation".into()));
    }
    let k = self.ar.konst(mine, w);
    let c = self.ar.bin(Op::Eq, e, k);
    self.add_constraint(st, c);
    st.pins = Some(Rc::new(List { v: (e, mine), next: st.pins.take() }));
    Self::record(st, mine as u64);
    Ok(mine)
  }

  // ---------------------------------------------------------------- memory

  fn load_c(&mut self, st: &State, addr: u64, bits: u32) -> R<Val> {
    let n = bits.div_ceil(8) as usize;
    if let Some(v) = st.mem.read_concrete(addr, n)? {
      return Ok(Val::C(v & mask(bits)));
    }
    // gather
    let mut bs = Vec::with_capacity(n);
    for i in 0..n {
      bs.push(st.mem.get(addr + i as u64)?);
    }
    // the same expression in order?
    if let B::S(e, 0) = bs[0] {
      if self.ar.w(e) == n as u32 * 8 && bs.iter().enumerate().all(|(i, b)| *b == B::S(e, i as u8)) {
        return Ok(if bits < n as u32 * 8 {
          let x = self.ar.extract(e, 0, bits);
          self.v(x)
        } else {
          Val::S(e)
        });
      }
    }
    let mut acc: Option<E> = None;
    for b in bs.iter().rev() {
      let x = match b {
        B::C(c) => self.ar.konst(*c as u128, 8),
        B::S(e, i) => self.ar.extract(*e, *i as u32 * 8, 8),
      };
      acc = Some(match acc {
        None => x,
        Some(a) => self.ar.bin(Op::Concat, a, x),
      });
    }
    let mut r = acc.unwrap();
    if bits < n as u32 * 8 {
      r = self.ar.extract(r, 0, bits);
    }
    Ok(self.v(r))
  }

  fn load(&mut self, st: &mut State, addr: Val, bits: u32) -> R<Val> {
    let e = match addr {
      Val::C(a) => return self.load_c(st, a as u64, bits),
      Val::S(e) => e,
    };
    let mut cur = st.pins.as_ref();
    while let Some(l) = cur {
      if l.v.0 == e {
        let a = l.v.1 as u64;
        return self.load_c(st, a, bits);
      }
      cur = l.next.as_ref();
    }
    // single byte variable: full table
    if let Some(v) = self.ar.single_byte(e) {
      let t = self.ar.byte_table(e);
      let d = st.doms[v];
      let mut out = vec![0u128; 256];
      let mut ok = true;
      let mut any = None;
      for i in set_iter(&d) {
        match self.load_c(st, t[i] as u64, bits)? {
          Val::C(k) => {
            out[i] = k;
            any = Some(k);
          },
          Val::S(_) => {
            ok = false;
            break;
          },
        }
      }
      if ok {
        // don't-care entries take a feasible value, which simplifies the table
        let fill = any.unwrap_or(0);
        for i in 0..256 {
          if !set_has(&d, i) {
            out[i] = fill;
          }
        }
        let idx = self.ar.var_expr(v);
        let r = self.ar.table(idx, out, bits);
        return Ok(self.v(r));
      }
    }
    let doms = st.doms.clone();
    if let Some(vals) = self.ar.values(e, 600, &doms) {
      let lo = vals[0];
      let hi = vals[vals.len() - 1];
      let mut items = vec![];
      let mut conc = true;
      for x in &vals {
        match self.load_c(st, *x as u64, bits) {
          Ok(v) => {
            if let Val::S(_) = v {
              conc = false
            }
            items.push((*x, v));
          },
          Err(_) => {
            // an over-approximated candidate: it must be infeasible
            let k = self.ar.konst(*x, 64);
            let c = self.ar.bin(Op::Eq, e, k);
            if !Self::in_prefix(st) {
              self.ensure_model(st)?;
              if self.feasible(st, c)?.is_some() {
                return Err(End::Error(format!("symbolic load may access {x:#x}")));
              }
            }
          },
        }
      }
      if conc && hi - lo < 4096 && items.len() > 1 {
        let mut t = vec![0u128; (hi - lo + 1) as usize];
        for (x, v) in &items {
          if let Val::C(k) = v {
            t[(x - lo) as usize] = *k;
          }
        }
        let k = self.ar.konst(lo, 64);
        let off = self.ar.bin(Op::Sub, e, k);
        let idx = self.ar.extract(off, 0, 16);
        let r = self.ar.table(idx, t, bits);
        return Ok(self.v(r));
      }
      if items.len() <= 64 && !items.is_empty() {
        let mut r = None;
        for (x, v) in items {
          let ve = self.e(v, bits);
          r = Some(match r {
            None => ve,
            Some(p) => {
              let k = self.ar.konst(x, 64);
              let c = self.ar.bin(Op::Eq, e, k);
              self.ar.ite(c, ve, p)
            },
          });
        }
        return Ok(self.v(r.unwrap()));
      }
    }
    let a = self.concretize(st, addr, "load address")?;
    self.load_c(st, a as u64, bits)
  }

  fn store_c(&mut self, st: &mut State, addr: u64, bits: u32, v: Val) -> R<()> {
    let n = bits.div_ceil(8);
    match v {
      Val::C(k) => st.mem.write_concrete(addr, n as usize, k)?,
      Val::S(e) => {
        let e = if bits != n * 8 { self.ar.zext(e, n * 8) } else { e };
        for i in 0..n {
          st.mem.put(addr + i as u64, B::S(e, i as u8))?;
        }
      },
    }
    Ok(())
  }

  fn malloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
    let align = align.max(16);
    let size = size.max(16);
    let cls = (64 - (size - 1).leading_zeros()) as usize; // ceil log2
    if align <= 16 {
      let h = st.free[cls];
      if h != 0 {
        if let Ok(Some(nx)) = st.mem.read_concrete(h, 8) {
          st.free[cls] = nx as u64;
          st.mem.write_concrete(h - 8, 8, (cls as u64 | (size << 8)) as u128).unwrap();
          return h;
        }
      }
    }
    let csize = 1u64 << cls;
    let mut p = st.heap_top + 16;
    p = p.div_ceil(align) * align;
    st.mem.map(p - 16, csize + 16);
    st.heap_top = p + csize;
    st.mem.write_concrete(p - 8, 8, (cls as u64 | (size << 8)) as u128).unwrap();
    p
  }

  fn free(&mut self, st: &mut State, p: u64) -> R<()> {
    if p == 0 {
      return Ok(());
    }
    let h = st.mem.read_concrete(p - 8, 8)?.unwrap_or(0) as u64;
    let cls = (h & 255) as usize;
    if cls >= 48 {
      return Err(End::Error(format!("free of bad pointer {p:#x}")));
    }
    // drop symbolic contents so that pages become plain again
    let n = st.free[cls];
    let size = (h >> 8).min(1 << cls);
    let mut has_sym = false;
    let mut a = p;
    while a < p + size {
      if let Ok((pg, _)) = st.mem.page(a) {
        if pg.sym.is_some() {
          has_sym = true;
        }
      }
      a = (a / PS as u64 + 1) * PS as u64;
    }
    if has_sym {
      for i in 0..size {
        if let Ok(B::S(..)) = st.mem.get(p + i) {
          st.mem.put(p + i, B::C(0))?;
        }
      }
    }
    st.mem.write_concrete(p, 8, n as u128)?;
    st.free[cls] = p;
    Ok(())
  }

  // ---------------------------------------------------------------- end of paths

  fn inputs(&self, st: &State, model: &[u128]) -> Vec<(u32, u128)> {
    list_vec(&st.inputs).iter().map(|v| (self.ar.vars[*v as usize].w, model.get(*v as usize).copied().unwrap_or(0))).collect()
  }

  fn site(&self, st: &State) -> String {
    // innermost frames of the repository's crate
    let mut v = vec![];
    let mut all = vec![short(&st.cur.func.name)];
    if st.cur.func.name.contains("6cmacro") {
      v.push(short(&st.cur.func.name));
    }
    let mut c = st.stack.as_ref();
    while let Some(n) = c {
      if n.frame.func.name.contains("6cmacro") && v.len() < 3 {
        v.push(short(&n.frame.func.name));
      }
      if all.len() < 4 {
        all.push(short(&n.frame.func.name));
      }
      c = n.next.as_ref();
    }
    if v.is_empty() {
      all.join(" < ")
    } else {
      v.join(" < ")
    }
  }

  fn violation(&mut self, st: &State, kind: &str, id: u32, model: &[u128]) {
    let site = if kind == "assert" { String::new() } else { self.site(st) };
    let key = format!("{kind}/{id}/{}/{site}", st.known);
    *self.rep.nviol.entry(key.clone()).or_default() += 1;
    let n = self.seen_viol.entry(key).or_default();
    *n += 1;
    if *n <= self.cfg.keep as u64 {
      let inputs = self.inputs(st, model);
      self.rep.violations.push(Violation { kind: kind.into(), id, known: st.known, site, inputs, steps: st.steps });
    }
  }

  fn path_end(&mut self, st: &mut State, end: End) {
    self.rep.steps += st.steps;
    self.rep.max_path_steps = self.rep.max_path_steps.max(st.steps);
    if Self::in_prefix(st) {
      if !matches!(end, End::Error(_)) {
        *self.rep.errors.entry("path ended inside its decision prefix".into()).or_default() += 1;
        return;
      }
    }
    if !matches!(end, End::Assumed | End::Error(_)) {
      if let Err(End::Error(e)) = self.ensure_model(st) {
        *self.rep.errors.entry(e).or_default() += 1;
        return;
      }
    }
    match end {
      End::Assumed => {
        self.rep.assumed += 1;
        return;
      },
      End::Error(e) => {
        let s = self.site(st);
        let m = format!("{e} [in {s}]");
        *self.rep.errors.entry(m).or_default() += 1;
        return;
      },
      End::Panic(_) => {
        self.rep.paths += 1;
        self.violation_here(st, "panic", 0);
      },
      End::Abort(_) => {
        self.rep.paths += 1;
        self.violation_here(st, "abort", 0);
      },
      End::Steps => {
        self.rep.paths += 1;
        self.violation_here(st, "hang", 0);
      },
      End::Depth => {
        self.rep.paths += 1;
        self.violation_here(st, "stack-overflow", 0);
      },
      End::Done => {
        self.rep.paths += 1;
        let fp = list_vec(&st.cons).iter().any(|e| self.ar.has_fp(*e));
        let mut exact = None;
        if !fp {
          self.rep.covers |= st.covers;
          exact = Some(st.model.clone());
        } else {
          let want = st.covers & !self.rep.covers != 0;
          exact = self.guess(st, &[]).map(Rc::new);
          if exact.is_none() && want && self.rep.paths % 16 == 15 {
            exact = self.exact_model(st, &[]).ok().flatten().map(Rc::new);
          }
          if exact.is_some() {
            self.rep.covers |= st.covers;
          }
        }
        // The path condition itself is discharged to the solver: a path that the
        // fast feasibility checks wrongly kept would show up here.
        if self.cfg.check_paths && (st.cons.is_some() || self.rep.paths % 16 == 1) {
          self.rep.path_queries += 1;
          match self.query(st, u128::MAX, &[], true).0 {
            Res::Sat(_) => {},
            Res::Unsat => {
              self.rep.path_unsat += 1;
              *self.rep.errors.entry("engine kept an infeasible path".into()).or_default() += 1;
            },
            Res::Unknown => self.rep.unknown += 1,
          }
        }
        let n = self.rep.paths;
        if (self.rep.samples.len() as u64) < self.cfg.samples as u64 && (n <= 16 || n % 37 == 0) && exact.is_some() {
          let m = exact.unwrap();
          let obs: Vec<u64> = list_vec(&st.obs)
            .into_iter()
            .map(|v| match v {
              Val::C(k) => k as u64,
              Val::S(e) => self.ar.eval(e, &m) as u64,
            })
            .collect();
          let inputs = self.inputs(st, &m);
          self.rep.samples.push(Sample { inputs, obs, covers: st.covers });
        }
      },
    }
  }

  fn run(&mut self, mut st: State) {
    let r = self.exec(&mut st);
    let end = match r {
      Ok(()) => End::Done,
      Err(e) => e,
    };
    self.path_end(&mut st, end);
    let regs = std::mem::take(&mut st.cur.regs);
    if self.pool.len() < 64 {
      self.pool.push(regs);
    }
  }

  #[inline]
  fn opd(st: &State, o: Opd) -> Val {
    match o {
      Opd::R(r) => st.cur.regs[r as usize],
      Opd::C(k) => Val::C(k),
    }
  }

  fn take_edge(st: &mut State, e: &Edge) {
    let n = e.moves.len();
    if n == 1 {
      let (d, o) = e.moves[0];
      st.cur.regs[d as usize] = Self::opd(st, o);
    } else if n > 1 {
      let mut tmp = [Val::C(0); 16];
      if n <= 16 {
        for i in 0..n {
          tmp[i] = Self::opd(st, e.moves[i].1);
        }
        for i in 0..n {
          st.cur.regs[e.moves[i].0 as usize] = tmp[i];
        }
      } else {
        let v: Vec<Val> = e.moves.iter().map(|m| Self::opd(st, m.1)).collect();
        for (i, x) in v.into_iter().enumerate() {
          st.cur.regs[e.moves[i].0 as usize] = x;
        }
      }
    }
    st.cur.pc = st.cur.func.blocks[e.block as usize] as usize;
  }

  fn exec(&mut self, st: &mut State) -> R<()> {
    loop {
      // The function is kept alive by the frame's Rc for the duration of this instruction.
      let func: *const Func = &*st.cur.func;
      let inst = unsafe { &(&(*func).insts)[st.cur.pc] };
      st.cur.pc += 1;
      st.steps += 1;
      if st.steps > self.cfg.max_steps {
        return Err(End::Steps);
      }
      if st.steps & 0xfffff == 0 && Instant::now() > self.cfg.deadline {
        self.rep.truncated += 1;
        self.shared.stop.store(true, Ordering::Relaxed);
        return Err(End::Assumed);
      }
      match inst {
        Inst::Bin { op, w, lanes, dst, a, b } => {
          let x = Self::opd(st, *a);
          let y = Self::opd(st, *b);
          let r = if *lanes == 1 {
            self.binop(st, *op, *w, x, y)?
          } else {
            self.vec_map2(*lanes, *w, *w, x, y, |ex, x, y| ex.binop_pure(*op, *w, x, y))?
          };
          st.cur.regs[*dst as usize] = r;
        },
        Inst::ICmp { p, w, lanes, dst, a, b } => {
          let x = Self::opd(st, *a);
          let y = Self::opd(st, *b);
          let r = if *lanes == 1 {
            self.icmp(*p, *w, x, y)
          } else {
            self.vec_map2(*lanes, *w, 1, x, y, |ex, x, y| Ok(ex.icmp(*p, *w, x, y)))?
          };
          st.cur.regs[*dst as usize] = r;
        },
        Inst::Select { w, dst, c, a, b } => {
          let c = Self::opd(st, *c);
          let x = Self::opd(st, *a);
          let y = Self::opd(st, *b);
          let r = match c {
            Val::C(k) => {
              if k & 1 == 1 {
                x
              } else {
                y
              }
            },
            Val::S(ce) => {
              if x == y {
                x
              } else {
                let xe = self.e(x, *w);
                let ye = self.e(y, *w);
                let r = self.ar.ite(ce, xe, ye);
                self.v(r)
              }
            },
          };
          st.cur.regs[*dst as usize] = r;
        },
        Inst::Cast { op, from, to, lanes, dst, a } => {
          let x = Self::opd(st, *a);
          let r = if *lanes == 1 {
            self.cast(*op, *from, *to, x)?
          } else {
            let (f, t, o) = (*from, *to, *op);
            let z = Val::C(0);
            let _ = z;
            let mut out = Val::C(0);
            for i in 0..*lanes {
              let l = self.lane(x, i, f, *lanes * f);
              let r = self.cast(o, f, t, l)?;
              out = self.set_lane(out, i, t, *lanes * t, r);
            }
            out
          };
          st.cur.regs[*dst as usize] = r;
        },
        Inst::Gep { dst, base, off, idx } => {
          let mut b = Self::opd(st, *base);
          if idx.is_empty() {
            if let Val::C(k) = b {
              st.cur.regs[*dst as usize] = Val::C((k as u64).wrapping_add(*off as u64) as u128);
              continue;
            }
          }
          b = self.add64(b, Val::C(*off as u64 as u128));
          for (o, w, sc) in idx.iter() {
            let i = Self::opd(st, *o);
            let i = if *w < 64 { self.cast(CastOp::SExt, *w, 64, i)? } else { i };
            let i = match i {
              Val::C(k) => Val::C((k as u64).wrapping_mul(*sc as u64) as u128),
              Val::S(e) => {
                let k = self.ar.konst(*sc as u64 as u128, 64);
                let r = self.ar.bin(Op::Mul, e, k);
                self.v(r)
              },
            };
            b = self.add64(b, i);
          }
          st.cur.regs[*dst as usize] = b;
        },
        Inst::Load { addr, dst, parts } => {
          let a = Self::opd(st, *addr);
          for (i, (o, w)) in parts.iter().enumerate() {
            let ad = if *o == 0 { a } else { self.add64(a, Val::C(*o as u128)) };
            let v = match ad {
              Val::C(x) => self.load_c(st, x as u64, *w)?,
              _ => self.load(st, ad, *w)?,
            };
            st.cur.regs[*dst as usize + i] = v;
          }
        },
        Inst::Store { addr, parts } => {
          let a = Self::opd(st, *addr);
          let a = self.concretize(st, a, "store address")? as u64;
          for (o, w, v) in parts.iter() {
            let x = Self::opd(st, *v);
            self.store_c(st, a + *o as u64, *w, x)?;
          }
        },
        Inst::Alloca { dst, size, align, n } => {
          let n = Self::opd(st, *n);
          let n = self.concretize(st, n, "alloca")? as u64;
          let al = (*align).max(8);
          st.sp = st.sp.div_ceil(al) * al;
          let p = st.sp;
          let sz = (size * n).max(1);
          st.mem.map(p, sz);
          st.sp += sz;
          if st.sp - STACK_BASE > 64 << 20 {
            return Err(End::Depth);
          }
          st.cur.regs[*dst as usize] = Val::C(p as u128);
        },
        Inst::Moves(ms) => {
          for (d, o) in ms.iter() {
            st.cur.regs[*d as usize] = Self::opd(st, *o);
          }
        },
        Inst::Br(e) => Self::take_edge(st, e),
        Inst::CondBr { c, t, f } => match Self::opd(st, *c) {
          Val::C(k) => Self::take_edge(st, if k & 1 == 1 { t } else { f }),
          Val::S(ce) => {
            let (b, other) = self.branch(st, ce)?;
            if let Some(mut o) = other {
              Self::take_edge(&mut o, if b { f } else { t });
              self.work.push(o);
              if self.work.len() >= 2 && self.shared.idle.load(Ordering::Relaxed) > 0 {
                self.share();
              }
            }
            Self::take_edge(st, if b { t } else { f });
          },
        },
        Inst::Switch { w, v, default, cases, map } => match Self::opd(st, *v) {
          Val::C(k) => match map.get(&k) {
            Some(&i) => Self::take_edge(st, &cases[i as usize].1),
            None => Self::take_edge(st, default),
          },
          Val::S(e) => self.switch(st, e, *w, default, cases)?,
        },
        Inst::Call(c) => {
          if self.call(st, c)? {
            return Ok(());
          }
        },
        Inst::Ret(vs) => {
          let mut tmp = [Val::C(0); 16];
          let n = vs.len();
          if n > 16 {
            return Err(End::Error("wide return".into()));
          }
          for i in 0..n {
            tmp[i] = Self::opd(st, vs[i]);
          }
          let node = match st.stack.take() {
            None => return Ok(()),
            Some(n) => n,
          };
          st.depth -= 1;
          let (mut frame, next) = match Rc::try_unwrap(node) {
            Ok(mut n) => {
              let next = n.next.take();
              let f = std::mem::replace(
                &mut n.frame,
                Frame { func: st.cur.func.clone(), pc: 0, regs: vec![], sp_save: 0, ret_dst: 0, ret_n: 0, call_pc: 0 },
              );
              (f, next)
            },
            Err(rc) => (rc.frame.clone(), rc.next.clone()),
          };
          st.stack = next;
          st.sp = st.cur.sp_save;
          let rd = st.cur.ret_dst as usize;
          let rn = (st.cur.ret_n as usize).min(n);
          let call_pc = st.cur.call_pc;
          for i in 0..rn {
            frame.regs[rd + i] = tmp[i];
          }
          let old = std::mem::replace(&mut st.cur, frame);
          if self.pool.len() < 256 {
            self.pool.push(old.regs);
          }
          let f = st.cur.func.clone();
          if let Inst::Call(c) = &f.insts[call_pc] {
            if let Some(e) = &c.normal {
              Self::take_edge(st, e);
            }
          }
        },
        Inst::Unreachable => return Err(End::Error("reached `unreachable`".into())),
        Inst::Unsupported(s) => return Err(End::Error(format!("unsupported: {}", &s[..s.len().min(120)]))),
        Inst::Nop => {},
        Inst::FCmp { p, w, dst, a, b } => {
          let x = self.concretize_f(st, *a)?;
          let y = self.concretize_f(st, *b)?;
          let r = match (x, y) {
            (Val::C(x), Val::C(y)) => Val::C(fcmp(*p, *w, x, y) as u128),
            _ => {
              let x = self.e(x, *w);
              let y = self.e(y, *w);
              let (kind, swap, neg) = match p {
                FPred::Oeq => (FP_EQ, false, false),
                FPred::Une => (FP_EQ, false, true),
                FPred::Ogt => (FP_LT, true, false),
                FPred::Oge => (FP_LE, true, false),
                FPred::Olt => (FP_LT, false, false),
                FPred::Ole => (FP_LE, false, false),
                FPred::Ugt => (FP_LE, false, true),
                FPred::Uge => (FP_LT, false, true),
                FPred::Ult => (FP_LE, true, true),
                FPred::Ule => (FP_LT, true, true),
                FPred::Uno => (FP_UNO, false, false),
                FPred::Ord => (FP_UNO, false, true),
                FPred::One | FPred::Ueq => (FP_EQ, false, *p == FPred::One),
                FPred::True | FPred::False => return Err(End::Error("constant float comparison".into())),
              };
              let (x, y) = if swap { (y, x) } else { (x, y) };
              let mut r = self.ar.fp(kind, *w, 1, x, y);
              if matches!(p, FPred::One | FPred::Ueq) {
                let u = self.ar.fp(FP_UNO, *w, 1, x, y);
                r = self.ar.bin(Op::Or, r, u);
              }
              let r = if neg { self.ar.not(r) } else { r };
              self.v(r)
            },
          };
          st.cur.regs[*dst as usize] = r;
        },
        Inst::FNeg { w, dst, a } => {
          let x = Self::opd(st, *a);
          let k = Val::C(1u128 << (*w - 1));
          let r = self.binop_pure(BinOp::Xor, *w, x, k)?;
          st.cur.regs[*dst as usize] = r;
        },
        Inst::VSelect { w, lanes, dst, c, a, b } => {
          let c = Self::opd(st, *c);
          let x = Self::opd(st, *a);
          let y = Self::opd(st, *b);
          let tot = *w * *lanes;
          let mut out = Val::C(0);
          for i in 0..*lanes {
            let ci = self.lane(c, i, 1, *lanes);
            let xi = self.lane(x, i, *w, tot);
            let yi = self.lane(y, i, *w, tot);
            let r = match ci {
              Val::C(k) => {
                if k == 1 {
                  xi
                } else {
                  yi
                }
              },
              Val::S(ce) => {
                let xe = self.e(xi, *w);
                let ye = self.e(yi, *w);
                let r = self.ar.ite(ce, xe, ye);
                self.v(r)
              },
            };
            out = self.set_lane(out, i, *w, tot, r);
          }
          st.cur.regs[*dst as usize] = out;
        },
        Inst::InsElem { w, lanes, dst, v, e, i } => {
          let v = Self::opd(st, *v);
          let e = Self::opd(st, *e);
          let i = Self::opd(st, *i);
          let i = self.concretize(st, i, "lane")? as u32;
          let r = self.set_lane(v, i, *w, *w * *lanes, e);
          st.cur.regs[*dst as usize] = r;
        },
        Inst::ExtElem { w, dst, v, i } => {
          let v = Self::opd(st, *v);
          let i = Self::opd(st, *i);
          let i = self.concretize(st, i, "lane")? as u32;
          let tot = match v {
            Val::S(e) => self.ar.w(e),
            _ => 128,
          };
          let r = self.lane(v, i, *w, tot);
          st.cur.regs[*dst as usize] = r;
        },
        Inst::Shuffle { w, n1, dst, a, b, mask: m } => {
          let a = Self::opd(st, *a);
          let b = Self::opd(st, *b);
          let tot = *w * *n1;
          let rt = *w * m.len() as u32;
          let mut out = Val::C(0);
          for (i, k) in m.iter().enumerate() {
            if *k < 0 {
              continue;
            }
            let k = *k as u32;
            let l = if k < *n1 { self.lane(a, k, *w, tot) } else { self.lane(b, k - *n1, *w, tot) };
            out = self.set_lane(out, i as u32, *w, rt, l);
          }
          st.cur.regs[*dst as usize] = out;
        },
        Inst::AtomicRmw { op, w, dst, addr, v } => {
          let a = Self::opd(st, *addr);
          let a = self.concretize(st, a, "atomic")? as u64;
          let old = self.load_c(st, a, *w)?;
          let v = Self::opd(st, *v);
          let new = match op.as_str() {
            "xchg" => v,
            "add" => self.binop_pure(BinOp::Add, *w, old, v)?,
            "sub" => self.binop_pure(BinOp::Sub, *w, old, v)?,
            "and" => self.binop_pure(BinOp::And, *w, old, v)?,
            "or" => self.binop_pure(BinOp::Or, *w, old, v)?,
            "xor" => self.binop_pure(BinOp::Xor, *w, old, v)?,
            _ => return Err(End::Error(format!("atomicrmw {op}"))),
          };
          self.store_c(st, a, *w, new)?;
          st.cur.regs[*dst as usize] = old;
        },
        Inst::CmpXchg { w, dst, addr, cmp, new } => {
          let a = Self::opd(st, *addr);
          let a = self.concretize(st, a, "atomic")? as u64;
          let old = self.load_c(st, a, *w)?;
          let c = Self::opd(st, *cmp);
          let n = Self::opd(st, *new);
          match (old, c) {
            (Val::C(x), Val::C(y)) => {
              if x == y {
                self.store_c(st, a, *w, n)?;
              }
              st.cur.regs[*dst as usize] = old;
              st.cur.regs[*dst as usize + 1] = Val::C((x == y) as u128);
            },
            _ => return Err(End::Error("symbolic cmpxchg".into())),
          }
        },
      }
    }
  }

  fn concretize_f(&mut self, st: &mut State, o: Opd) -> R<Val> {
    Ok(Self::opd(st, o))
  }

  fn switch(&mut self, st: &mut State, e: E, w: u32, default: &Edge, cases: &[(u128, Edge)]) -> R<()> {
    // group the cases by destination
    let mut groups: Vec<(&Edge, Vec<u128>)> = vec![];
    for (k, ed) in cases {
      let same = groups.iter_mut().find(|g| {
        g.0.block == ed.block
          && g.0.moves.len() == ed.moves.len()
          && g.0.moves.iter().zip(ed.moves.iter()).all(|(a, b)| {
            a.0 == b.0
              && match (a.1, b.1) {
                (Opd::R(x), Opd::R(y)) => x == y,
                (Opd::C(x), Opd::C(y)) => x == y,
                _ => false,
              }
          })
      });
      match same {
        Some(g) => g.1.push(*k),
        None => groups.push((ed, vec![*k])),
      }
    }
    let skip = std::mem::take(&mut st.sw_skip) as usize;
    for (gi, (ed, ks)) in groups.into_iter().enumerate().skip(skip) {
      let mut c = self.ar.fals();
      for k in ks {
        let kk = self.ar.konst(k, w);
        let eq = self.ar.bin(Op::Eq, e, kk);
        c = self.ar.bin(Op::Or, c, eq);
      }
      if self.ar.is_const(c) == Some(0) {
        continue;
      }
      let (b, other) = self.branch(st, c)?;
      if let Some(mut o) = other {
        if b {
          // `o` is the "not this case" side: it goes on with the remaining cases
          o.cur.pc -= 1;
          o.sw_skip = gi as u32 + 1;
          self.work.push(o);
        } else {
          Self::take_edge(&mut o, ed);
          self.work.push(o);
        }
      }
      if b {
        Self::take_edge(st, ed);
        return Ok(());
      }
    }
    Self::take_edge(st, default);
    Ok(())
  }

  // ---------------------------------------------------------------- operators

  #[inline]
  fn add64(&mut self, a: Val, b: Val) -> Val {
    match (a, b) {
      (Val::C(x), Val::C(y)) => Val::C((x as u64).wrapping_add(y as u64) as u128),
      (Val::S(_), Val::C(0)) => a,
      _ => {
        let x = self.e(a, 64);
        let y = self.e(b, 64);
        let r = self.ar.bin(Op::Add, x, y);
        self.v(r)
      },
    }
  }

  fn binop(&mut self, st: &mut State, op: BinOp, w: u32, x: Val, y: Val) -> R<Val> {
    if let (BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem, Val::S(_)) = (op, y) {
      // Rust checks the divisor before; nothing to do
    }
    let _ = st;
    self.binop_pure(op, w, x, y)
  }

  fn binop_pure(&mut self, op: BinOp, w: u32, x: Val, y: Val) -> R<Val> {
    if let (Val::C(a), Val::C(b)) = (x, y) {
      let m = mask(w);
      return Ok(Val::C(match op {
        BinOp::Add => a.wrapping_add(b) & m,
        BinOp::Sub => a.wrapping_sub(b) & m,
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl if b < w as u128 => (a << b as u32) & m,
        BinOp::LShr if b < w as u128 => a >> b as u32,
        BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if b == 0 => {
          return Err(End::Error("division by zero".into()))
        },
        BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => fbin(op, w, a, b),
        _ => bin_concrete(bop(op), a, b, w),
      }));
    }
    if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) {
      let kind = match op {
        BinOp::FAdd => FP_ADD,
        BinOp::FSub => FP_SUB,
        BinOp::FMul => FP_MUL,
        BinOp::FDiv => FP_DIV,
        _ => return Err(End::Error("symbolic float remainder".into())),
      };
      let a = self.e(x, w);
      let b = self.e(y, w);
      let r = self.ar.fp(kind, w, w, a, b);
      return Ok(self.v(r));
    }
    let a = self.e(x, w);
    let b = self.e(y, w);
    let r = self.ar.bin(bop(op), a, b);
    Ok(self.v(r))
  }

  fn icmp(&mut self, p: Pred, w: u32, x: Val, y: Val) -> Val {
    if let (Val::C(a), Val::C(b)) = (x, y) {
      let r = match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
      };
      return Val::C(r as u128);
    }
    let a = self.e(x, w);
    let b = self.e(y, w);
    let r = match p {
      Pred::Eq => self.ar.bin(Op::Eq, a, b),
      Pred::Ne => {
        let r = self.ar.bin(Op::Eq, a, b);
        self.ar.not(r)
      },
      Pred::Ugt => self.ar.bin(Op::Ult, b, a),
      Pred::Uge => self.ar.bin(Op::Ule, b, a),
      Pred::Ult => self.ar.bin(Op::Ult, a, b),
      Pred::Ule => self.ar.bin(Op::Ule, a, b),
      Pred::Sgt => self.ar.bin(Op::Slt, b, a),
      Pred::Sge => self.ar.bin(Op::Sle, b, a),
      Pred::Slt => self.ar.bin(Op::Slt, a, b),
      Pred::Sle => self.ar.bin(Op::Sle, a, b),
    };
    self.v(r)
  }

  fn cast(&mut self, op: CastOp, from: u32, to: u32, x: Val) -> R<Val> {
    match x {
      Val::C(k) => Ok(Val::C(match op {
        CastOp::Trunc => k & mask(to),
        CastOp::ZExt | CastOp::Mov => k,
        CastOp::SExt => (sext(k, from) as u128) & mask(to),
        CastOp::FpExt => (f32::from_bits(k as u32) as f64).to_bits() as u128,
        CastOp::FpTrunc => (f64::from_bits(k as u64) as f32).to_bits() as u128,
        CastOp::UiToFp => {
          if to == 32 {
            (k as f32).to_bits() as u128
          } else {
            (k as f64).to_bits() as u128
          }
        },
        CastOp::SiToFp => {
          let s = sext(k, from);
          if to == 32 {
            (s as f32).to_bits() as u128
          } else {
            (s as f64).to_bits() as u128
          }
        },
        CastOp::FpToUi => {
          let f = if from == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
          (f as u128) & mask(to)
        },
        CastOp::FpToSi => {
          let f = if from == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
          (f as i128 as u128) & mask(to)
        },
      })),
      Val::S(e) => {
        let r = match op {
          CastOp::Trunc => self.ar.extract(e, 0, to),
          CastOp::ZExt => self.ar.zext(e, to),
          CastOp::SExt => self.ar.sext(e, to),
          CastOp::Mov => e,
          CastOp::FpExt | CastOp::FpTrunc => self.ar.fp(FP_CONV, from, to, e, e),
          CastOp::UiToFp => self.ar.fp(FP_UINT, from, to, e, e),
          CastOp::SiToFp => self.ar.fp(FP_SINT, from, to, e, e),
          CastOp::FpToUi => self.ar.fp(FP_TO_UINT, from, to, e, e),
          CastOp::FpToSi => self.ar.fp(FP_TO_SINT, from, to, e, e),
        };
        Ok(self.v(r))
      },
    }
  }

  fn lane(&mut self, v: Val, i: u32, w: u32, _tot: u32) -> Val {
    match v {
      Val::C(k) => Val::C((k >> (i * w)) & mask(w)),
      Val::S(e) => {
        let r = self.ar.extract(e, i * w, w);
        self.v(r)
      },
    }
  }

  fn set_lane(&mut self, v: Val, i: u32, w: u32, tot: u32, x: Val) -> Val {
    if let (Val::C(k), Val::C(y)) = (v, x) {
      let m = mask(w) << (i * w);
      return Val::C((k & !m) | (y << (i * w)));
    }
    let e = self.e(v, tot);
    let xe = self.e(x, w);
    let mut r = xe;
    if i > 0 {
      let lo = self.ar.extract(e, 0, i * w);
      r = self.ar.bin(Op::Concat, r, lo);
    }
    if (i + 1) * w < tot {
      let hi = self.ar.extract(e, (i + 1) * w, tot - (i + 1) * w);
      r = self.ar.bin(Op::Concat, hi, r);
    }
    self.v(r)
  }

  fn vec_map2(
    &mut self,
    lanes: u32,
    w: u32,
    rw: u32,
    x: Val,
    y: Val,
    f: impl Fn(&mut Exec, Val, Val) -> R<Val>,
  ) -> R<Val> {
    let mut out = Val::C(0);
    for i in 0..lanes {
      let a = self.lane(x, i, w, w * lanes);
      let b = self.lane(y, i, w, w * lanes);
      let r = f(self, a, b)?;
      out = self.set_lane(out, i, rw, rw * lanes, r);
    }
    Ok(out)
  }

  // ---------------------------------------------------------------- calls

  fn new_input(&mut self, st: &mut State, w: u32, dom: Set) -> R<E> {
    let key = (st.ninputs, w, dom);
    let id = match self.var_keys.get(&key) {
      Some(&i) => i,
      None => {
        let e = self.ar.new_var(w, dom);
        let id = self.ar.nodes[e as usize].k as u32;
        if id >= 128 {
          return Err(End::Error("more than 128 symbolic variables".into()));
        }
        self.var_keys.insert(key, id);
        id
      },
    };
    let e = self.ar.var_expr(id as usize);
    let d = Rc::make_mut(&mut st.doms);
    while d.len() <= id as usize {
      d.push([0; 4]);
    }
    d[id as usize] = dom;
    let m = Rc::make_mut(&mut st.model);
    while m.len() <= id as usize {
      m.push(0);
    }
    m[id as usize] = if w == 8 { set_first(&dom).unwrap_or(0) as u128 } else { 0 };
    st.inputs = Some(Rc::new(List { v: id, next: st.inputs.take() }));
    st.ninputs += 1;
    Ok(e)
  }

  fn range_set(lo: usize, hi: usize) -> Set {
    let mut s = [0u64; 4];
    for i in lo..=hi.min(255) {
      s[i >> 6] |= 1 << (i & 63);
    }
    s
  }

  /// Returns true if the path is complete.
  fn call(&mut self, st: &mut State, c: &CallInst) -> R<bool> {
    let id = match &c.callee {
      Callee::Fn(id) => *id,
      Callee::Ind(o) => {
        let v = Self::opd(st, *o);
        let a = self.concretize(st, v, "call target")? as u64;
        if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 {
          return Err(End::Error(format!("call of {a:#x}")));
        }
        ((a - FN_BASE) / 16) as u32
      },
    };
    let b = BIS[self.bi[id as usize] as usize];
    if b == Bi::None {
      return self.call_fn(st, c, id).map(|_| false);
    }
    let args: Vec<Val> = c.args.iter().map(|o| Self::opd(st, *o)).collect();
    let mut ret: Option<Val> = None;
    match b {
      Bi::None => unreachable!(),
      Bi::Panic => return Err(End::Panic(short(&self.m.fns[id as usize].name))),
      Bi::Abort => return Err(End::Abort("abort".into())),
      Bi::Exit => return Ok(true),
      Bi::Missing => {
        return Err(End::Error(format!("call to external function {}", self.m.fns[id as usize].name)));
      },
      Bi::Malloc => {
        let n = self.concretize(st, args[0], "malloc size")? as u64;
        ret = Some(Val::C(self.malloc(st, n, 16) as u128));
      },
      Bi::Calloc => {
        let n = self.concretize(st, args[0], "calloc")? as u64;
        let m = self.concretize(st, args[1], "calloc")? as u64;
        let p = self.malloc(st, n * m, 16);
        self.memset(st, p, Val::C(0), n * m)?;
        ret = Some(Val::C(p as u128));
      },
      Bi::Realloc => {
        let p = self.concretize(st, args[0], "realloc")? as u64;
        let n = self.concretize(st, args[1], "realloc")? as u64;
        if p == 0 {
          ret = Some(Val::C(self.malloc(st, n, 16) as u128));
        } else {
          let h = st.mem.read_concrete(p - 8, 8)?.unwrap_or(0) as u64;
          let cls = h & 255;
          let old = h >> 8;
          if n <= 1 << cls {
            st.mem.write_concrete(p - 8, 8, (cls | (n.max(16) << 8)) as u128)?;
            ret = Some(Val::C(p as u128));
          } else {
            let q = self.malloc(st, n, 16);
            st.mem.copy(q, p, old.min(n))?;
            self.free(st, p)?;
            ret = Some(Val::C(q as u128));
          }
        }
      },
      Bi::Free => {
        let p = self.concretize(st, args[0], "free")? as u64;
        self.free(st, p)?;
      },
      Bi::PosixMemalign => {
        let out = self.concretize(st, args[0], "memalign")? as u64;
        let al = self.concretize(st, args[1], "memalign")? as u64;
        let n = self.concretize(st, args[2], "memalign")? as u64;
        let p = self.malloc(st, n, al);
        st.mem.write_concrete(out, 8, p as u128)?;
        ret = Some(Val::C(0));
      },
      Bi::KeyCreate => {
        let out = self.concretize(st, args[0], "key")? as u64;
        st.mem.write_concrete(out, 4, 1)?;
        ret = Some(Val::C(0));
      },
      Bi::Memcpy => {
        let n = self.concretize(st, args[2], "memcpy length")? as u64;
        if n > 0 {
          let d = self.concretize(st, args[0], "memcpy destination")? as u64;
          match args[1] {
            Val::C(s) => st.mem.copy(d, s as u64, n)?,
            s => {
              let mut tmp = vec![];
              for i in 0..n {
                let a = self.add64(s, Val::C(i as u128));
                tmp.push(self.load(st, a, 8)?);
              }
              for (i, v) in tmp.into_iter().enumerate() {
                self.store_c(st, d + i as u64, 8, v)?;
              }
            },
          }
        }
        ret = Some(args[0]);
      },
      Bi::Memset => {
        let n = self.concretize(st, args[2], "memset length")? as u64;
        if n > 0 {
          let d = self.concretize(st, args[0], "memset destination")? as u64;
          let v = self.cast_low8(args[1]);
          self.memset(st, d, v, n)?;
        }
        ret = Some(args[0]);
      },
      Bi::Memcmp => {
        let n = self.concretize(st, args[2], "memcmp length")? as u64;
        let only_eq = self.m.fns[id as usize].name == "bcmp";
        let r = self.memcmp(st, args[0], args[1], n, only_eq)?;
        ret = Some(r);
      },
      Bi::Strlen => {
        let mut i = 0u64;
        loop {
          let a = self.add64(args[0], Val::C(i as u128));
          match self.load(st, a, 8)? {
            Val::C(0) => break,
            Val::C(_) => i += 1,
            _ => return Err(End::Error("symbolic strlen".into())),
          }
        }
        ret = Some(Val::C(i as u128));
      },
      Bi::GetRandom => {
        let p = self.concretize(st, args[0], "getrandom")? as u64;
        let n = self.concretize(st, args[1], "getrandom")? as u64;
        self.memset(st, p, Val::C(0x5a), n)?;
        ret = Some(Val::C(n as u128));
      },
      Bi::RetZero => ret = Some(Val::C(0)),
      Bi::Write => ret = Some(args[args.len() - 1]),
      Bi::HashOne => ret = Some(Val::C(0)),
      Bi::HashWrite => {},
      Bi::SymBytes => {
        let p = self.concretize(st, args[0], "sym_bytes")? as u64;
        let n = self.concretize(st, args[1], "sym_bytes")? as u64;
        for i in 0..n {
          let e = self.new_input(st, 8, [u64::MAX; 4])?;
          st.mem.put(p + i, B::S(e, 0))?;
        }
      },
      Bi::SymChoice => {
        let n = self.concretize(st, args[0], "sym_choice")? as usize;
        let e = self.new_input(st, 8, Self::range_set(0, n - 1))?;
        let z = self.ar.zext(e, 64);
        ret = Some(self.v(z));
      },
      Bi::SymRange => {
        let lo = self.concretize(st, args[0], "sym_range")? as usize;
        let hi = self.concretize(st, args[1], "sym_range")? as usize;
        let e = self.new_input(st, 8, Self::range_set(lo, hi))?;
        let z = self.ar.zext(e, 64);
        ret = Some(self.v(z));
      },
      Bi::SymBits => {
        let p = self.concretize(st, args[0], "sym_bits")? as u64;
        let n = self.concretize(st, args[1], "sym_bits")? as u32;
        let e = self.new_input(st, n * 8, [u64::MAX; 4])?;
        for i in 0..n {
          st.mem.put(p + i as u64, B::S(e, i as u8))?;
        }
      },
      Bi::SymAssume => {
        let c = self.nonzero(args[0], 32);
        match c {
          Val::C(0) => return Err(End::Assumed),
          Val::C(_) => {},
          Val::S(e) => {
            if Self::in_prefix(st) {
              self.add_constraint(st, e);
              st.model_ok = false;
            } else {
              self.ensure_model(st)?;
              match self.feasible(st, e)? {
                None => return Err(End::Assumed),
                Some(m) => {
                  st.model = m;
                  self.add_constraint(st, e);
                },
              }
            }
          },
        }
      },
      Bi::SymAssert => {
        let c = self.nonzero(args[0], 32);
        let aid = self.concretize(st, args[1], "assert id")? as u32;
        let pre = Self::in_prefix(st);
        if !pre {
          self.rep.asserts += 1;
          self.rep.assert_ids.insert(aid);
        }
        match c {
          Val::C(0) => {
            if !pre {
              self.ensure_model(st)?;
              self.violation_here(st, "assert", aid);
            }
            return Err(End::Assumed);
          },
          Val::C(_) => {
            if !pre {
              self.rep.asserts_static += 1;
            }
          },
          Val::S(e) => {
            if !pre {
              self.ensure_model(st)?;
              let ne = self.ar.not(e);
              self.rep.assert_queries += 1;
              let sup = self.ar.sup(ne);
              match self.query(st, sup, &[ne], false).0 {
                Res::Unsat => self.rep.assert_unsat += 1,
                Res::Sat(vals) => {
                  let mut m = st.model.to_vec();
                  for (v, x) in vals {
                    Arena::assign(&mut m, v, x);
                  }
                  if self.ar.has_fp(ne) || list_vec(&st.cons).iter().any(|e| self.ar.has_fp(*e)) {
                    match self.exact_model(st, &[ne])? {
                      Some(m) => self.violation(st, "assert", aid, &m),
                      None => self.rep.assert_unsat += 1,
                    }
                  } else {
                    self.violation(st, "assert", aid, &m);
                  }
                  match self.feasible(st, e)? {
                    None => return Err(End::Assumed),
                    Some(m) => st.model = m,
                  }
                  self.add_constraint(st, e);
                },
                Res::Unknown => {
                  self.rep.unknown += 1;
                  if std::env::var_os("SYMEX_SHOW").is_some() {
                    eprintln!("unknown: {}", self.ar.show(e, 14));
                    let mut l = st.cons.clone();
                    while let Some(x) = l { eprintln!("   given {}", self.ar.show(x.v, 8)); l = x.next.clone(); }
                  }
                  *self.rep.errors.entry(format!("solver: unknown on assertion {aid}")).or_default() += 1;
                },
              }
            } else {
              self.add_constraint(st, e);
              st.model_ok = false;
            }
          },
        }
      },
      Bi::SymCover => {
        let id = self.concretize(st, args[0], "cover id")? as u32;
        st.covers |= 1u128 << (id & 127);
      },
      Bi::SymObs => {
        st.obs = Some(Rc::new(List { v: args[0], next: st.obs.take() }));
      },
      Bi::SymKnown => {
        let id = self.concretize(st, args[0], "known id")? as u32;
        st.known = id;
      },
      // From here on, the digits of symbolic numbers are of no interest.
      Bi::SymOpaque => {
        st.opaque = self.concretize(st, args[0], "opaque")? != 0;
      },
      Bi::SymConcrete => {
        let v = self.concretize(st, args[0], "sym_concrete")?;
        ret = Some(Val::C(v));
      },
      Bi::FmtDec | Bi::FmtDecInner => {
        let mag = match args[0] {
          Val::S(e) if args.len() == 3 => e,
          // divides by multiplying with 256 bits
          Val::C(v) if args.len() == 3 && b == Bi::FmtDecInner && c.nret == 1 => {
            let p = self.concretize(st, args[1], "digit buffer")? as u64;
            let cap = self.concretize(st, args[2], "digit buffer length")? as u64;
            let t = v.to_string();
            let start = cap - t.len() as u64;
            for (i, d) in t.bytes().enumerate() {
              self.store_c(st, p + start + i as u64, 8, Val::C(d as u128))?;
            }
            st.cur.regs[c.dst as usize] = Val::C(start as u128);
            if let Some(e) = &c.normal {
              Self::take_edge(st, e);
            }
            return Ok(false);
          },
          _ => return self.call_fn(st, c, id).map(|_| false),
        };
        let w = self.ar.w(mag);
        let p = self.concretize(st, args[1], "digit buffer")? as u64;
        let cap = self.concretize(st, args[2], "digit buffer length")? as u64;
        if st.opaque {
          let zero = Val::C(b'0' as u128);
          self.store_c(st, p + cap - 1, 8, zero)?;
          if b == Bi::FmtDec && c.nret == 2 {
            st.cur.regs[c.dst as usize] = Val::C((p + cap - 1) as u128);
            st.cur.regs[c.dst as usize + 1] = Val::C(1);
          } else if b == Bi::FmtDecInner && c.nret == 1 {
            st.cur.regs[c.dst as usize] = Val::C((cap - 1) as u128);
          } else {
            return Err(End::Error("shape of __fmt".into()));
          }
          if let Some(e) = &c.normal {
            Self::take_edge(st, e);
          }
          return Ok(false);
        }
        let n = self.digits(st, mag, p, cap)?;
        if b == Bi::FmtDec {
          if c.nret != 2 {
            return Err(End::Error("shape of __fmt".into()));
          }
          st.cur.regs[c.dst as usize] = Val::C((p + cap - n) as u128);
          st.cur.regs[c.dst as usize + 1] = Val::C(n as u128);
        } else if c.nret == 1 {
          st.cur.regs[c.dst as usize] = Val::C((cap - n) as u128);
        } else {
          return Err(End::Error("shape of __fmt_inner".into()));
        }
        if let Some(e) = &c.normal {
          Self::take_edge(st, e);
        }
        return Ok(false);
      },
      Bi::FmtDisplay => {
        let (w, signed) = display_type(&self.m.fns[id as usize].name.clone()).unwrap();
        let pad = match self.pad_integral {
          Some(p) => p,
          None => {
            let p = self.m.fns.iter().position(|f| f.name.contains("4core3fmt") && f.name.ends_with("9Formatter12pad_integral"));
            let p = p.map_or(u32::MAX, |p| p as u32);
            self.pad_integral = Some(p);
            p
          },
        };
        if pad == u32::MAX || args.len() != 2 {
          return self.call_fn(st, c, id).map(|_| false);
        }
        let Val::S(v) = self.load(st, args[0], w)? else {
          return self.call_fn(st, c, id).map(|_| false);
        };
        if !st.opaque && self.m.fns[id as usize].name.contains("5float") {
          return self.call_fn(st, c, id).map(|_| false);
        }
        let (mag, negative) = if st.opaque {
          (self.ar.konst(0, w), false)
        } else if signed {
          let z = self.ar.konst(0, w);
          let lt = self.ar.bin(Op::Slt, v, z);
          let lt = self.v(lt);
          let negative = self.concretize(st, lt, "sign")? != 0;
          (if negative { self.ar.bin(Op::Sub, z, v) } else { v }, negative)
        } else {
          (v, false)
        };
        let p = self.malloc(st, 48, 16);
        let n = match self.v(mag) {
          Val::S(mag) => self.digits(st, mag, p, 40)?,
          Val::C(k) => {
            let t = k.to_string();
            for (i, d) in t.bytes().enumerate() {
              self.store_c(st, p + 40 - t.len() as u64 + i as u64, 8, Val::C(d as u128))?;
            }
            t.len() as u64
          },
        };
        let at = Val::C((p + 40 - n) as u128);
        let a = [args[1], Val::C(!negative as u128), at, Val::C(0), at, Val::C(n as u128)];
        return self.call_with(st, c, pad, Some(&a)).map(|_| false);
      },
      Bi::FloatParse64 | Bi::FloatParse32 => {
        return self.float_parse(st, c, id, b == Bi::FloatParse64, &args).map(|_| false);
      },
      Bi::Intr => {
        let name = self.m.fns[id as usize].name.clone();
        let rs = self.intrinsic(st, &name, &args)?;
        for (i, r) in rs.into_iter().enumerate() {
          if (i as u32) < c.nret {
            st.cur.regs[c.dst as usize + i] = r;
          }
        }
        if let Some(e) = &c.normal {
          Self::take_edge(st, e);
        }
        return Ok(false);
      },
    }
    if c.nret > 0 {
      if let Some(r) = ret {
        st.cur.regs[c.dst as usize] = r;
      } else {
        return Err(End::Error(format!("no result from {}", self.m.fns[id as usize].name)));
      }
    }
    if let Some(e) = &c.normal {
      Self::take_edge(st, e);
    }
    Ok(false)
  }

  fn call_fn(&mut self, st: &mut State, c: &CallInst, id: u32) -> R<()> {
    self.call_with(st, c, id, None)
  }

  fn call_with(&mut self, st: &mut State, c: &CallInst, id: u32, args: Option<&[Val]>) -> R<()> {
    let f = self.func(id);
    if st.depth >= self.cfg.max_depth {
      return Err(End::Depth);
    }
    let mut regs = self.pool.pop().unwrap_or_default();
    regs.resize(f.nslots as usize, Val::C(0));
    if f.params.len() != args.map_or(c.args.len(), |a| a.len()) {
      return Err(End::Error(format!("argument count of {}", f.name)));
    }
    match args {
      Some(args) => {
        for (p, a) in f.params.iter().zip(args) {
          regs[*p as usize] = *a;
        }
      },
      None => {
        for (p, o) in f.params.iter().zip(c.args.iter()) {
          regs[*p as usize] = Self::opd(st, *o);
        }
      },
    }
    let nf = Frame {
      func: f,
      pc: 0,
      regs,
      sp_save: st.sp,
      ret_dst: c.dst,
      ret_n: c.nret,
      call_pc: st.cur.pc - 1,
    };
    let old = std::mem::replace(&mut st.cur, nf);
    st.stack = Some(Rc::new(FNode { frame: old, next: st.stack.take() }));
    st.depth += 1;
    Ok(())
  }

  fn cast_low8(&mut self, v: Val) -> Val {
    match v {
      Val::C(k) => Val::C(k & 255),
      Val::S(e) => {
        let r = self.ar.extract(e, 0, 8);
        self.v(r)
      },
    }
  }

  fn nonzero(&mut self, v: Val, w: u32) -> Val {
    let r = self.icmp(Pred::Ne, w, v, Val::C(0));
    r
  }

  fn memset(&mut self, st: &mut State, p: u64, v: Val, n: u64) -> R<()> {
    match v {
      Val::C(k) => {
        let k = k as u8;
        let w = u128::from_le_bytes([k; 16]);
        let mut i = 0;
        while i < n {
          let c = (n - i).min(16);
          st.mem.write_concrete(p + i, c as usize, w)?;
          i += c;
        }
      },
      Val::S(e) => {
        for i in 0..n {
          st.mem.put(p + i, B::S(e, 0))?;
        }
      },
    }
    Ok(())
  }

  fn memcmp(&mut self, st: &mut State, a: Val, b: Val, n: u64, only_eq: bool) -> R<Val> {
    let mut xs = vec![];
    for i in 0..n {
      let pa = self.add64(a, Val::C(i as u128));
      let pb = self.add64(b, Val::C(i as u128));
      let x = self.load(st, pa, 8)?;
      let y = self.load(st, pb, 8)?;
      if let (Val::C(x), Val::C(y)) = (x, y) {
        if x != y && xs.is_empty() {
          return Ok(Val::C(if x < y { 0xffff_ffff } else { 1 }));
        }
        if x == y {
          continue;
        }
      }
      xs.push((x, y));
    }
    if only_eq {
      let mut c = self.ar.tru();
      for (x, y) in xs {
        let xe = self.e(x, 8);
        let ye = self.e(y, 8);
        let q = self.ar.bin(Op::Eq, xe, ye);
        c = self.ar.bin(Op::And, c, q);
      }
      let z = self.ar.konst(0, 32);
      let o = self.ar.konst(1, 32);
      let r = self.ar.ite(c, z, o);
      return Ok(self.v(r));
    }
    let mut r = self.ar.konst(0, 32);
    let lt = self.ar.konst(0xffff_ffff, 32);
    let gt = self.ar.konst(1, 32);
    for (x, y) in xs.into_iter().rev() {
      let xe = self.e(x, 8);
      let ye = self.e(y, 8);
      let eq = self.ar.bin(Op::Eq, xe, ye);
      let ult = self.ar.bin(Op::Ult, xe, ye);
      let d = self.ar.ite(ult, lt, gt);
      r = self.ar.ite(eq, r, d);
    }
    Ok(self.v(r))
  }

  /// `<f64 as FromStr>::from_str` / `<f32 as FromStr>::from_str`: executed as is on concrete
  /// text; on symbolic text the digits are made concrete one by one (forking).
  /// Write the decimal digits of a number to the end of a buffer.
  fn digits(&mut self, st: &mut State, mag: E, p: u64, cap: u64) -> R<u64> {
    let w = self.ar.w(mag);
    let mut mag = mag;
    while let Some((c, a, b)) = self.ar.as_ite(mag) {
      let c = self.v(c);
      mag = if self.concretize(st, c, "number")? != 0 { a } else { b };
    }
    // number of digits
    let hi = mask(w);
    let mut count = self.ar.konst(1, 8);
    let mut k = 1u32;
    while k < 39 && 10u128.pow(k) <= hi {
      let t = self.ar.konst(10u128.pow(k), w);
      let ge = self.ar.bin(Op::Ule, t, mag);
      let n = self.ar.konst(k as u128 + 1, 8);
      count = self.ar.ite(ge, n, count);
      k += 1;
    }
    let count = self.v(count);
    let n = self.concretize(st, count, "number of digits")? as u64;
    if n > cap {
      return Err(End::Error("digit buffer".into()));
    }
    for i in 0..n {
      let d = self.ar.dec(mag, (n - 1 - i) as u32);
      let d = self.v(d);
      self.store_c(st, p + cap - n + i, 8, d)?;
    }
    Ok(n)
  }

  fn float_parse(&mut self, st: &mut State, c: &CallInst, id: u32, is64: bool, args: &[Val]) -> R<()> {
    let (p, n) = if is64 { (args[1], args[2]) } else { (args[0], args[1]) };
    let n = self.concretize(st, n, "float text length")? as u64;
    let p = self.concretize(st, p, "float text")? as u64;
    for i in 0..n {
      if let B::S(e, k) = st.mem.get(p + i)? {
        let x = self.ar.extract(e, k as u32 * 8, 8);
        let v = self.concretize(st, Val::S(x), "float text byte")?;
        let _ = v;
      }
    }
    // write the concrete text back so that the real parser runs on plain bytes
    for i in 0..n {
      if let B::S(e, k) = st.mem.get(p + i)? {
        let x = self.ar.extract(e, k as u32 * 8, 8);
        let v = self.concretize(st, Val::S(x), "float text byte")?;
        st.mem.put(p + i, B::C(v as u8))?;
      }
    }
    self.call_fn(st, c, id)
  }

  fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val]) -> R<Vec<Val>> {
    let w: u32 = name
      .rsplit('.')
      .find_map(|s| s.strip_prefix('i').and_then(|x| x.parse().ok()))
      .unwrap_or(64);
    let n = &name[5..];
    let one = |v: Val| Ok(vec![v]);
    if n.starts_with("threadlocal.address") || n.starts_with("expect") || n.starts_with("launder") || n.starts_with("ssa.copy") {
      return one(a[0]);
    }
    if n.starts_with("is.constant") {
      return one(Val::C(0));
    }
    if n.contains(".with.overflow") {
      let op = &n[..4];
      let sb = 1u128 << (w - 1);
      let _ = sb;
      let (r, ov) = match op {
        "uadd" => {
          let r = self.binop_pure(BinOp::Add, w, a[0], a[1])?;
          let ov = self.icmp(Pred::Ult, w, r, a[0]);
          (r, ov)
        },
        "usub" => {
          let r = self.binop_pure(BinOp::Sub, w, a[0], a[1])?;
          let ov = self.icmp(Pred::Ult, w, a[0], a[1]);
          (r, ov)
        },
        "sadd" => {
          let r = self.binop_pure(BinOp::Add, w, a[0], a[1])?;
          // overflow iff b >= 0 ? r < a : r >= a
          let bn = self.icmp(Pred::Slt, w, a[1], Val::C(0));
          let lt = self.icmp(Pred::Slt, w, r, a[0]);
          let ov = self.icmp(Pred::Ne, 1, bn, lt);
          (r, ov)
        },
        "ssub" => {
          let r = self.binop_pure(BinOp::Sub, w, a[0], a[1])?;
          let bp = self.icmp(Pred::Sgt, w, a[1], Val::C(0));
          let lt = self.icmp(Pred::Slt, w, r, a[0]);
          let ov = self.icmp(Pred::Ne, 1, bp, lt);
          (r, ov)
        },
        "umul" | "smul" => {
          let r = self.binop_pure(BinOp::Mul, w, a[0], a[1])?;
          let o = if op == "umul" { Op::UMulOv } else { Op::SMulOv };
          let ov = match (a[0], a[1]) {
            (Val::C(x), Val::C(y)) => Val::C(bin_concrete(o, x, y, w)),
            _ => {
              let x = self.e(a[0], w);
              let y = self.e(a[1], w);
              let e = self.ar.bin(o, x, y);
              self.v(e)
            },
          };
          (r, ov)
        },
        _ => return Err(End::Error(format!("intrinsic {name}"))),
      };
      return Ok(vec![r, ov]);
    }
    let minmax = |ex: &mut Exec, p: Pred| -> R<Vec<Val>> {
      let c = ex.icmp(p, w, a[0], a[1]);
      Ok(vec![match c {
        Val::C(1) => a[0],
        Val::C(_) => a[1],
        Val::S(ce) => {
          let x = ex.e(a[0], w);
          let y = ex.e(a[1], w);
          let r = ex.ar.ite(ce, x, y);
          ex.v(r)
        },
      }])
    };
    if n.starts_with("umin") {
      return minmax(self, Pred::Ult);
    }
    if n.starts_with("umax") {
      return minmax(self, Pred::Ugt);
    }
    if n.starts_with("smin") {
      return minmax(self, Pred::Slt);
    }
    if n.starts_with("smax") {
      return minmax(self, Pred::Sgt);
    }
    if n.starts_with("fshl") || n.starts_with("fshr") {
      let k = self.concretize(st, a[2], "funnel shift")? as u32 % w;
      let (l, r) = if n.starts_with("fshl") { (k, w - k) } else { (w - k, k) };
      if k == 0 {
        return one(if n.starts_with("fshl") { a[0] } else { a[1] });
      }
      let x = self.binop_pure(BinOp::Shl, w, a[0], Val::C(l as u128))?;
      let y = self.binop_pure(BinOp::LShr, w, a[1], Val::C(r as u128))?;
      return one(self.binop_pure(BinOp::Or, w, x, y)?);
    }
    if n.starts_with("usub.sat") {
      let c = self.icmp(Pred::Ult, w, a[0], a[1]);
      let r = self.binop_pure(BinOp::Sub, w, a[0], a[1])?;
      return one(self.sel(c, Val::C(0), r, w));
    }
    if n.starts_with("uadd.sat") {
      let r = self.binop_pure(BinOp::Add, w, a[0], a[1])?;
      let c = self.icmp(Pred::Ult, w, r, a[0]);
      return one(self.sel(c, Val::C(mask(w)), r, w));
    }
    if n.starts_with("ucmp") || n.starts_with("scmp") {
      // result width is the first suffix
      let parts: Vec<&str> = n.split('.').collect();
      let rw: u32 = parts[1][1..].parse().unwrap();
      let ow: u32 = parts[2][1..].parse().unwrap();
      let p = if n.starts_with("ucmp") { Pred::Ult } else { Pred::Slt };
      let lt = self.icmp(p, ow, a[0], a[1]);
      let gt = self.icmp(p, ow, a[1], a[0]);
      let x = self.sel(gt, Val::C(1), Val::C(0), rw);
      return one(self.sel(lt, Val::C(mask(rw)), x, rw));
    }
    if n.starts_with("abs") {
      let neg = self.binop_pure(BinOp::Sub, w, Val::C(0), a[0])?;
      let c = self.icmp(Pred::Slt, w, a[0], Val::C(0));
      return one(self.sel(c, neg, a[0], w));
    }
    if n.starts_with("ctlz") || n.starts_with("cttz") || n.starts_with("ctpop") || n.starts_with("bswap") || n.starts_with("bitreverse") {
      if let Val::C(k) = a[0] {
        let r = if n.starts_with("ctlz") {
          (k.leading_zeros() - (128 - w)).min(w) as u128
        } else if n.starts_with("cttz") {
          k.trailing_zeros().min(w) as u128
        } else if n.starts_with("ctpop") {
          k.count_ones() as u128
        } else if n.starts_with("bswap") {
          k.swap_bytes() >> (128 - w)
        } else {
          k.reverse_bits() >> (128 - w)
        };
        return one(Val::C(r));
      }
      let e = self.e(a[0], w);
      let mut acc;
      if n.starts_with("ctpop") {
        acc = self.ar.konst(0, w);
        for i in 0..w {
          let b = self.ar.extract(e, i, 1);
          let z = self.ar.zext(b, w);
          acc = self.ar.bin(Op::Add, acc, z);
        }
      } else if n.starts_with("bswap") {
        acc = self.ar.extract(e, 0, 8);
        for i in 1..w / 8 {
          let b = self.ar.extract(e, i * 8, 8);
          acc = self.ar.bin(Op::Concat, acc, b);
        }
      } else if n.starts_with("bitreverse") {
        acc = self.ar.extract(e, 0, 1);
        for i in 1..w {
          let b = self.ar.extract(e, i, 1);
          acc = self.ar.bin(Op::Concat, acc, b);
        }
      } else {
        acc = self.ar.konst(w as u128, w);
        for j in 0..w {
          let i = if n.starts_with("cttz") { w - 1 - j } else { j };
          let b = self.ar.extract(e, i, 1);
          let k = self.ar.konst(if n.starts_with("cttz") { i } else { w - 1 - i } as u128, w);
          acc = self.ar.ite(b, k, acc);
        }
      }
      return one(self.v(acc));
    }
    if n.starts_with("load.relative") {
      let base = self.concretize(st, a[0], "load.relative")? as u64;
      let p = self.add64(Val::C(base as u128), a[1]);
      let off = self.load(st, p, 32)?;
      let o = self.cast(CastOp::SExt, 32, 64, off)?;
      return one(self.add64(Val::C(base as u128), o));
    }
    if n.starts_with("ptrmask") {
      return one(self.binop_pure(BinOp::And, 64, a[0], a[1])?);
    }
    if n.starts_with("fabs") {
      let fw = if name.ends_with("f32") { 32 } else { 64 };
      return one(self.binop_pure(BinOp::And, fw, a[0], Val::C(mask(fw - 1)))?);
    }
    if n.starts_with("copysign") {
      let fw = if name.ends_with("f32") { 32 } else { 64 };
      let x = self.binop_pure(BinOp::And, fw, a[0], Val::C(mask(fw - 1)))?;
      let y = self.binop_pure(BinOp::And, fw, a[1], Val::C(1u128 << (fw - 1)))?;
      return one(self.binop_pure(BinOp::Or, fw, x, y)?);
    }
    let integral = ["floor.", "ceil.", "trunc.", "round.", "roundeven.", "rint.", "nearbyint.", "sqrt."];
    if let Some(i) = integral.iter().position(|p| n.starts_with(p)) {
      let fw = if name.ends_with("f32") { 32 } else { 64 };
      let kind = [FP_FLOOR, FP_CEIL, FP_TRUNC, FP_ROUND, FP_EVEN, FP_EVEN, FP_EVEN, FP_SQRT][i];
      let e = self.e(a[0], fw);
      let r = self.ar.fp(kind, fw, fw, e, e);
      return one(self.v(r));
    }
    if n.starts_with("fptosi.sat") || n.starts_with("fptoui.sat") {
      // llvm.fptosi.sat.iN.fM
      let (signed, fw) = (n.starts_with("fptosi"), if name.ends_with("f32") { 32 } else { 64 });
      let bits = |x: f64| if fw == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
      let (lo, hi) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
      let (min, max) = if signed { (1u128 << (w - 1), mask(w - 1)) } else { (0, mask(w)) };
      let e = self.e(a[0], fw);
      let (lo, hi) = (self.ar.konst(bits(lo), fw), self.ar.konst(bits(hi), fw));
      let small = self.ar.fp(FP_LT, fw, 1, e, lo);
      let large = self.ar.fp(FP_LE, fw, 1, hi, e);
      let nan = self.ar.fp(FP_UNO, fw, 1, e, e);
      let r = self.ar.fp(if signed { FP_TO_SINT } else { FP_TO_UINT }, fw, w, e, e);
      let (r, small, large, nan) = (self.v(r), self.v(small), self.v(large), self.v(nan));
      let r = self.sel(large, Val::C(max), r, w);
      let r = self.sel(small, Val::C(min), r, w);
      return one(self.sel(nan, Val::C(0), r, w));
    }
    if n.starts_with("is.fpclass") {
      return Err(End::Error(format!("intrinsic {name}")));
    }
    if n.starts_with("vector.reduce.") {
      // llvm.vector.reduce.OP.vNiW
      let parts: Vec<&str> = n.split('.').collect();
      let vt = parts[parts.len() - 1];
      let (ln, ew) = vt[1..].split_once('i').ok_or_else(|| End::Error(format!("intrinsic {name}")))?;
      let (ln, ew): (u32, u32) = (ln.parse().unwrap(), ew.parse().unwrap());
      let mut acc = self.lane(a[0], 0, ew, ln * ew);
      for i in 1..ln {
        let x = self.lane(a[0], i, ew, ln * ew);
        acc = match parts[2] {
          "or" => self.binop_pure(BinOp::Or, ew, acc, x)?,
          "and" => self.binop_pure(BinOp::And, ew, acc, x)?,
          "xor" => self.binop_pure(BinOp::Xor, ew, acc, x)?,
          "add" => self.binop_pure(BinOp::Add, ew, acc, x)?,
          _ => return Err(End::Error(format!("intrinsic {name}"))),
        };
      }
      return one(acc);
    }
    Err(End::Error(format!("intrinsic {name}")))
  }

  fn sel(&mut self, c: Val, x: Val, y: Val, w: u32) -> Val {
    match c {
      Val::C(k) => {
        if k & 1 == 1 {
          x
        } else {
          y
        }
      },
      Val::S(ce) => {
        let a = self.e(x, w);
        let b = self.e(y, w);
        let r = self.ar.ite(ce, a, b);
        self.v(r)
      },
    }
  }
}

fn bop(op: BinOp) -> Op {
  match op {
    BinOp::Add => Op::Add,
    BinOp::Sub => Op::Sub,
    BinOp::Mul => Op::Mul,
    BinOp::UDiv => Op::UDiv,
    BinOp::SDiv => Op::SDiv,
    BinOp::URem => Op::URem,
    BinOp::SRem => Op::SRem,
    BinOp::And => Op::And,
    BinOp::Or => Op::Or,
    BinOp::Xor => Op::Xor,
    BinOp::Shl => Op::Shl,
    BinOp::LShr => Op::LShr,
    BinOp::AShr => Op::AShr,
    _ => unreachable!(),
  }
}

fn fbin(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
  if w == 32 {
    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
    (match op {
      BinOp::FAdd => x + y,
      BinOp::FSub => x - y,
      BinOp::FMul => x * y,
      BinOp::FDiv => x / y,
      _ => x % y,
    })
    .to_bits() as u128
  } else {
    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
    (match op {
      BinOp::FAdd => x + y,
      BinOp::FSub => x - y,
      BinOp::FMul => x * y,
      BinOp::FDiv => x / y,
      _ => x % y,
    })
    .to_bits() as u128
  }
}

fn fcmp(p: FPred, w: u32, a: u128, b: u128) -> bool {
  let (x, y) = if w == 32 {
    (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
  } else {
    (f64::from_bits(a as u64), f64::from_bits(b as u64))
  };
  let un = x.is_nan() || y.is_nan();
  match p {
    FPred::Oeq => x == y,
    FPred::Ogt => x > y,
    FPred::Oge => x >= y,
    FPred::Olt => x < y,
    FPred::Ole => x <= y,
    FPred::One => !un && x != y,
    FPred::Ord => !un,
    FPred::Ueq => un || x == y,
    FPred::Ugt => un || x > y,
    FPred::Uge => un || x >= y,
    FPred::Ult => un || x < y,
    FPred::Ule => un || x <= y,
    FPred::Une => un || x != y,
    FPred::Uno => un,
    FPred::True => true,
    FPred::False => false,
  }
}
