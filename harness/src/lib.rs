//! Interface between the harnesses and the symbolic executor.
#![allow(clippy::missing_safety_doc)]

pub mod gen;
pub mod pp;
pub mod refs;

pub mod sym {
  extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_choice(n: u64) -> u64;
    fn sym_range(lo: u64, hi: u64) -> u64;
    fn sym_bits(p: *mut u8, n: usize);
    fn sym_assume(c: u32);
    fn sym_assert(c: u32, id: u32);
    fn sym_cover(id: u32);
    fn sym_obs(v: u64);
    fn sym_known(id: u32);
    fn sym_opaque(on: u32);
    fn sym_concrete(v: u64) -> u64;
    fn sym_native() -> u32;
    fn sym_note(p: *const u8, n: usize);
  }

  /// Fill a buffer with arbitrary bytes.
  #[inline(always)]
  pub fn bytes(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
  }
  /// Fill a buffer with arbitrary ASCII characters.
  #[inline(always)]
  pub fn ascii(b: &mut [u8]) {
    for x in b {
      *x = unsafe { sym_range(0, 127) } as u8;
    }
  }
  /// An arbitrary value below `n` (`n` <= 256).
  #[inline(always)]
  pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n as u64) as usize }
  }
  /// An arbitrary value below `n`, a separate path for each.
  #[inline(always)]
  pub fn fork(n: usize) -> usize {
    unsafe { sym_concrete(sym_choice(n as u64)) as usize }
  }
  /// An arbitrary value in `lo..=hi` (`hi` < 256).
  #[inline(always)]
  pub fn range(lo: usize, hi: usize) -> usize {
    unsafe { sym_range(lo as u64, hi as u64) as usize }
  }
  #[inline(always)]
  pub fn any_i128() -> i128 {
    let mut b = [0u8; 16];
    unsafe { sym_bits(b.as_mut_ptr(), 16) };
    i128::from_le_bytes(b)
  }
  #[inline(always)]
  pub fn any_u64() -> u64 {
    let mut b = [0u8; 8];
    unsafe { sym_bits(b.as_mut_ptr(), 8) };
    u64::from_le_bytes(b)
  }
  #[inline(always)]
  pub fn any_u32() -> u32 {
    let mut b = [0u8; 4];
    unsafe { sym_bits(b.as_mut_ptr(), 4) };
    u32::from_le_bytes(b)
  }
  #[inline(always)]
  pub fn concrete(v: usize) -> usize {
    unsafe { sym_concrete(v as u64) as usize }
  }
  /// Restrict the inputs under consideration.
  #[inline(always)]
  pub fn assume(c: bool) {
    unsafe { sym_assume(c as u32) }
  }
  /// The property: must hold for every input.
  #[inline(always)]
  pub fn check(c: bool, id: u32) {
    unsafe { sym_assert(c as u32, id) }
  }
  /// Reachability: some input has to get here.
  #[inline(always)]
  pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
  }
  /// A value which must be the same in the symbolic and in the native run.
  #[inline(always)]
  pub fn obs(v: u64) {
    unsafe { sym_obs(v) }
  }
  /// From here on, violations belong to the known finding `id` (0: none).
  #[inline(always)]
  pub fn known(id: u32) {
    unsafe { sym_known(id) }
  }
  /// From here on, do not work out the digits of symbolic numbers which get formatted; for harnesses
  /// which do not look at them.
  #[inline(always)]
  pub fn opaque_digits(on: bool) {
    unsafe { sym_opaque(on as u32) }
  }
  /// True only in a native replay which prints what it does.
  #[inline(always)]
  pub fn verbose() -> bool {
    unsafe { sym_native() != 0 }
  }
  pub fn note(s: &str) {
    unsafe { sym_note(s.as_ptr(), s.len()) }
  }
  /// Digest of a byte string, for `obs`.
  pub fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for x in b {
      h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
  }
}

#[repr(C)]
pub struct Entry {
  pub name: *const u8,
  pub f: extern "C" fn(),
}

/// Declare the entry points of a harness program.
#[macro_export]
macro_rules! entries {
  ($($name:ident),* $(,)?) => {
    #[no_mangle]
    pub extern "C" fn harness_entries(n: *mut usize) -> *const $crate::Entry {
      const E: &[$crate::Entry] = &[$($crate::Entry { name: concat!(stringify!($name), "\0").as_ptr(), f: $name }),*];
      unsafe { *n = E.len() };
      E.as_ptr()
    }
  };
}
