//! The types named by declaration specifiers and pointer declarators, after the C standard.

use super::rexpr::T;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ty {
  /// name of the Rust type, without prefix
  pub base: Vec<u8>,
  /// whether the name is one of the FFI types and thus takes the prefix
  pub ffi: bool,
  /// innermost first: whether a pointer is `*const`
  pub pointers: Vec<bool>,
  /// whether each pointer is itself const
  pub const_pointer: Vec<bool>,
  pub volatile: bool,
}

/// Read a type name; `None` if it is none.
pub fn read(words: &[&[u8]], typedef: &dyn Fn(&[u8]) -> bool) -> Option<Ty> {
  let split = words.iter().position(|w| *w == b"*").unwrap_or(words.len());
  let (spec, decl) = words.split_at(split);

  let (mut void, mut boolean, mut chr, mut short, mut int, mut long, mut float, mut double, mut signed, mut unsigned) =
    (0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
  let (mut named, mut strukt): (Option<&[u8]>, bool) = (None, false);
  let (mut cst, mut volatile) = (false, false);

  for (i, w) in spec.iter().enumerate() {
    if strukt && named.is_none() && matches!(*w, b"const" | b"volatile") && i > 0 {
      return None;
    }
    match *w {
      b"const" => cst = true,
      b"volatile" => volatile = true,
      b"void" => void += 1,
      b"bool" => boolean += 1,
      b"char" => chr += 1,
      b"short" => short += 1,
      b"int" => int += 1,
      b"long" => long += 1,
      b"float" => float += 1,
      b"double" => double += 1,
      b"signed" => signed += 1,
      b"unsigned" => unsigned += 1,
      b"struct" if !strukt && named.is_none() => strukt = true,
      w if named.is_none() && (strukt || typedef(w)) => named = Some(w),
      _ => return None,
    }
  }

  let other = void + boolean + chr + short + int + long + float + double + signed + unsigned;
  let (base, ffi): (&[u8], bool) = if let Some(n) = named {
    if other > 0 {
      return None;
    }
    (n, false)
  } else {
    if strukt || other == 0 || signed + unsigned > 1 || void > 1 || boolean > 1 || chr > 1 || short > 1 || int > 1 || float > 1 || double > 1 {
      return None;
    }
    let sign = signed + unsigned > 0;
    let u = unsigned > 0;
    let alone = other == 1;
    if void == 1 || boolean == 1 || float == 1 {
      if !alone {
        return None;
      }
      if void == 1 {
        (b"c_void", true)
      } else if boolean == 1 {
        (b"bool", false)
      } else {
        (b"f32", false)
      }
    } else if double == 1 {
      if other - long > 1 || long > 1 {
        return None;
      }
      (b"f64", false)
    } else if chr == 1 {
      if short + int + long > 0 {
        return None;
      }
      (if u { &b"c_uchar"[..] } else if sign { b"c_schar" } else { b"c_char" }, true)
    } else if short == 1 {
      if long > 0 {
        return None;
      }
      (if u { &b"c_ushort"[..] } else { b"c_short" }, true)
    } else {
      match long {
        0 => (if u { &b"c_uint"[..] } else { b"c_int" }, true),
        1 => (if u { &b"c_ulong"[..] } else { b"c_long" }, true),
        2 => (if u { &b"c_ulonglong"[..] } else { b"c_longlong" }, true),
        _ => return None,
      }
    }
  };

  let mut pointers = vec![];
  let mut const_pointer = vec![];
  let mut i = 0;
  while i < decl.len() {
    if decl[i] != b"*" {
      return None;
    }
    pointers.push(cst);
    const_pointer.push(false);
    cst = false;
    i += 1;
    while i < decl.len() && decl[i] != b"*" {
      match decl[i] {
        b"const" => {
          cst = true;
          *const_pointer.last_mut().unwrap() = true;
        },
        b"volatile" => (),
        _ => return None,
      }
      i += 1;
    }
  }

  Some(Ty { base: base.to_vec(), ffi, pointers, const_pointer, volatile })
}

impl Ty {
  /// The tokens of the Rust type.
  pub fn rust(&self, prefix: &[T]) -> Vec<T> {
    let mut t = vec![];
    for c in self.pointers.iter().rev() {
      t.push(T::Punct(b"*".to_vec()));
      t.push(T::Name(if *c { b"const".to_vec() } else { b"mut".to_vec() }));
    }
    if self.ffi {
      t.extend_from_slice(prefix);
    }
    t.push(T::Name(self.base.clone()));
    t
  }
}
