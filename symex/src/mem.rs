//! Copy-on-write memory with a symbolic overlay.

use crate::expr::*;
use std::rc::Rc;

pub const PS: usize = 1024;
pub const HEAP_BASE: u64 = 0x4000_0000;
pub const STACK_BASE: u64 = 0x8000_0000;

#[derive(Clone)]
pub struct Page {
  pub data: [u8; PS],
  /// `(expr << 8 | byte index) + 1`, 0 = concrete.
  pub sym: Option<Box<[u64; PS]>>,
  pub nsym: u32,
}

impl Page {
  pub fn zero() -> Page {
    Page { data: [0; PS], sym: None, nsym: 0 }
  }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
  C(u8),
  S(E, u8),
}

#[derive(Clone)]
pub struct Mem {
  pub regions: [Vec<Option<Rc<Page>>>; 3],
}

pub const BASES: [u64; 3] = [crate::ir::GLOBAL_BASE, HEAP_BASE, STACK_BASE];

#[derive(Debug)]
pub struct Fault(pub u64);

impl Mem {
  #[inline]
  fn loc(addr: u64) -> Option<(usize, usize, usize)> {
    let (r, o) = if addr >= STACK_BASE {
      (2, addr - STACK_BASE)
    } else if addr >= HEAP_BASE {
      (1, addr - HEAP_BASE)
    } else if addr >= crate::ir::GLOBAL_BASE {
      (0, addr - crate::ir::GLOBAL_BASE)
    } else {
      return None;
    };
    Some((r, o as usize / PS, o as usize % PS))
  }

  #[inline]
  pub fn page(&self, addr: u64) -> Result<(&Page, usize), Fault> {
    let (r, p, o) = Self::loc(addr).ok_or(Fault(addr))?;
    match self.regions[r].get(p) {
      Some(Some(pg)) => Ok((pg, o)),
      _ => Err(Fault(addr)),
    }
  }

  #[inline]
  pub fn page_mut(&mut self, addr: u64) -> Result<(&mut Page, usize), Fault> {
    let (r, p, o) = Self::loc(addr).ok_or(Fault(addr))?;
    match self.regions[r].get_mut(p) {
      Some(Some(pg)) => Ok((Rc::make_mut(pg), o)),
      _ => Err(Fault(addr)),
    }
  }

  /// Make sure the range is mapped.
  pub fn map(&mut self, addr: u64, len: u64) {
    if len == 0 {
      return;
    }
    let (r, p0, _) = Self::loc(addr).expect("map");
    let (_, p1, _) = Self::loc(addr + len - 1).expect("map");
    let v = &mut self.regions[r];
    if v.len() <= p1 {
      v.resize(p1 + 1, None);
    }
    for p in p0..=p1 {
      if v[p].is_none() {
        v[p] = Some(Rc::new(Page::zero()));
      }
    }
  }

  pub fn get(&self, addr: u64) -> Result<B, Fault> {
    let (p, o) = self.page(addr)?;
    if let Some(s) = &p.sym {
      let x = s[o];
      if x != 0 {
        let x = x - 1;
        return Ok(B::S((x >> 8) as E, x as u8));
      }
    }
    Ok(B::C(p.data[o]))
  }

  pub fn put(&mut self, addr: u64, b: B) -> Result<(), Fault> {
    let (p, o) = self.page_mut(addr)?;
    match b {
      B::C(c) => {
        p.data[o] = c;
        if let Some(s) = &mut p.sym {
          if s[o] != 0 {
            s[o] = 0;
            p.nsym -= 1;
            if p.nsym == 0 {
              p.sym = None;
            }
          }
        }
      },
      B::S(e, i) => {
        let s = p.sym.get_or_insert_with(|| Box::new([0; PS]));
        if s[o] == 0 {
          p.nsym += 1;
        }
        s[o] = (((e as u64) << 8) | i as u64) + 1;
      },
    }
    Ok(())
  }

  /// Fast path: read up to 16 concrete bytes; None if any byte is symbolic.
  #[inline]
  pub fn read_concrete(&self, addr: u64, n: usize) -> Result<Option<u128>, Fault> {
    let (p, o) = self.page(addr)?;
    if o + n <= PS && p.sym.is_none() {
      let mut b = [0u8; 16];
      b[..n].copy_from_slice(&p.data[o..o + n]);
      return Ok(Some(u128::from_le_bytes(b)));
    }
    let mut v = 0u128;
    for i in 0..n {
      match self.get(addr + i as u64)? {
        B::C(c) => v |= (c as u128) << (8 * i),
        _ => return Ok(None),
      }
    }
    Ok(Some(v))
  }

  #[inline]
  pub fn write_concrete(&mut self, addr: u64, n: usize, v: u128) -> Result<(), Fault> {
    let (p, o) = self.page_mut(addr)?;
    if o + n <= PS && p.sym.is_none() {
      p.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
      return Ok(());
    }
    for i in 0..n {
      self.put(addr + i as u64, B::C((v >> (8 * i)) as u8))?;
    }
    Ok(())
  }

  pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
    if n == 0 || dst == src {
      return Ok(());
    }
    // small or page-local concrete copies
    let mut buf: Vec<B> = Vec::new();
    let mut done = 0u64;
    let overlap = (dst > src && dst < src + n) || (src > dst && src < dst + n);
    if !overlap {
      while done < n {
        let (s, d) = (src + done, dst + done);
        let so = (s % PS as u64) as usize;
        let dof = (d % PS as u64) as usize;
        let k = ((PS - so).min(PS - dof) as u64).min(n - done) as usize;
        let (sp, o) = self.page(s)?;
        if sp.sym.is_none() {
          let mut tmp = [0u8; PS];
          tmp[..k].copy_from_slice(&sp.data[o..o + k]);
          let (dp, o2) = self.page_mut(d)?;
          if dp.sym.is_none() {
            dp.data[o2..o2 + k].copy_from_slice(&tmp[..k]);
          } else {
            for i in 0..k {
              self.put(d + i as u64, B::C(tmp[i]))?;
            }
          }
        } else {
          buf.clear();
          for i in 0..k {
            buf.push(self.get(s + i as u64)?);
          }
          for i in 0..k {
            self.put(d + i as u64, buf[i])?;
          }
        }
        done += k as u64;
      }
      return Ok(());
    }
    for i in 0..n {
      buf.push(self.get(src + i)?);
    }
    for i in 0..n {
      self.put(dst + i, buf[i as usize])?;
    }
    Ok(())
  }
}
