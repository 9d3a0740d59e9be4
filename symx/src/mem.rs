//! Byte-addressed memory: objects with concrete bytes and an optional symbolic overlay, copy on write.
use crate::expr::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct Sb { pub e: Ex, pub i: u8 } // byte i of e (e.w a multiple of 8, or 1 bit in a byte)

#[derive(Clone)]
pub struct Obj { pub bytes: Vec<u8>, pub sym: Option<Vec<Option<Sb>>>, pub ro: bool }
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { bytes: vec![0; n], sym: None, ro: false } }
}
const CH: usize = 32;
type Chunk = Arc<[Option<Arc<Obj>>; CH]>;
pub const STACK: u64 = 0x4000_0000;

#[derive(Clone, Default)]
pub struct Mem { heap: Vec<Chunk>, n: u64, stack: Vec<Arc<Obj>> }

/// A value read from memory: concrete, or an expression.
pub enum Rd { C(u128), E(Ex) }

impl Mem {
    pub fn alloc(&mut self, o: Obj) -> u64 {
        self.n += 1;
        let id = self.n as usize;
        while self.heap.len() * CH <= id { self.heap.push(Arc::new(std::array::from_fn(|_| None))); }
        Arc::make_mut(&mut self.heap[id / CH])[id % CH] = Some(Arc::new(o));
        (id as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> Result<(), String> {
        let id = (addr >> 32) as usize;
        if addr & 0xffff_ffff != 0 || id / CH >= self.heap.len() || self.heap[id / CH][id % CH].is_none() {
            return Err(format!("free of a pointer that is not an allocation ({:#x})", addr));
        }
        Arc::make_mut(&mut self.heap[id / CH])[id % CH] = None;
        Ok(())
    }
    pub fn stack_mark(&self) -> usize { self.stack.len() }
    pub fn stack_alloc(&mut self, n: usize) -> u64 {
        self.stack.push(Arc::new(Obj::new(n)));
        (STACK + self.stack.len() as u64 - 1) << 32
    }
    pub fn stack_pop(&mut self, m: usize) { self.stack.truncate(m); }
    pub fn obj(&self, addr: u64) -> Option<&Obj> {
        let id = addr >> 32;
        if id >= STACK { return self.stack.get((id - STACK) as usize).map(|x| &**x); }
        let id = id as usize;
        self.heap.get(id / CH)?[id % CH].as_deref()
    }
    fn obj_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let id = addr >> 32;
        if id >= STACK { return self.stack.get_mut((id - STACK) as usize).map(Arc::make_mut); }
        let id = id as usize;
        let c = self.heap.get_mut(id / CH)?;
        if c[id % CH].is_none() { return None; }
        Arc::make_mut(c)[id % CH].as_mut().map(Arc::make_mut)
    }
    fn range(&self, addr: u64, n: usize, what: &str) -> Result<(&Obj, usize), String> {
        let off = (addr & 0xffff_ffff) as usize;
        match self.obj(addr) {
            Some(o) if off + n <= o.bytes.len() => Ok((o, off)),
            Some(o) => Err(format!("{} of {} bytes at offset {} of an object of {} bytes", what, n, off, o.bytes.len())),
            None => Err(format!("{} of {} bytes through an invalid pointer {:#x}", what, n, addr)),
        }
    }
    pub fn read(&self, addr: u64, n: usize) -> Result<Rd, String> {
        let (o, off) = self.range(addr, n, "read")?;
        Ok(read_obj(o, off, n))
    }
    fn wr(&mut self, addr: u64, n: usize) -> Result<(&mut Obj, usize), String> {
        self.range(addr, n, "write")?;
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj_mut(addr).unwrap();
        if o.ro { return Err("write to read-only memory".into()); }
        Ok((o, off))
    }
    pub fn write(&mut self, addr: u64, n: usize, v: u128) -> Result<(), String> {
        let (o, off) = self.wr(addr, n)?;
        let b = v.to_le_bytes();
        o.bytes[off..off + n].copy_from_slice(&b[..n]);
        if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = None; } }
        Ok(())
    }
    pub fn write_ex(&mut self, addr: u64, n: usize, e: &Ex) -> Result<(), String> {
        let e = if e.w as usize == n * 8 { e.clone() } else { zext(e, n as u32 * 8) };
        if let Some(v) = e.val() { return self.write(addr, n, v); }
        let (o, off) = self.wr(addr, n)?;
        let len = o.bytes.len();
        let s = o.sym.get_or_insert_with(|| vec![None; len]);
        for i in 0..n { s[off + i] = Some(Sb { e: e.clone(), i: i as u8 }); }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.range(src, n, "read")?;
        let b = o.bytes[off..off + n].to_vec();
        let s = o.sym.as_ref().map(|s| s[off..off + n].to_vec()).filter(|s| s.iter().any(|x| x.is_some()));
        let (d, off) = self.wr(dst, n)?;
        d.bytes[off..off + n].copy_from_slice(&b);
        let len = d.bytes.len();
        match s {
            Some(s) => d.sym.get_or_insert_with(|| vec![None; len])[off..off + n].clone_from_slice(&s),
            None => if let Some(x) = &mut d.sym { for y in &mut x[off..off + n] { *y = None; } },
        }
        Ok(())
    }
    /// The bytes, if none of them is symbolic.
    pub fn plain(&self, addr: u64, n: usize) -> Result<Option<&[u8]>, String> {
        let (o, off) = self.range(addr, n, "read")?;
        if let Some(s) = &o.sym { if s[off..off + n].iter().any(|x| x.is_some()) { return Ok(None); } }
        Ok(Some(&o.bytes[off..off + n]))
    }
    pub fn bytes(&self, addr: u64, n: usize) -> Result<Vec<u8>, String> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.range(addr, n, "read")?;
        Ok(o.bytes[off..off + n].to_vec())
    }
}
pub fn byte_ex(o: &Obj, i: usize) -> Ex {
    if let Some(s) = &o.sym { if let Some(b) = &s[i] { return extract(&b.e, b.i as u32 * 8, 8); } }
    cst(o.bytes[i] as u128, 8)
}
pub fn read_obj(o: &Obj, off: usize, n: usize) -> Rd {
    if let Some(s) = &o.sym {
        let s = &s[off..off + n];
        if s.iter().any(|x| x.is_some()) {
            // one whole expression, as written
            if let Some(f) = &s[0] {
                if s.iter().enumerate().all(|(i, x)| matches!(x, Some(b) if Arc::ptr_eq(&b.e, &f.e) && b.i == f.i + i as u8)) {
                    return Rd::E(extract(&f.e, f.i as u32 * 8, n as u32 * 8));
                }
            }
            let mut r = byte_ex(o, off);
            for i in 1..n { r = concat(&byte_ex(o, off + i), &r); }
            return match r.val() { Some(v) => Rd::C(v), None => Rd::E(r) };
        }
    }
    let mut b = [0u8; 16];
    b[..n].copy_from_slice(&o.bytes[off..off + n]);
    Rd::C(u128::from_le_bytes(b))
}
