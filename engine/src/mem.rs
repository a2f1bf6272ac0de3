//! Byte-precise copy-on-write memory. address = object id << 32 | offset.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Box<BTreeMap<u32, Ex>>> }
impl Obj {
    pub fn has_sym(&self, o: usize, n: usize) -> bool { match &self.sym { None => false, Some(m) => m.range(o as u32..(o + n) as u32).next().is_some() } }
    pub fn clear_sym(&mut self, o: usize, n: usize) {
        let mut empty = false;
        if let Some(m) = &mut self.sym {
            let ks: Vec<u32> = m.range(o as u32..(o + n) as u32).map(|x| *x.0).collect();
            for k in ks { m.remove(&k); }
            empty = m.is_empty();
        }
        if empty { self.sym = None; }
    }
    pub fn set_sym(&mut self, o: usize, e: Ex) { self.sym.get_or_insert_with(Default::default).insert(o as u32, e); }
    pub fn syms(&self, o: usize, n: usize) -> Vec<(u32, Ex)> { match &self.sym { None => vec![], Some(m) => m.range(o as u32..(o + n) as u32).map(|(k, v)| (*k - o as u32, *v)).collect() } }
}
const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone)]
pub struct Mem { tab: Vec<Rc<Chunk>>, free: Vec<u32>, next: u32 }

#[derive(Clone, Debug)]
pub struct MemErr(pub String);

impl Mem {
    pub fn new(first_heap: u32) -> Mem { Mem { tab: vec![], free: vec![], next: first_heap } }
    #[inline]
    pub fn obj(&self, id: u64) -> Option<&Obj> {
        let c = self.tab.get((id as usize) / CH)?;
        c[id as usize % CH].as_deref()
    }
    fn slot(&mut self, id: u64) -> &mut Option<Rc<Obj>> {
        let k = id as usize / CH;
        while self.tab.len() <= k { self.tab.push(Rc::new(vec![None; CH])); }
        &mut Rc::make_mut(&mut self.tab[k])[id as usize % CH]
    }
    #[inline]
    pub fn obj_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let k = id as usize / CH;
        if k >= self.tab.len() || self.tab[k][id as usize % CH].is_none() { return None; }
        Some(Rc::make_mut(Rc::make_mut(&mut self.tab[k])[id as usize % CH].as_mut().unwrap()))
    }
    pub fn place(&mut self, id: u64, data: Vec<u8>) { *self.slot(id) = Some(Rc::new(Obj { data, sym: None })); }
    pub fn place_zero(&mut self, id: u64, n: usize) {
        let s = self.slot(id);
        if let Some(rc) = s { if let Some(o) = Rc::get_mut(rc) { o.sym = None; o.data.clear(); o.data.resize(n, 0); return; } }
        *s = Some(Rc::new(Obj { data: vec![0; n], sym: None }));
    }
    pub fn remove(&mut self, id: u64) { *self.slot(id) = None; }
    pub fn alloc(&mut self, n: usize) -> u64 {
        let id = self.free.pop().unwrap_or_else(|| { self.next += 1; self.next - 1 });
        self.place(id as u64, vec![0; n]);
        (id as u64) << 32
    }
    pub fn dealloc(&mut self, addr: u64) -> Result<(), MemErr> {
        if addr == 0 { return Ok(()); }
        let id = addr >> 32;
        if addr as u32 != 0 || self.obj(id).is_none() { return Err(MemErr(format!("free of invalid pointer {:#x}", addr))); }
        self.remove(id);
        self.free.push(id as u32);
        Ok(())
    }
    #[inline]
    pub fn at(&self, addr: u64, n: usize) -> Result<(&Obj, usize), MemErr> {
        let o = self.obj(addr >> 32).ok_or_else(|| MemErr(format!("access to invalid address {:#x} ({} bytes)", addr, n)))?;
        let off = addr as u32 as usize;
        if off + n > o.data.len() { return Err(MemErr(format!("out-of-bounds access {:#x} ({} bytes, object {} bytes)", addr, n, o.data.len()))); }
        Ok((o, off))
    }
    #[inline]
    pub fn at_mut(&mut self, addr: u64, n: usize) -> Result<(&mut Obj, usize), MemErr> {
        let off = addr as u32 as usize;
        let o = match self.obj_mut(addr >> 32) { Some(o) => o, None => return Err(MemErr(format!("write to invalid address {:#x} ({} bytes)", addr, n))) };
        if off + n > o.data.len() { return Err(MemErr(format!("out-of-bounds write {:#x} ({} bytes, object {} bytes)", addr, n, o.data.len()))); }
        Ok((o, off))
    }
    #[inline]
    pub fn write_u64(&mut self, addr: u64, n: usize, v: u64) -> Result<(), MemErr> {
        let (o, off) = self.at_mut(addr, n)?;
        o.data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if o.sym.is_some() { o.clear_sym(off, n); }
        Ok(())
    }
    pub fn write_bytes(&mut self, addr: u64, b: &[u8]) -> Result<(), MemErr> {
        if b.is_empty() { return Ok(()); }
        let (o, off) = self.at_mut(addr, b.len())?;
        o.data[off..off + b.len()].copy_from_slice(b);
        if o.sym.is_some() { o.clear_sym(off, b.len()); }
        Ok(())
    }
    pub fn write_bytes_sym(&mut self, addr: u64, b: &[u8], s: &[(u32, Ex)]) -> Result<(), MemErr> {
        self.write_bytes(addr, b)?;
        if !s.is_empty() { let (o, off) = self.at_mut(addr, b.len())?; for (k, e) in s { o.set_sym(off + *k as usize, *e); } }
        Ok(())
    }
    pub fn read_bytes_sym(&self, addr: u64, n: usize) -> Result<(Vec<u8>, Vec<(u32, Ex)>), MemErr> {
        if n == 0 { return Ok((vec![], vec![])); }
        let (o, off) = self.at(addr, n)?;
        Ok((o.data[off..off + n].to_vec(), if o.sym.is_some() { o.syms(off, n) } else { vec![] }))
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) -> Result<(), MemErr> {
        if n == 0 || dst == src { return Ok(()); }
        if dst >> 32 == src >> 32 {
            let so = src as u32 as usize;
            let (o, d) = self.at_mut(dst, n)?;
            if so + n > o.data.len() { return Err(MemErr(format!("out-of-bounds copy {:#x}", src))); }
            let s = if o.sym.is_some() { o.syms(so, n) } else { vec![] };
            o.data.copy_within(so..so + n, d);
            if o.sym.is_some() { o.clear_sym(d, n); for (k, e) in s { o.set_sym(d + k as usize, e); } }
            return Ok(());
        }
        // raw pointer to the source buffer: distinct objects, the destination write cannot move it
        let (so, soff) = self.at(src, n)?;
        let s = if so.sym.is_some() { so.syms(soff, n) } else { vec![] };
        let p = so.data[soff..].as_ptr();
        let (o, d) = self.at_mut(dst, n)?;
        o.data[d..d + n].copy_from_slice(unsafe { std::slice::from_raw_parts(p, n) });
        if o.sym.is_some() { o.clear_sym(d, n); }
        for (k, e) in s { o.set_sym(d + k as usize, e); }
        Ok(())
    }
    pub fn cstr(&self, addr: u64) -> Result<Vec<u8>, MemErr> {
        let (o, off) = self.at(addr, 1)?;
        let e = o.data[off..].iter().position(|b| *b == 0).ok_or_else(|| MemErr("unterminated string".into()))?;
        if o.has_sym(off, e) { return Err(MemErr("symbolic path name".into())); }
        Ok(o.data[off..off + e].to_vec())
    }
}
