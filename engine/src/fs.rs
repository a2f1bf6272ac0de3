//! File system model: path -> inode, sparse pages, durable snapshots, one injected fault.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PG: usize = 4096;
#[derive(Clone)]
pub struct Page { pub data: Vec<u8>, pub sym: BTreeMap<u16, Ex> }
#[derive(Clone, Default)]
pub struct Data { pub size: u64, pub pages: BTreeMap<u64, Rc<Page>> }
#[derive(Clone)]
pub struct Inode { pub dir: bool, pub data: Rc<Data>, pub durable: Option<Rc<Data>>, pub linked: bool }
#[derive(Clone)]
pub struct Fd { pub ino: usize, pub pos: u64, pub flags: u64 }
#[derive(Clone)]
pub struct Fs {
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    pub fdt: BTreeMap<u64, usize>, // fd -> open file description
    pub ofd: Vec<Fd>,
    pub fault_kind: u64, // bit 0 write, 1 ftruncate, 2 fsync/fdatasync, 3 read, 4 a write that stops half-way before the next one fails, 5 every later call fails too
    pub fault_after: u64,
    pub fault_fired: u64,
    pub n_sync: u64,
    pub n_write: u64,
}
impl Data {
    pub fn read(&self, pos: u64, n: usize) -> (Vec<u8>, Vec<(u32, Ex)>) {
        let n = if pos >= self.size { 0 } else { (n as u64).min(self.size - pos) as usize };
        let mut out = vec![0u8; n];
        let mut sy = vec![];
        let mut i = 0;
        while i < n {
            let p = pos + i as u64;
            let (pn, po) = (p / PG as u64, (p % PG as u64) as usize);
            let k = (PG - po).min(n - i);
            if let Some(pg) = self.pages.get(&pn) {
                out[i..i + k].copy_from_slice(&pg.data[po..po + k]);
                for (o, e) in pg.sym.range(po as u16..=(po + k - 1) as u16) { sy.push(((*o as usize - po + i) as u32, *e)); }
            }
            i += k;
        }
        (out, sy)
    }
    pub fn write(&mut self, pos: u64, b: &[u8], sy: &[(u32, Ex)]) {
        let n = b.len();
        if n == 0 { return; }
        self.size = self.size.max(pos + n as u64);
        let mut i = 0;
        let mut si = 0;
        while i < n {
            let p = pos + i as u64;
            let (pn, po) = (p / PG as u64, (p % PG as u64) as usize);
            let k = (PG - po).min(n - i);
            let all0 = b[i..i + k].iter().all(|x| *x == 0) && !(si < sy.len() && (sy[si].0 as usize) < i + k);
            if all0 && !self.pages.contains_key(&pn) { i += k; continue; }
            let pg = Rc::make_mut(self.pages.entry(pn).or_insert_with(|| Rc::new(Page { data: vec![0; PG], sym: BTreeMap::new() })));
            pg.data[po..po + k].copy_from_slice(&b[i..i + k]);
            if !pg.sym.is_empty() { let ks: Vec<u16> = pg.sym.range(po as u16..=(po + k - 1) as u16).map(|x| *x.0).collect(); for q in ks { pg.sym.remove(&q); } }
            while si < sy.len() && (sy[si].0 as usize) < i + k { pg.sym.insert((po + sy[si].0 as usize - i) as u16, sy[si].1); si += 1; }
            i += k;
        }
    }
    pub fn truncate(&mut self, size: u64) {
        if size < self.size {
            let last = size / PG as u64;
            let po = (size % PG as u64) as usize;
            let ks: Vec<u64> = self.pages.range(last + (po > 0) as u64..).map(|x| *x.0).collect();
            for k in ks { self.pages.remove(&k); }
            if po > 0 { if let Some(p) = self.pages.get_mut(&last) { let p = Rc::make_mut(p); for b in &mut p.data[po..] { *b = 0; } p.sym.retain(|k, _| (*k as usize) < po); } }
        }
        self.size = size;
    }
}
pub fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') { match c { "" | "." => {} ".." => { v.pop(); } x => v.push(x) } }
    v.join("/")
}
impl Fs {
    pub fn new() -> Fs {
        let mut f = Fs { names: BTreeMap::new(), inodes: vec![], fdt: BTreeMap::new(), ofd: vec![], fault_kind: 0, fault_after: 0, fault_fired: 0, n_sync: 0, n_write: 0 };
        f.mk("", true);
        f
    }
    pub fn mk(&mut self, p: &str, dir: bool) -> usize {
        self.inodes.push(Inode { dir, data: Rc::new(Data::default()), durable: None, linked: true });
        self.names.insert(norm(p), self.inodes.len() - 1);
        self.inodes.len() - 1
    }
    pub fn look(&self, p: &str) -> Option<usize> { self.names.get(&norm(p)).copied() }
    pub fn parent_ok(&self, p: &str) -> bool { let n = norm(p); match n.rfind('/') { None => true, Some(k) => self.look(&n[..k]).map_or(false, |i| self.inodes[i].dir) } }
    pub fn open(&mut self, ino: usize, flags: u64) -> u64 {
        self.ofd.push(Fd { ino, pos: 0, flags });
        self.newfd(self.ofd.len() - 1, 3)
    }
    pub fn newfd(&mut self, o: usize, min: u64) -> u64 { let mut k = min; while self.fdt.contains_key(&k) { k += 1; } self.fdt.insert(k, o); k }
    /// does the injected fault hit this call?
    pub fn fault(&mut self, kind: u64) -> bool {
        if self.fault_kind & kind == 0 { return false; }
        if self.fault_after > 0 { self.fault_after -= 1; return false; }
        if self.fault_kind & 32 == 0 { self.fault_kind = 0; }
        self.fault_fired += 1;
        true
    }
    /// does this write stop half-way (the next write then fails)?
    pub fn short(&mut self, n: usize) -> bool {
        if self.fault_kind & 16 == 0 || n < 2 { return false; }
        if self.fault_after > 0 { self.fault_after -= 1; return false; }
        self.fault_kind = 1 | self.fault_kind & 32;
        true
    }
    /// power loss: every file reverts to what was last pushed to stable storage; never-synced files vanish
    pub fn crash(&mut self) {
        let mut gone = vec![];
        for (n, &i) in self.names.iter() {
            if self.inodes[i].dir { continue; }
            match self.inodes[i].durable.clone() { Some(d) => self.inodes[i].data = d, None => gone.push(n.clone()) }
        }
        for n in gone { let i = self.names.remove(&n).unwrap(); self.inodes[i].linked = false; }
        self.fault_kind = 0;
    }
}
