//! Shared parts of the harnesses: the symbolic-input wrappers, a key type whose hash the harness controls, the reference model and a reader of the file formats.
use crate::rt;
use siamesedb::filedb::{CheckFileDbMap, FileBufSizeParam, FileDbMap, FileDbParams};
use siamesedb::{DbMap, DbMapKeyType, DbXxxBase, DbXxxObjectSafe, HashValue};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const SLOTS: usize = if cfg!(feature = "small") { 6 } else { 64 };
pub const HALF: usize = SLOTS / 2;

pub fn range(lo: u64, hi: u64) -> u64 { unsafe { rt::sym_range(lo, hi) } }
pub fn any_u64() -> u64 { unsafe { rt::sym_u64() } }
pub fn choice(n: u64) -> u64 { unsafe { rt::sym_choice(n) } }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; if n > 0 { unsafe { rt::sym_bytes(v.as_mut_ptr(), n) } } v }
pub fn assume(b: bool) { unsafe { rt::sym_assume(b) } }
pub fn trace(x: u64) { unsafe { rt::sym_trace(x) } }
pub fn cover(x: u64) { unsafe { rt::sym_cover(x) } }
pub fn assert_(b: bool, code: u64) { unsafe { rt::sym_assert(b, code) } }
pub fn snap(f: &str) -> u64 { unsafe { rt::sym_snap(f.as_ptr(), f.len()) } }
pub fn same(h: u64, f: &str) -> bool { unsafe { rt::sym_same(h, f.as_ptr(), f.len()) } }
/// an assertion; its code is the source line, so that a report can quote it
#[macro_export]
macro_rules! check { ($c:expr) => { $crate::kit::assert_($c, ($crate::FILE_ID(file!()) * 100000 + line!()) as u64) }; }

/// digest of a value for the recorded trace (no branch on symbolic bytes)
pub fn trace_bytes(v: &[u8]) {
    let mut h = v.len() as u64;
    for b in v { h = h.wrapping_mul(257).wrapping_add(*b as u64); }
    trace(h);
}
pub fn trace_opt(v: &Option<Vec<u8>>) { match v { None => trace(u64::MAX), Some(v) => trace_bytes(v) } }

// ---------------------------------------------------------------- key type with a chosen hash
pub static HASHES: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
pub fn set_hash(i: usize, h: u64) { HASHES[i].store(h, Relaxed) }
pub static HASH_MODE: AtomicU64 = AtomicU64::new(0);
#[derive(Clone, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K(pub Vec<u8>);
impl HashValue for K {
    fn hash_value(&self) -> u64 {
        let last = if self.0.is_empty() { 0 } else { self.0[self.0.len() - 1] } as u64;
        match HASH_MODE.load(Relaxed) {
            0 => 5,                       // every key in one slot
            1 => last & 1,                // two slots
            2 => (last & 3) * 1000,       // four slots
            9 => HASHES[(last & 15) as usize].load(Relaxed), // chosen key by key
            _ => last * 8,                // a slot of its own per last byte
        }
    }
}
impl DbMapKeyType for K {
    fn from_bytes(b: &[u8]) -> Self { K(b.to_vec()) }
    fn signature() -> [u8; 8] { *b"verifk\0\0" }
    fn as_bytes(&self) -> &[u8] { &self.0 }
    fn cmp_u8(&self, o: &[u8]) -> std::cmp::Ordering { self.0.as_slice().cmp(o) }
}
impl From<&[u8]> for K { fn from(b: &[u8]) -> K { K(b.to_vec()) } }
impl std::fmt::Display for K { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("k") } }

pub type M = FileDbMap<K>;
pub fn params() -> FileDbParams { FileDbParams::default() }
/// buffer settings by number: 0 default, 1 automatic, 2 proportional (20 per mille), 3 one chunk, 4 four chunks, 5 proportional 1
pub fn params_no(i: u64) -> FileDbParams {
    let p = |a: FileBufSizeParam| FileDbParams { val_buf_size: a.clone(), key_buf_size: a.clone(), idx_buf_size: a.clone(), htx_buf_size: a };
    match i {
        0 => FileDbParams::default(),
        1 => p(FileBufSizeParam::Auto),
        2 => p(FileBufSizeParam::PerMille(20)),
        3 => p(FileBufSizeParam::Size(128 * 1024)),
        4 => p(FileBufSizeParam::Size(512 * 1024)),
        5 => p(FileBufSizeParam::PerMille(1)),
        6 => p(FileBufSizeParam::PerMille(1000)),
        7 => p(FileBufSizeParam::PerMille(0)),
        8 => p(FileBufSizeParam::Size(0)),
        9 => p(FileBufSizeParam::Size(1000)),
        10 => p(FileBufSizeParam::Size(u32::MAX)),
        _ => p(FileBufSizeParam::PerMille(u16::MAX)),
    }
}
#[cfg(siamesedb_verif)]
pub fn open_p(p: FileDbParams) -> M { std::fs::create_dir_all("db").unwrap(); M::verif_open("db", "m", p).unwrap() }
pub fn open() -> M { open_p(params()) }

// ---------------------------------------------------------------- reference model: entries sorted by key
#[derive(Clone, Default)]
pub struct Model { pub e: Vec<(Vec<u8>, Vec<u8>)> }
impl Model {
    pub fn new() -> Model { Model { e: vec![] } }
    pub fn find(&self, k: &[u8]) -> Result<usize, usize> {
        let (mut lo, mut hi) = (0, self.e.len());
        while lo < hi {
            let m = (lo + hi) / 2;
            match k.cmp(self.e[m].0.as_slice()) { std::cmp::Ordering::Equal => return Ok(m), std::cmp::Ordering::Less => hi = m, std::cmp::Ordering::Greater => lo = m + 1 }
        }
        Err(lo)
    }
    pub fn put(&mut self, k: &[u8], v: &[u8]) { match self.find(k) { Ok(i) => self.e[i].1 = v.to_vec(), Err(i) => self.e.insert(i, (k.to_vec(), v.to_vec())) } }
    pub fn get(&self, k: &[u8]) -> Option<Vec<u8>> { self.find(k).ok().map(|i| self.e[i].1.clone()) }
    pub fn del(&mut self, k: &[u8]) -> Option<Vec<u8>> { match self.find(k) { Ok(i) => Some(self.e.remove(i).1), Err(_) => None } }
    pub fn len(&self) -> usize { self.e.len() }
}
pub fn eq_opt(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.as_slice() == b.as_slice(), _ => false } }

// ---------------------------------------------------------------- histories
/// put the keys 2,4,..,2n (two big-endian bytes, or one below 128) in the given order; value of key i is [i, i]
pub fn base_key(i: usize, n: usize) -> Vec<u8> { let k = 2 * (i + 1); if n <= 120 { vec![k as u8] } else { vec![(k >> 8) as u8, k as u8] } }
pub fn order(n: usize, how: u64) -> Vec<usize> {
    let v: Vec<usize> = (0..n).collect();
    match how {
        0 => v,
        1 => v.into_iter().rev().collect(),
        2 => { let mut o = vec![]; let (mut a, mut b) = (0, n); while a < b { o.push(a); a += 1; if a < b { b -= 1; o.push(b); } } o }
        _ => { // a fixed shuffle
            let mut o = v; let mut s = how.wrapping_mul(0x9e3779b97f4a7c15) | 1;
            for i in (1..n).rev() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; o.swap(i, (s % (i as u64 + 1)) as usize); }
            o
        }
    }
}
/// values of the base keys: 0 two bytes each, 1 lengths of many record classes, 2 every record larger than the largest class
pub static VSTYLE: AtomicU64 = AtomicU64::new(0);
pub fn base_value(i: usize) -> Vec<u8> {
    let n = match VSTYLE.load(Relaxed) { 0 => 2, 1 => [2, 40, 300, 1100, 2000, 9, 700, 5000][i * 5 % 8], _ => 1100 + 72 * i };
    let mut v = vec![i as u8; n];
    v[n - 1] = 7;
    v
}
pub fn fill<X: DbXxxObjectSafe<K>>(m: &mut X, md: &mut Model, n: usize, how: u64) {
    for i in order(n, how) { let k = base_key(i, n); let v = base_value(i); m.put_kt(&K(k.clone()), &v).unwrap(); md.e.push((k, v)); }
    md.e.sort();
}
/// a case argument of 100000 + 1000 * lo + hi stands for any number from lo to hi
pub fn pick(a: u64) -> u64 {
    if a < 100000 || a >= 200000 { return a }
    let (lo, hi) = ((a / 1000) % 100, a % 1000);
    lo + choice(hi - lo + 1)
}
/// a symbolic key that can equal any base key or fall anywhere between them
pub static WINDOWS: AtomicU64 = AtomicU64::new(0);
pub fn sym_key(n: usize) -> Vec<u8> {
    if WINDOWS.load(Relaxed) > 0 {
        // only the neighbourhoods of the lowest, middle and highest key
        let (w, n64) = (WINDOWS.load(Relaxed), n as u64);
        let lo = [1, n64 - w / 2, 2 * n64 + 2 - w][choice(3) as usize];
        return sym_key_in(n, lo, lo + w);
    }
    if n <= 120 { vec![range(1, 2 * n as u64 + 2) as u8] } else { let x = range(1, 2 * n as u64 + 2); vec![(x >> 8) as u8, x as u8] }
}
/// a key chosen symbolically inside [lo, hi) of the key numbers (keeps large trees affordable)
pub fn sym_key_in(n: usize, lo: u64, hi: u64) -> Vec<u8> { let x = range(lo, hi); if n <= 120 { vec![x as u8] } else { vec![(x >> 8) as u8, x as u8] } }

/// lengths around the record size classes (value record = 8 bytes + data, classes 16 24 32 48 64 80 96 112 128 256 .. 896 then multiples of 128)
pub const LENS: [usize; 8] = [0, 1, 9, 30, 130, 500, 1000, 1200];
pub fn sym_value(tag: u8, len: usize) -> Vec<u8> {
    let mut v = vec![tag; len];
    if len > 0 { v[0] = range(0, 256) as u8; }
    if len > 1 { v[len - 1] = range(0, 256) as u8; }
    v
}
/// one symbolic operation (put / delete / get) compared with the model
pub fn step<X: DbXxxObjectSafe<K>>(m: &mut X, md: &mut Model, key: Vec<u8>, tag: u8, lens: &[usize], kinds: u64) -> u64 {
    let op = if kinds == 3 { choice(3) } else if kinds == 2 { choice(2) } else { kinds % 10 };
    let k = K(key);
    match op {
        0 => {
            let len = lens[choice(lens.len() as u64) as usize];
            let v = sym_value(tag, len);
            let r = m.put_kt(&k, &v);
            check!(r.is_ok());
            md.put(&k.0, &v);
            cover(10);
        }
        1 => {
            let r = m.del_kt(&k);
            check!(r.is_ok());
            let r = r.unwrap();
            trace_opt(&r);
            let e = md.del(&k.0);
            check!(r.is_some() == e.is_some());
            check!(eq_opt(&r, &e));
            cover(if e.is_some() { 11 } else { 12 });
        }
        _ => {
            let r = m.get_kt(&k);
            check!(r.is_ok());
            let r = r.unwrap();
            trace_opt(&r);
            let e = md.get(&k.0);
            check!(r.is_some() == e.is_some());
            check!(eq_opt(&r, &e));
            cover(if e.is_some() { 13 } else { 14 });
        }
    }
    op
}
pub fn probe<X: DbXxxObjectSafe<K>>(m: &mut X, md: &Model, key: Vec<u8>) {
    let r = m.get_kt(&K(key.clone()));
    check!(r.is_ok());
    let r = r.unwrap();
    trace_opt(&r);
    let e = md.get(&key);
    check!(r.is_some() == e.is_some());
    check!(eq_opt(&r, &e));
}
/// every model entry is found with its value, through lookups
pub fn all_found<X: DbXxxObjectSafe<K>>(m: &mut X, md: &Model) {
    for (k, v) in &md.e {
        let r = m.get_kt(&K(k.clone())).unwrap();
        check!(r.is_some());
        check!(r.unwrap().as_slice() == v.as_slice());
    }
}
/// iteration yields exactly the model's entries in order and then stays ended
pub fn iter_same(it: &mut dyn Iterator<Item = (K, Vec<u8>)>, md: &Model) {
    for (k, v) in &md.e {
        let x = it.next();
        check!(x.is_some());
        let (a, b) = x.unwrap();
        check!(a.0.as_slice() == k.as_slice());
        check!(b.as_slice() == v.as_slice());
    }
    check!(it.next().is_none());
    check!(it.next().is_none());
}
pub fn contents_same(m: &M, md: &Model) { let mut it = m.iter(); iter_same(&mut it, md); }

// ---------------------------------------------------------------- reading the files
pub const KV_CLASSES: [u32; 16] = [16, 24, 32, 48, 64, 80, 96, 112, 128, 256, 384, 512, 640, 768, 896, 1024];
pub const NODE_CLASSES: [u32; 8] = if cfg!(feature = "small") { [16, 32, 64, 96, 128, 160, 192, 224] } else { [256, 512, 1024, 2048, 4096, 4352, 4608, 4864] };
pub struct Rec { pub off: u64, pub size: u32, pub key: Vec<u8>, pub voff: u64, pub vsize: u32, pub val: Vec<u8> }
#[derive(Default)]
pub struct Disk {
    pub recs: Vec<Rec>,              // in key order
    pub nodes: Vec<(u64, u32, usize, usize)>, // offset, size, keys, depth
    pub free_key: Vec<u64>, pub free_val: Vec<u64>, pub free_node: Vec<u64>, // entries per list
    pub depth: usize,
    pub len: [u64; 3],
}
fn r4(b: &[u8], o: u64) -> u32 { let o = o as usize; check!(o + 4 <= b.len()); u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) }
fn r8(b: &[u8], o: u64) -> u64 { let o = o as usize; check!(o + 8 <= b.len()); let mut a = [0u8; 8]; a.copy_from_slice(&b[o..o + 8]); u64::from_le_bytes(a) }
fn free_lists(b: &[u8], first: u64, classes: &[u32], used: &mut Vec<(u64, u64)>) -> Vec<u64> {
    let mut counts = vec![];
    for (i, c) in classes.iter().enumerate() {
        let mut o = r8(b, first + 8 * i as u64);
        let mut n = 0;
        while o != 0 {
            n += 1;
            check!(n < 10000); // no cycle
            let sz = r4(b, o);
            if i + 1 < classes.len() { check!(sz == *c); } else { check!(sz >= *c); }
            check!(o + sz as u64 <= b.len() as u64);
            used.push((o, o + sz as u64));
            check!(r4(b, o + 4) == 0);
            o = r8(b, o + 8);
        }
        counts.push(n);
    }
    counts
}
fn partition(used: &mut Vec<(u64, u64)>, head: u64, len: u64) {
    used.sort();
    let mut at = head;
    for (a, z) in used.iter() { check!(*a == at); check!(*z > *a); at = *z; }
    check!(at == len);
}
struct Walk<'a> { key: &'a [u8], val: &'a [u8], idx: &'a [u8], d: Disk, uk: Vec<(u64, u64)>, uv: Vec<(u64, u64)>, un: Vec<(u64, u64)>, strict: bool }
impl<'a> Walk<'a> {
    fn node(&mut self, off: u64, depth: usize, root: bool) {
        check!(depth < 20);
        check!(off != 0 && off % 16 == 0);
        let b = self.idx;
        check!(off + 6 <= b.len() as u64);
        let o = off as usize;
        let size = u16::from_le_bytes([b[o], b[o + 1]]) as u32;
        let leaf = u16::from_le_bytes([b[o + 2], b[o + 3]]);
        let n = u16::from_le_bytes([b[o + 4], b[o + 5]]) as usize;
        check!(leaf <= 1 || n == 0);
        if leaf != 0 && !root { check!(n > 0); }
        let has_downs = leaf == 0 && n > 0;
        let need = 6 + 8 * n + if has_downs { 8 * (n + 1) } else { 0 };
        check!(need <= size as usize);
        check!(NODE_CLASSES.contains(&size));
        check!(n < SLOTS);
        if has_downs && !root { check!(n + 1 >= HALF); }
        self.un.push((off, off + size as u64));
        self.d.nodes.push((off, size, n, depth));
        if !has_downs {
            if self.d.depth == 0 { self.d.depth = depth; }
            check!(self.d.depth == depth);
        }
        for i in 0..n {
            if has_downs { let dn = r8(b, off + 6 + 8 * (n + i) as u64); self.node(dn, depth + 1, false); }
            let ko = r8(b, off + 6 + 8 * i as u64);
            self.rec(ko);
        }
        if has_downs { let dn = r8(b, off + 6 + 8 * (n + n) as u64); self.node(dn, depth + 1, false); }
    }
    fn rec(&mut self, ko: u64) {
        let size = r4(self.key, ko);
        let klen = r4(self.key, ko + 4) as u64;
        check!(16 + klen <= size as u64);
        check!(ko + size as u64 <= self.key.len() as u64);
        let key = self.key[(ko + 8) as usize..(ko + 8 + klen) as usize].to_vec();
        let voff = r8(self.key, ko + 8 + klen);
        let vsize = r4(self.val, voff);
        let vlen = r4(self.val, voff + 4) as u64;
        check!(8 + vlen <= vsize as u64);
        check!(voff + vsize as u64 <= self.val.len() as u64);
        let val = self.val[(voff + 8) as usize..(voff + 8 + vlen) as usize].to_vec();
        for s in [size, vsize] { check!(s >= 1024 || KV_CLASSES.contains(&s)); }
        self.uk.push((ko, ko + size as u64));
        self.uv.push((voff, voff + vsize as u64));
        if self.strict { if let Some(p) = self.d.recs.last() { let p = p.key.clone(); check!(p.as_slice() < key.as_slice()); } }
        self.d.recs.push(Rec { off: ko, size, key, voff, vsize, val });
    }
}
pub fn load(name: &str, ext: &str) -> Vec<u8> { std::fs::read(format!("db/{}.{}", name, ext)).unwrap() }
/// parse key, value and index file of the (flushed) map; `space` checks that they are partitioned exactly
pub fn disk(name: &str, space: bool) -> Disk {
    let (key, val, idx) = (load(name, "key"), load(name, "val"), load(name, "idx"));
    let top = r8(&idx, 16);
    let mut w = Walk { key: &key, val: &val, idx: &idx, d: Disk::default(), uk: vec![], uv: vec![], un: vec![], strict: true };
    w.node(top, 1, true);
    if space {
        w.d.free_key = free_lists(&key, 32, &KV_CLASSES, &mut w.uk);
        w.d.free_val = free_lists(&val, 32, &KV_CLASSES, &mut w.uv);
        w.d.free_node = free_lists_node(&idx, &mut w.un);
        partition(&mut w.uk, 192, key.len() as u64);
        partition(&mut w.uv, 192, val.len() as u64);
        partition(&mut w.un, 128, idx.len() as u64);
    }
    w.d.len = [key.len() as u64, val.len() as u64, idx.len() as u64];
    w.d
}
fn free_lists_node(b: &[u8], used: &mut Vec<(u64, u64)>) -> Vec<u64> { free_lists(b, 24, &NODE_CLASSES, used) }
pub fn disk_same(d: &Disk, md: &Model) {
    check!(d.recs.len() == md.e.len());
    for (r, (k, v)) in d.recs.iter().zip(md.e.iter()) { check!(r.key.as_slice() == k.as_slice()); check!(r.val.as_slice() == v.as_slice()); }
}
pub fn reports_ok(m: &M) {
    check!(m.is_balanced().unwrap());
    check!(m.is_mst_valid().unwrap());
    check!(m.is_dense().unwrap());
}
/// write the slot count into the header of a closed map's lookup table
pub fn set_slots(name: &str, n: u64) { set_slots_in("db", name, n) }
pub fn set_slots_in(dir: &str, name: &str, n: u64) {
    use std::io::{Seek, SeekFrom, Write};
    let mut f = std::fs::OpenOptions::new().write(true).open(format!("{}/{}.htx", dir, name)).unwrap();
    f.seek(SeekFrom::Start(16)).unwrap();
    f.write_all(&n.to_le_bytes()).unwrap();
}
pub fn patch(file: &str, off: u64, b: &[u8]) {
    use std::io::{Seek, SeekFrom, Write};
    let mut f = std::fs::OpenOptions::new().write(true).open(file).unwrap();
    f.seek(SeekFrom::Start(off)).unwrap();
    f.write_all(b).unwrap();
}
pub fn base_sync(x: &mut dyn DbXxxBase, how: u64) { let r = match how { 0 => x.flush(), 1 => x.sync_all(), _ => x.sync_data() }; check!(r.is_ok()); }
