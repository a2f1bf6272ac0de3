//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop { Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cop { Eq, Ult, Slt }

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u16, u128),
    Var(u16, u32),
    Bin(Bop, u16, Ex, Ex),
    Cmp(Cop, Ex, Ex),
    Not(Ex),
    Ite(u16, Ex, Ex, Ex),
    ZExt(u16, Ex),
    SExt(u16, Ex),
    Extract(u16, u16, Ex), // lo, width
    Concat(u16, Ex, Ex),   // hi, lo
}

#[derive(Default, Clone, Copy)]
struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut a = [0u8; 8]; a[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(a)); } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}
#[derive(Default, Clone, Copy)]
pub struct Fx;
impl std::hash::BuildHasher for Fx { type Hasher = FxHW; fn build_hasher(&self) -> FxHW { FxHW(FxH(0)) } }
pub struct FxHW(FxH);
impl std::hash::Hasher for FxHW {
    fn finish(&self) -> u64 { let x = self.0.0; x ^ (x >> 29) }
    fn write(&mut self, b: &[u8]) { self.0.write(b) }
    fn write_u8(&mut self, i: u8) { self.0.write_u8(i) }
    fn write_u16(&mut self, i: u16) { self.0.write_u16(i) }
    fn write_u32(&mut self, i: u32) { self.0.write_u32(i) }
    fn write_u64(&mut self, i: u64) { self.0.write_u64(i) }
    fn write_usize(&mut self, i: usize) { self.0.write_usize(i) }
    fn write_u128(&mut self, i: u128) { self.0.write_u128(i) }
    fn write_isize(&mut self, i: isize) { self.0.write_isize(i) }
}
pub type FxMap<K, V> = HashMap<K, V, Fx>;

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 {
    let v = v & mask(w);
    if w < 128 && (v >> (w - 1)) & 1 == 1 { (v | !mask(w)) as i128 } else { v as i128 }
}

pub fn fold_bin(op: Bop, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let (a, b) = (a & m, b & m);
    (match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::UDiv => if b == 0 { m } else { a / b },
        Bop::URem => if b == 0 { a } else { a % b },
        Bop::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u128 } }
        Bop::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Bop::Shl => if b >= w as u128 { 0 } else { a << b },
        Bop::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bop::AShr => { let x = sext(a, w); let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; (x >> s.min(127)) as u128 }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
    }) & m
}
pub fn fold_cmp(op: Cop, w: u16, a: u128, b: u128) -> bool {
    let m = mask(w);
    match op { Cop::Eq => a & m == b & m, Cop::Ult => (a & m) < (b & m), Cop::Slt => sext(a, w) < sext(b, w) }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, Ex>,
    range_memo: FxMap<Ex, (u128, u128)>,
    vars_memo: FxMap<Ex, Rc<Vec<(u32, u16)>>>,
    // evaluation cache: valid while `eval_gen` is unchanged
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
    cur_model: u64,
}

/// model: value of variable i (missing = 0)
pub struct Model { pub id: u64, pub vals: Vec<u64> }

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![], map: Default::default(), range_memo: Default::default(), vars_memo: Default::default(), ev_gen: vec![], ev_val: vec![], gen: 1, cur_model: u64::MAX }
    }
    pub fn intern(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.map.get(&n) { return e; }
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn n(&self, e: Ex) -> Node { self.nodes[e as usize] }
    pub fn width(&self, e: Ex) -> u16 {
        match self.n(e) {
            Node::Const(w, _) | Node::Var(w, _) | Node::Bin(_, w, _, _) | Node::Ite(w, ..) | Node::ZExt(w, _) | Node::SExt(w, _) | Node::Extract(_, w, _) | Node::Concat(w, ..) => w,
            Node::Cmp(..) | Node::Not(_) => 1,
        }
    }
    pub fn cst(&mut self, w: u16, v: u128) -> Ex { self.intern(Node::Const(w, v & mask(w))) }
    pub fn var(&mut self, w: u16, i: u32) -> Ex { self.intern(Node::Var(w, i)) }
    pub fn as_const(&self, e: Ex) -> Option<u128> { if let Node::Const(_, v) = self.n(e) { Some(v) } else { None } }
    pub fn bit(&mut self, b: bool) -> Ex { self.cst(1, b as u128) }

    /// cheap unsigned interval
    pub fn range(&mut self, e: Ex) -> (u128, u128) {
        if let Node::Const(_, v) = self.n(e) { return (v, v); }
        if let Some(&r) = self.range_memo.get(&e) { return r; }
        let w = self.width(e);
        let full = (0, mask(w));
        let r = match self.n(e) {
            Node::Const(_, v) => (v, v),
            Node::ZExt(_, a) => self.range(a),
            Node::Ite(_, _, a, b) => { let (x, y) = (self.range(a), self.range(b)); (x.0.min(y.0), x.1.max(y.1)) }
            Node::Concat(_, h, l) => { let lw = self.width(l); let (x, y) = (self.range(h), self.range(l)); ((x.0 << lw) | y.0, (x.1 << lw) | y.1) }
            Node::Bin(Bop::And, _, a, b) => { let (x, y) = (self.range(a), self.range(b)); (0, x.1.min(y.1)) }
            Node::Bin(Bop::Add, _, a, b) => {
                let (x, y) = (self.range(a), self.range(b));
                match x.1.checked_add(y.1) { Some(s) if s <= mask(w) => (x.0 + y.0, s), _ => full }
            }
            Node::Bin(Bop::Mul, _, a, b) => {
                let (x, y) = (self.range(a), self.range(b));
                match x.1.checked_mul(y.1) { Some(s) if s <= mask(w) => (x.0 * y.0, s), _ => full }
            }
            Node::Bin(Bop::Sub, _, a, b) => { let (x, y) = (self.range(a), self.range(b)); if x.0 >= y.1 { (x.0 - y.1, x.1 - y.0) } else { full } }
            Node::Bin(Bop::UDiv, _, a, b) => { let (x, y) = (self.range(a), self.range(b)); if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full } }
            Node::Bin(Bop::URem, _, a, b) => { let (x, y) = (self.range(a), self.range(b)); if y.0 > 0 { (0, x.1.min(y.1 - 1)) } else { full } }
            Node::Extract(0, wd, a) => { let r = self.range(a); if r.1 <= mask(wd) { r } else { full } }
            _ => full,
        };
        self.range_memo.insert(e, r);
        r
    }

    pub fn not(&mut self, a: Ex) -> Ex {
        match self.n(a) {
            Node::Const(_, v) => self.bit(v == 0),
            Node::Not(x) => x,
            _ => self.intern(Node::Not(a)),
        }
    }
    fn is_const(&self, e: Ex) -> bool { matches!(self.n(e), Node::Const(..)) }
    fn ite_const_leaf(&self, e: Ex) -> bool {
        // an Ite one of whose leaves is constant (depth-bounded chain)
        if let Node::Ite(_, _, a, b) = self.n(e) { self.is_const(a) || self.is_const(b) } else { false }
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(v) = self.as_const(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        if let Node::Not(x) = self.n(c) { return self.ite(x, b, a); }
        let w = self.width(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Bop::Or, c, b),
                (Some(0), _) => { let n = self.not(c); return self.bin(Bop::And, n, b); }
                (_, Some(0)) => return self.bin(Bop::And, c, a),
                (_, Some(1)) => { let n = self.not(c); return self.bin(Bop::Or, n, a); }
                _ => {}
            }
        }
        // collapse identical conditions
        let a = if let Node::Ite(_, c2, x, _) = self.n(a) { if c2 == c { x } else { a } } else { a };
        let b = if let Node::Ite(_, c2, _, y) = self.n(b) { if c2 == c { y } else { b } } else { b };
        if a == b { return a; }
        self.intern(Node::Ite(w, c, a, b))
    }
    pub fn zext(&mut self, w: u16, a: Ex) -> Ex {
        let wa = self.width(a);
        if wa == w { return a; }
        debug_assert!(wa < w);
        match self.n(a) {
            Node::Const(_, v) => self.cst(w, v),
            Node::ZExt(_, x) => self.zext(w, x),
            Node::Ite(_, c, x, y) if self.is_const(x) || self.is_const(y) => { let x = self.zext(w, x); let y = self.zext(w, y); self.ite(c, x, y) }
            _ => self.intern(Node::ZExt(w, a)),
        }
    }
    pub fn sext(&mut self, w: u16, a: Ex) -> Ex {
        let wa = self.width(a);
        if wa == w { return a; }
        match self.n(a) {
            Node::Const(_, v) => self.cst(w, sext(v, wa) as u128),
            Node::ZExt(wz, x) if wz > self.width(x) => self.zext(w, x),
            Node::Ite(_, c, x, y) if self.is_const(x) || self.is_const(y) => { let x = self.sext(w, x); let y = self.sext(w, y); self.ite(c, x, y) }
            _ => self.intern(Node::SExt(w, a)),
        }
    }
    pub fn extract(&mut self, lo: u16, w: u16, e: Ex) -> Ex {
        let we = self.width(e);
        debug_assert!(lo + w <= we, "extract {} {} of {}", lo, w, we);
        if lo == 0 && w == we { return e; }
        match self.n(e) {
            Node::Const(_, v) => self.cst(w, v >> lo),
            Node::Extract(l2, _, x) => self.extract(lo + l2, w, x),
            Node::Concat(_, h, l) => {
                let lw = self.width(l);
                if lo + w <= lw { self.extract(lo, w, l) }
                else if lo >= lw { self.extract(lo - lw, w, h) }
                else { let a = self.extract(0, lo + w - lw, h); let b = self.extract(lo, lw - lo, l); self.concat(a, b) }
            }
            Node::ZExt(_, x) => {
                let wx = self.width(x);
                if lo >= wx { self.cst(w, 0) }
                else if lo + w <= wx { self.extract(lo, w, x) }
                else { let b = self.extract(lo, wx - lo, x); self.zext(w, b) }
            }
            Node::SExt(_, x) if lo + w <= self.width(x) => self.extract(lo, w, x),
            Node::Ite(_, c, x, y) if self.is_const(x) || self.is_const(y) => { let x = self.extract(lo, w, x); let y = self.extract(lo, w, y); self.ite(c, x, y) }
            Node::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), _, x, y) => { let x = self.extract(lo, w, x); let y = self.extract(lo, w, y); self.bin(op, x, y) }
            Node::Bin(op @ (Bop::Add | Bop::Sub | Bop::Mul), _, x, y) if lo == 0 => { let x = self.extract(0, w, x); let y = self.extract(0, w, y); self.bin(op, x, y) }
            _ => self.intern(Node::Extract(lo, w, e)),
        }
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (wh, wl) = (self.width(h), self.width(l));
        let w = wh + wl;
        match (self.n(h), self.n(l)) {
            (Node::Const(_, a), Node::Const(_, b)) if w <= 128 => return self.cst(w, (a << wl) | b),
            (Node::Const(_, 0), _) => return self.zext(w, l),
            (Node::Extract(l2, _, x), Node::Extract(l1, w1, y)) if x == y && l1 + w1 == l2 => return self.extract(l1, w, x),
            (Node::Extract(l2, _, x), Node::Concat(_, h2, l3)) => {
                if let Node::Extract(l1, w1, y) = self.n(h2) { if x == y && l1 + w1 == l2 { let m = self.extract(l1, wh + w1, x); return self.concat(m, l3); } }
            }
            (Node::Ite(_, c, a, b), Node::Ite(_, c2, d, e)) if c == c2 && ((self.is_const(a) && self.is_const(d)) || (self.is_const(b) && self.is_const(e))) => {
                let x = self.concat(a, d); let y = self.concat(b, e); return self.ite(c, x, y);
            }
            (Node::Const(..), Node::Ite(_, c, d, e)) if self.is_const(d) || self.is_const(e) => { let x = self.concat(h, d); let y = self.concat(h, e); return self.ite(c, x, y); }
            (Node::Ite(_, c, a, b), Node::Const(..)) if self.is_const(a) || self.is_const(b) => { let x = self.concat(a, l); let y = self.concat(b, l); return self.ite(c, x, y); }
            (Node::ZExt(_, x), _) => { let m = self.concat(x, l); return self.zext(w, m); }
            // x is extract reaching the top of y, y = low part: full-extract case
            (Node::Extract(l2, _, x), _) if l2 == wl && x == l => {}
            _ => {}
        }
        // extract(hi part of x) ++ extract-low(x) where low has been simplified to whole variable
        if let Node::Extract(l2, _, x) = self.n(h) {
            if l2 == wl { let lowx = self.extract(0, wl, x); if lowx == l { return self.extract(0, w, x); } }
        }
        self.intern(Node::Concat(w, h, l))
    }
    pub fn bin(&mut self, op: Bop, a: Ex, b: Ex) -> Ex {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "{:?} {:?} {:?}", op, self.n(a), self.n(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(w, fold_bin(op, w, x, y)); }
        use Bop::*;
        // commutative: constant to the right
        if matches!(op, Add | Mul | And | Or | Xor) && (ca.is_some() || (cb.is_none() && a > b)) { if ca.is_some() || cb.is_none() { return self.bin2(op, w, b, a); } }
        self.bin2(op, w, a, b)
    }
    fn bin2(&mut self, op: Bop, w: u16, a: Ex, b: Ex) -> Ex {
        use Bop::*;
        let cb = self.as_const(b);
        let ones = mask(w);
        match (op, cb) {
            (Add | Sub | Or | Xor | Shl | LShr | AShr, Some(0)) => return a,
            (Mul, Some(0)) | (And, Some(0)) => return b,
            (Mul, Some(1)) | (UDiv, Some(1)) | (SDiv, Some(1)) => return a,
            (URem, Some(1)) => return self.cst(w, 0),
            (And, Some(v)) if v == ones => return a,
            (Or, Some(v)) if v == ones => return b,
            (Xor, Some(v)) if v == ones && w == 1 => return self.not(a),
            _ => {}
        }
        if a == b {
            match op { And | Or => return a, Sub | Xor => return self.cst(w, 0), _ => {} }
        }
        if w == 1 {
            match op {
                And | Or => {
                    if let Node::Not(x) = self.n(a) { if x == b { return self.bit(op == Or); } }
                    if let Node::Not(x) = self.n(b) { if x == a { return self.bit(op == Or); } }
                    return self.intern(Node::Bin(op, w, a, b));
                }
                Xor => { let nb = self.not(b); return self.ite(a, nb, b); }
                Add | Sub => return self.bin(Xor, a, b),
                Mul => return self.bin(And, a, b),
                _ => {}
            }
        }
        if let Some(v) = cb {
            // push through ite with constant leaves
            if self.ite_const_leaf(a) {
                if let Node::Ite(_, c, x, y) = self.n(a) { let x = self.bin(op, x, b); let y = self.bin(op, y, b); return self.ite(c, x, y); }
            }
            match op {
                Add => { if let Node::Bin(Add, _, x, y) = self.n(a) { if self.is_const(y) { let s = self.bin(Add, y, b); return self.bin(Add, x, s); } } }
                Sub => { let nb = self.cst(w, v.wrapping_neg()); return self.bin(Add, a, nb); }
                Shl => { if v >= w as u128 { return self.cst(w, 0); } let s = v as u16; let x = self.extract(0, w - s, a); let z = self.cst(s, 0); return self.concat(x, z); }
                LShr => { if v >= w as u128 { return self.cst(w, 0); } let s = v as u16; let x = self.extract(s, w - s, a); return self.zext(w, x); }
                AShr => { let s = (v.min(w as u128 - 1)) as u16; let x = self.extract(s, w - s, a); return self.sext(w, x); }
                And => {
                    if v & (v + 1) == 0 { let k = v.count_ones() as u16; let x = self.extract(0, k, a); return self.zext(w, x); }
                    let tz = v.trailing_zeros() as u16;
                    if tz > 0 && tz < w { let hi = self.extract(tz, w - tz, a); let k = self.cst(w - tz, v >> tz); let x = self.bin(And, hi, k); let z = self.cst(tz, 0); return self.concat(x, z); }
                    if v > 0 { let top = 128 - v.leading_zeros() as u16; if top < w { let lo = self.extract(0, top, a); let k = self.cst(top, v); let x = self.bin(And, lo, k); return self.zext(w, x); } }
                }
                Mul => { if v.is_power_of_two() { let k = self.cst(w, v.trailing_zeros() as u128); return self.bin(Shl, a, k); } }
                UDiv => {
                    if v.is_power_of_two() { let k = self.cst(w, v.trailing_zeros() as u128); return self.bin(LShr, a, k); }
                    let r = self.range(a); if r.1 < v { return self.cst(w, 0); }
                }
                URem => {
                    if v.is_power_of_two() { let k = self.cst(w, v - 1); return self.bin(And, a, k); }
                    let r = self.range(a); if r.1 < v { return a; }
                }
                _ => {}
            }
        } else if let Some(v) = self.as_const(a) {
            let _ = v;
            if self.ite_const_leaf(b) {
                if let Node::Ite(_, c, x, y) = self.n(b) { let x = self.bin(op, a, x); let y = self.bin(op, a, y); return self.ite(c, x, y); }
            }
        }
        if op == Or || op == Add || op == Xor {
            // disjoint halves -> concat
            if let Some(r) = self.try_disjoint(w, a, b) { return r; }
            if let Some(r) = self.try_disjoint(w, b, a) { return r; }
        }
        if let (Node::Ite(_, c, x, y), Node::Ite(_, c2, x2, y2)) = (self.n(a), self.n(b)) {
            if c == c2 { let p = self.bin(op, x, x2); let q = self.bin(op, y, y2); return self.ite(c, p, q); }
        }
        // narrow zext operands of bitwise ops
        if matches!(op, And | Or | Xor) {
            if let (Node::ZExt(_, x), Node::ZExt(_, y)) = (self.n(a), self.n(b)) {
                if self.width(x) == self.width(y) { let r = self.bin(op, x, y); return self.zext(w, r); }
            }
        }
        self.intern(Node::Bin(op, w, a, b))
    }
    /// a has its low k bits zero and b has its high bits zero from k up
    fn try_disjoint(&mut self, w: u16, a: Ex, b: Ex) -> Option<Ex> {
        let k = match self.n(a) {
            Node::Concat(_, _, l) if self.as_const(l) == Some(0) => self.width(l),
            Node::Const(_, v) if v != 0 => v.trailing_zeros() as u16,
            Node::ZExt(_, x) => match self.n(x) { Node::Concat(_, _, l) if self.as_const(l) == Some(0) => self.width(l), _ => return None },
            _ => return None,
        };
        let kb = match self.n(b) {
            Node::ZExt(_, x) => self.width(x),
            Node::Const(_, v) => (128 - v.leading_zeros()) as u16,
            _ => return None,
        };
        if kb <= k && k < w {
            let h = self.extract(k, w - k, a);
            let l = self.extract(0, k, b);
            return Some(self.concat(h, l));
        }
        None
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex { self.cmp(Cop::Eq, a, b) }
    pub fn ne(&mut self, a: Ex, b: Ex) -> Ex { let e = self.cmp(Cop::Eq, a, b); self.not(e) }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex { self.cmp(Cop::Ult, a, b) }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex { let e = self.cmp(Cop::Ult, b, a); self.not(e) }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex { self.bin(Bop::And, a, b) }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex { self.bin(Bop::Or, a, b) }
    pub fn cmp(&mut self, op: Cop, a: Ex, b: Ex) -> Ex {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "cmp {:?} {:?} {:?}", op, self.n(a), self.n(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.bit(fold_cmp(op, w, x, y)); }
        if a == b { return self.bit(op == Cop::Eq); }
        // ite push
        if cb.is_some() { if let Node::Ite(_, c, x, y) = self.n(a) { if self.is_const(x) || self.is_const(y) { let p = self.cmp(op, x, b); let q = self.cmp(op, y, b); return self.ite(c, p, q); } } }
        if ca.is_some() { if let Node::Ite(_, c, x, y) = self.n(b) { if self.is_const(x) || self.is_const(y) { let p = self.cmp(op, a, x); let q = self.cmp(op, a, y); return self.ite(c, p, q); } } }
        match op {
            Cop::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) { return self.cmp(Cop::Eq, b, a); }
                if let Some(v) = cb {
                    if w == 1 { return if v == 1 { a } else { self.not(a) }; }
                    match self.n(a) {
                        Node::ZExt(_, x) => {
                            let wx = self.width(x);
                            if v > mask(wx) { return self.bit(false); }
                            let k = self.cst(wx, v); return self.cmp(Cop::Eq, x, k);
                        }
                        Node::Concat(_, h, l) => {
                            let (wh, wl) = (self.width(h), self.width(l));
                            let kh = self.cst(wh, v >> wl); let kl = self.cst(wl, v);
                            let p = self.cmp(Cop::Eq, h, kh); let q = self.cmp(Cop::Eq, l, kl);
                            return self.bin(Bop::And, p, q);
                        }
                        Node::Bin(Bop::Add, _, x, y) => if let Some(c) = self.as_const(y) { let k = self.cst(w, v.wrapping_sub(c)); return self.cmp(Cop::Eq, x, k); },
                        Node::Bin(Bop::Xor, _, x, y) => if let Some(c) = self.as_const(y) { let k = self.cst(w, v ^ c); return self.cmp(Cop::Eq, x, k); },
                        _ => {}
                    }
                    let r = self.range(a);
                    if v < r.0 || v > r.1 { return self.bit(false); }
                } else {
                    if w == 1 { let nb = self.not(b); return self.ite(a, b, nb); }
                    match (self.n(a), self.n(b)) {
                        (Node::ZExt(_, x), Node::ZExt(_, y)) if self.width(x) == self.width(y) => return self.cmp(Cop::Eq, x, y),
                        (Node::Concat(_, h, l), Node::Concat(_, h2, l2)) if self.width(h) == self.width(h2) => {
                            let p = self.cmp(Cop::Eq, h, h2); let q = self.cmp(Cop::Eq, l, l2);
                            return self.bin(Bop::And, p, q);
                        }
                        _ => {}
                    }
                }
            }
            Cop::Ult => {
                if w == 1 { let na = self.not(a); return self.bin(Bop::And, na, b); }
                let (ra, rb) = (self.range(a), self.range(b));
                if ra.1 < rb.0 { return self.bit(true); }
                if ra.0 >= rb.1 { return self.bit(false); }
                if cb == Some(1) { let z = self.cst(w, 0); return self.cmp(Cop::Eq, a, z); }
                if ca == Some(0) { let z = self.cst(w, 0); return self.ne(b, z); }
                match (self.n(a), self.n(b)) {
                    (Node::ZExt(_, x), Node::Const(_, v)) => { let wx = self.width(x); let k = self.cst(wx, v); return self.cmp(Cop::Ult, x, k); }
                    (Node::Const(_, v), Node::ZExt(_, x)) => { let wx = self.width(x); let k = self.cst(wx, v); return self.cmp(Cop::Ult, k, x); }
                    (Node::ZExt(_, x), Node::ZExt(_, y)) => {
                        let (wx, wy) = (self.width(x), self.width(y)); let m = wx.max(wy);
                        let x = self.zext(m, x); let y = self.zext(m, y);
                        if m < w { return self.cmp(Cop::Ult, x, y); }
                    }
                    _ => {}
                }
            }
            Cop::Slt => {
                let h = mask(w) >> 1;
                let (ra, rb) = (self.range(a), self.range(b));
                if ra.1 <= h && rb.1 <= h { return self.cmp(Cop::Ult, a, b); }
                if ra.1 <= h && rb.0 > h { return self.bit(false); }
                if ra.0 > h && rb.1 <= h { return self.bit(true); }
                if cb == Some(0) { return self.extract(w - 1, 1, a); }
                if cb == Some(1) && false { }
                if let (Node::SExt(_, x), Node::Const(_, v)) = (self.n(a), self.n(b)) {
                    let wx = self.width(x);
                    let sv = sext(v, w);
                    let lo = -(1i128 << (wx - 1)); let hi = (1i128 << (wx - 1)) - 1;
                    if sv > hi { return self.bit(true); }
                    if sv < lo + 1 { return self.bit(false); }
                    let k = self.cst(wx, v); return self.cmp(Cop::Slt, x, k);
                }
            }
        }
        self.intern(Node::Cmp(op, a, b))
    }

    pub fn vars(&mut self, e: Ex) -> Rc<Vec<(u32, u16)>> {
        if let Some(v) = self.vars_memo.get(&e) { return v.clone(); }
        // iterative post-order
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.vars_memo.contains_key(&x) { stack.pop(); continue; }
            let ch: Vec<Ex> = self.children(x);
            let mut ready = true;
            for &c in &ch { if !self.vars_memo.contains_key(&c) { stack.push(c); ready = false; } }
            if !ready { continue; }
            stack.pop();
            let r = match self.n(x) {
                Node::Var(w, i) => Rc::new(vec![(i, w)]),
                _ => {
                    if ch.is_empty() { Rc::new(vec![]) }
                    else {
                        let first = self.vars_memo[&ch[0]].clone();
                        let mut acc: Vec<(u32, u16)> = (*first).clone();
                        for c in &ch[1..] { acc.extend(self.vars_memo[c].iter()); }
                        acc.sort(); acc.dedup();
                        if acc.len() == first.len() { first } else { Rc::new(acc) }
                    }
                }
            };
            self.vars_memo.insert(x, r);
        }
        self.vars_memo[&e].clone()
    }
    pub fn children(&self, e: Ex) -> Vec<Ex> {
        match self.n(e) {
            Node::Const(..) | Node::Var(..) => vec![],
            Node::Bin(_, _, a, b) | Node::Cmp(_, a, b) | Node::Concat(_, a, b) => vec![a, b],
            Node::Not(a) | Node::ZExt(_, a) | Node::SExt(_, a) | Node::Extract(_, _, a) => vec![a],
            Node::Ite(_, c, a, b) => vec![c, a, b],
        }
    }
    pub fn eval(&mut self, e: Ex, m: &Model) -> u128 {
        if let Node::Const(_, v) = self.n(e) { return v; }
        if self.cur_model != m.id { self.cur_model = m.id; self.gen += 1; }
        if self.ev_gen.len() < self.nodes.len() { let n = self.nodes.len(); self.ev_gen.resize(n, 0); self.ev_val.resize(n, 0); }
        if self.ev_gen[e as usize] == self.gen { return self.ev_val[e as usize]; }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.ev_gen[x as usize] == self.gen { stack.pop(); continue; }
            macro_rules! need { ($($c:expr),*) => {{ let mut ok = true; $( if self.ev_gen[$c as usize] != self.gen { stack.push($c); ok = false; } )* if !ok { continue; } }} }
            let g = |s: &Self, c: Ex| s.ev_val[c as usize];
            let v = match self.n(x) {
                Node::Const(_, v) => v,
                Node::Var(w, i) => (m.vals.get(i as usize).copied().unwrap_or(0) as u128) & mask(w),
                Node::Bin(op, w, a, b) => { need!(a, b); fold_bin(op, w, g(self, a), g(self, b)) }
                Node::Cmp(op, a, b) => { need!(a, b); fold_cmp(op, self.width(a), g(self, a), g(self, b)) as u128 }
                Node::Not(a) => { need!(a); (g(self, a) ^ 1) & 1 }
                Node::Ite(_, c, a, b) => { need!(c); if g(self, c) != 0 { need!(a); g(self, a) } else { need!(b); g(self, b) } }
                Node::ZExt(_, a) => { need!(a); g(self, a) }
                Node::SExt(w, a) => { need!(a); (sext(g(self, a), self.width(a)) as u128) & mask(w) }
                Node::Extract(lo, w, a) => { need!(a); (g(self, a) >> lo) & mask(w) }
                Node::Concat(_, h, l) => { need!(h, l); let wl = self.width(l); (g(self, h) << wl) | g(self, l) }
            };
            self.ev_gen[x as usize] = self.gen;
            self.ev_val[x as usize] = v;
            stack.pop();
        }
        self.ev_val[e as usize]
    }
}
