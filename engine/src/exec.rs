//! Symbolic executor over the flat register code.
use crate::expr::*;
use crate::fs::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Nop, NopZero, Memcpy, Memset, Memcmp, Bcmp, Strlen, Malloc, Calloc, Realloc, PosixMemalign, Free,
    AddO, SubO, MulO, SAddO, SSubO, SMulO, UAddSat, USubSat, SAddSat, SSubSat, UMin, UMax, SMin, SMax, Abs, Bswap, BitRev, Ctlz, Cttz, Ctpop, Fshl, Fshr, SCmp, UCmp, TlAddr, IsConst, VReduce, Expect,
    Trap, Abort, Exit,
    Open, Read, Write, Writev, Lseek, Close, Ftruncate, Fsync, Fstat, Stat, Statx, Mkdir, Realpath, Readlink, Getcwd, Fcntl, Dup, Unlink, Access, Pread, Pwrite, Flock,
    Poll, Sysconf, Getenv, Syscall, Errno, Getrandom, KeyCreate, KeyGet, ClockGettime, Munmap, Mmap, Ret1,
    Raise, ExcDelete,
    SymU64, SymRange, SymBytes, SymChoice, SymAssume, SymAssert, SymTrace, SymCover, SymFault, SymFired, SymCrash, SymSnap, SymSame, SymSyncs, SymIsSymbolic, SymNote, SymConc,
    Unknown,
}
fn classify(n: &str) -> X {
    let p = |s: &str| n.starts_with(s);
    match n {
        "memcpy" | "memmove" => X::Memcpy, "memset" => X::Memset, "memcmp" => X::Memcmp, "bcmp" => X::Bcmp, "strlen" => X::Strlen,
        "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc, "posix_memalign" => X::PosixMemalign, "free" => X::Free,
        "abort" => X::Abort, "exit" | "_exit" => X::Exit,
        "open64" | "open" => X::Open, "read" => X::Read, "write" => X::Write, "writev" => X::Writev, "lseek64" | "lseek" => X::Lseek, "close" => X::Close, "ftruncate64" | "ftruncate" => X::Ftruncate,
        "fsync" | "fdatasync" => X::Fsync, "fstat64" | "fstat" => X::Fstat, "stat64" | "stat" | "lstat64" | "lstat" => X::Stat, "statx" => X::Statx, "mkdir" => X::Mkdir, "realpath" => X::Realpath, "readlink" => X::Readlink, "getcwd" => X::Getcwd,
        "fcntl" | "fcntl64" => X::Fcntl, "dup" => X::Dup, "unlink" => X::Unlink, "access" => X::Access, "pread64" | "pread" => X::Pread, "pwrite64" | "pwrite" => X::Pwrite, "flock" => X::Flock,
        "poll" => X::Poll, "sysconf" => X::Sysconf, "getenv" => X::Getenv, "syscall" => X::Syscall, "__errno_location" => X::Errno, "getrandom" => X::Getrandom,
        "pthread_key_create" => X::KeyCreate, "pthread_getspecific" => X::KeyGet, "clock_gettime" => X::ClockGettime, "mmap64" | "mmap" => X::Mmap, "munmap" => X::Munmap,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "sigaction" | "signal" | "sigaltstack" | "pthread_attr_destroy" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "mprotect" | "sched_yield" | "posix_fadvise64" | "fchmod" => X::NopZero,
        "pthread_self" | "gettid" | "getpid" => X::Ret1,
        "_Unwind_RaiseException" => X::Raise, "_Unwind_DeleteException" => X::ExcDelete,
        "sym_u64" => X::SymU64, "sym_range" => X::SymRange, "sym_bytes" => X::SymBytes, "sym_choice" => X::SymChoice, "sym_assume" => X::SymAssume, "sym_assert" => X::SymAssert, "sym_trace" => X::SymTrace, "sym_cover" => X::SymCover,
        "sym_fault" => X::SymFault, "sym_fired" => X::SymFired, "sym_crash" => X::SymCrash, "sym_snap" => X::SymSnap, "sym_same" => X::SymSame, "sym_syncs" => X::SymSyncs, "sym_is_symbolic" => X::SymIsSymbolic, "sym_note" => X::SymNote, "sym_conc" => X::SymConc,
        _ if p("llvm.memcpy") || p("llvm.memmove") => X::Memcpy,
        _ if p("llvm.memset") => X::Memset,
        _ if p("llvm.uadd.with") => X::AddO, _ if p("llvm.usub.with") => X::SubO, _ if p("llvm.umul.with") => X::MulO,
        _ if p("llvm.sadd.with") => X::SAddO, _ if p("llvm.ssub.with") => X::SSubO, _ if p("llvm.smul.with") => X::SMulO,
        _ if p("llvm.uadd.sat") => X::UAddSat, _ if p("llvm.usub.sat") => X::USubSat, _ if p("llvm.sadd.sat") => X::SAddSat, _ if p("llvm.ssub.sat") => X::SSubSat,
        _ if p("llvm.umin") => X::UMin, _ if p("llvm.umax") => X::UMax, _ if p("llvm.smin") => X::SMin, _ if p("llvm.smax") => X::SMax,
        _ if p("llvm.abs") => X::Abs, _ if p("llvm.bswap") => X::Bswap, _ if p("llvm.bitreverse") => X::BitRev, _ if p("llvm.ctlz") => X::Ctlz, _ if p("llvm.cttz") => X::Cttz, _ if p("llvm.ctpop") => X::Ctpop,
        _ if p("llvm.fshl") => X::Fshl, _ if p("llvm.fshr") => X::Fshr, _ if p("llvm.scmp") => X::SCmp, _ if p("llvm.ucmp") => X::UCmp, _ if p("llvm.threadlocal") => X::TlAddr, _ if p("llvm.is.constant") => X::IsConst,
        _ if p("llvm.vector.reduce") => X::VReduce, _ if p("llvm.expect") => X::Expect, _ if p("llvm.trap") || p("llvm.ubsantrap") => X::Trap,
        _ if p("llvm.lifetime") || p("llvm.assume") || p("llvm.dbg") || p("llvm.experimental.noalias") || p("llvm.donothing") || p("llvm.x86.sse2.pause") || p("llvm.va_") || p("llvm.invariant") || p("llvm.prefetch") => X::Nop,
        _ => X::Unknown,
    }
}

pub struct Frame { pub f: &'static Func, pub pc: u32, pub regs: Vec<Val>, pub base: u64 }
impl Clone for Frame { fn clone(&self) -> Self { Frame { f: self.f, pc: self.pc, regs: self.regs.clone(), base: self.base } } }

#[derive(Clone)]
pub enum Inp { U(Ex), B(Vec<Ex>), C(u64) }

pub struct State {
    pub frames: Vec<Frame>, pub mem: Mem, pub fs: Fs, pub pc: Vec<Ex>, pub known: FxMap<Ex, bool>, pub conc: FxMap<Ex, u64>,
    pub model: Rc<Model>, pub nvars: u32, pub inputs: Vec<Inp>, pub trace: Vec<Val>, pub steps: u64, pub forced: Option<u64>, pub errno: u64, pub snaps: Vec<Rc<Data>>, pub covers: Vec<u64>, pub notes: Vec<String>, pub nforks: u32,
}
impl Clone for State {
    fn clone(&self) -> Self {
        State { frames: self.frames.clone(), mem: self.mem.clone(), fs: self.fs.clone(), pc: self.pc.clone(), known: self.known.clone(), conc: self.conc.clone(), model: self.model.clone(), nvars: self.nvars, inputs: self.inputs.clone(),
            trace: self.trace.clone(), steps: self.steps, forced: self.forced, errno: self.errno, snaps: self.snaps.clone(), covers: self.covers.clone(), notes: self.notes.clone(), nforks: self.nforks }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Stop { Done, Infeasible, Violation(u64, String), Internal(String), Limit }
type R<T> = Result<T, Stop>;
impl From<MemErr> for Stop { fn from(e: MemErr) -> Stop { Stop::Violation(9001, format!("memory error: {}", e.0)) } }

#[derive(Clone, Debug)]
pub struct PathRec { pub kind: String, pub code: u64, pub msg: String, pub stack: Vec<String>, pub inputs: Vec<(u8, Vec<u64>)>, pub trace: Vec<u64>, pub fs: Vec<(String, u64, u64)>, pub notes: Vec<String> }

#[derive(Default)]
pub struct Out { pub paths: u64, pub infeasible: u64, pub insts: u64, pub forks: u64, pub asserts: u64, pub asserts_sym: u64, pub max_steps: u64, pub covers: BTreeMap<u64, u64>, pub samples: Vec<PathRec>, pub violations: Vec<PathRec>, pub internal: Vec<String>, pub unfinished: u64 }

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub so: Solver,
    pub work: VecDeque<State>,
    pub out: Out,
    ext: Vec<X>,
    pub step_limit: u64,
    pub max_viol: usize,
    pub sample_every: u64,
    pub max_samples: usize,
    pub forked: bool,
    pub bfs: bool,
    vtmp: Vec<Val>,
    pub seed: u64,
}

const ERRNO_ID: u64 = 0; // object 0 is never used by code; errno lives in a dedicated heap object

fn is_i(v: &Val) -> Option<u64> { if let Val::I(x) = v { Some(*x) } else { None } }

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Self {
        let ext = m.decl_names.iter().map(|n| classify(n)).collect();
        Exec { m, ar: Arena::new(), so: Solver::new(), work: VecDeque::new(), out: Out::default(), ext, step_limit: 200_000_000, max_viol: 3, sample_every: 1, max_samples: 6, forked: false, bfs: false, vtmp: vec![], seed: 1 }
    }
    pub fn initial(&mut self, entry: &str, args: &[u64]) -> State {
        let mut mem = Mem::new((STACK_IDS + self.m.globals.len() as u64 + 16) as u32);
        for i in 0..self.m.globals.len() { if !self.m.globals[i].weak { let d = self.m.global_init(i); mem.place(STACK_IDS + i as u64, d); } }
        let errno = mem.alloc(8);
        let fi = *self.m.fidx.get(entry).unwrap_or_else(|| { eprintln!("symx: entry function {} not found in the IR", entry); std::process::exit(72) });
        let model = self.so.new_model(vec![]);
        let mut st = State { frames: vec![], mem, fs: Fs::new(), pc: vec![], known: Default::default(), conc: Default::default(), model, nvars: 0, inputs: vec![], trace: vec![], steps: 0, forced: None, errno, snaps: vec![], covers: vec![], notes: vec![], nforks: 0 };
        let f = self.m.func(fi);
        self.push_frame(&mut st, f, args.iter().map(|x| Val::I(*x)).collect()).unwrap();
        let _ = ERRNO_ID;
        st
    }
    fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<Val>) -> R<()> {
        let depth = st.frames.len() as u64 + 1;
        if depth >= 3000 { return Err(Stop::Violation(9002, "call stack overflow".into())); }
        f.entered.set(f.entered.get() + 1);
        let base = depth << 32;
        if f.frame > 0 { st.mem.place_zero(depth, f.frame as usize); }
        let mut regs = args;
        regs.truncate(f.nparams);
        regs.resize(f.nregs.max(f.nparams), Val::I(0));
        st.frames.push(Frame { f, pc: 0, regs, base });
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State) { let fr = st.frames.pop().unwrap(); if fr.f.frame > 0 { st.mem.remove(fr.base >> 32); } }

    // ---- value helpers
    pub fn ex(&mut self, v: &Val, w: u16) -> Ex {
        match v { Val::I(x) => self.ar.cst(w, *x as u128), Val::Big(x) => self.ar.cst(w, **x), Val::E(e) => { debug_assert_eq!(self.ar.width(*e), w); *e } Val::Agg(_) => panic!("aggregate as scalar") }
    }
    pub fn val(&mut self, e: Ex) -> Val {
        match self.ar.n(e) { Node::Const(w, v) => if w <= 64 { Val::I(v as u64) } else { Val::Big(Rc::new(v)) }, _ => Val::E(e) }
    }
    fn fork(&mut self, st: &State) -> State { self.out.forks += 1; self.forked = true; st.clone() }
    fn merge_model(&mut self, old: &Rc<Model>, new: &[(u32, u64)]) -> Rc<Model> {
        let mut vals = old.vals.clone();
        for &(i, v) in new { if vals.len() <= i as usize { vals.resize(i as usize + 1, 0); } vals[i as usize] = v; }
        self.so.new_model(vals)
    }
    fn learn(&mut self, st: &mut State, c: Ex, v: bool) {
        let e = if v { c } else { self.ar.not(c) };
        if self.ar.as_const(e).is_some() { return; }
        // conjunctions are split so that slicing stays effective
        if let Node::Bin(Bop::And, 1, a, b) = self.ar.n(e) { self.learn(st, a, true); self.learn(st, b, true); st.known.insert(e, true); return; }
        st.pc.push(e);
        st.known.insert(c, v);
        if let Node::Not(i) = self.ar.n(c) { st.known.insert(i, !v); }
    }
    fn lookup(&mut self, st: &State, c: Ex) -> Option<bool> {
        if let Some(v) = self.ar.as_const(c) { return Some(v != 0); }
        if let Some(v) = st.known.get(&c) { return Some(*v); }
        if let Node::Not(i) = self.ar.n(c) { if let Some(v) = st.known.get(&i) { return Some(!*v); } }
        None
    }
    /// decide a condition; the other feasible side becomes a new state that re-executes this instruction
    fn branch(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(v) = self.lookup(st, c) { return Ok(v); }
        let side = self.ar.eval(c, &st.model) == 1;
        let other = if side { self.ar.not(c) } else { c };
        match self.so.check(&mut self.ar, &st.pc, other) {
            Res::Unsat => { st.known.insert(c, side); }
            Res::Sat(m) => {
                let mut alt = self.fork(st);
                alt.model = self.merge_model(&st.model, &m);
                self.learn(&mut alt, c, !side);
                alt.nforks += 1;
                self.work.push_back(alt);
                self.learn(st, c, side);
                st.nforks += 1;
            }
            Res::Unknown => return Err(Stop::Internal("solver gave up on a branch condition".into())),
        }
        Ok(side)
    }
    /// fix a value; other feasible values become new states
    fn conc(&mut self, st: &mut State, v: &Val, w: u16) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::Big(x) => Ok(**x as u64),
            Val::E(e) => {
                let e = *e;
                if let Some(x) = st.conc.get(&e) { return Ok(*x); }
                let x = self.ar.eval(e, &st.model);
                let k = self.ar.cst(w, x);
                let c = self.ar.eq(e, k);
                // branch() takes the side of the model, i.e. equality
                let r = self.branch(st, c)?;
                debug_assert!(r);
                st.conc.insert(e, x as u64);
                Ok(x as u64)
            }
            Val::Agg(_) => Err(Stop::Internal("concretise aggregate".into())),
        }
    }
    #[inline]
    fn get(&self, st: &State, o: &Op) -> Val { match o { Op::R(r) => st.frames[st.frames.len() - 1].regs[*r as usize].clone(), Op::C(v) => v.clone() } }
    #[inline]
    fn geti(&self, st: &State, o: &Op) -> Option<u64> { match o { Op::R(r) => is_i(&st.frames[st.frames.len() - 1].regs[*r as usize]), Op::C(v) => is_i(v) } }
    fn getc(&mut self, st: &mut State, o: &Op) -> R<u64> { match self.geti(st, o) { Some(x) => Ok(x), None => { let v = self.get(st, o); let w = match &v { Val::E(e) => self.ar.width(*e), _ => 64 }; self.conc(st, &v, w) } } }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) { let k = st.frames.len() - 1; st.frames[k].regs[d as usize] = v; }

    // ---- memory helpers
    fn load_scalar(&mut self, st: &State, addr: u64, n: usize, w: u16) -> R<Val> {
        let (o, off) = st.mem.at(addr, n)?;
        if o.sym.is_none() || !o.has_sym(off, n) {
            if n <= 8 { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]); let x = u64::from_le_bytes(b); return Ok(Val::I(if w < 64 { x & ((1u64 << w) - 1) } else { x })); }
            let mut b = [0u8; 16]; b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::Big(Rc::new(u128::from_le_bytes(b) & mask(w))));
        }
        let m = o.sym.as_ref().unwrap();
        let mut parts: Vec<Ex> = vec![];
        for i in 0..n { parts.push(match m.get(&((off + i) as u32)) { Some(e) => *e, None => { let b = o.data[off + i]; self.ar.cst(8, b as u128) } }); }
        let mut e = parts[0];
        for p in &parts[1..] { e = self.ar.concat(*p, e); }
        if w < n as u16 * 8 { e = self.ar.extract(0, w, e); }
        Ok(self.val(e))
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => self.load_scalar(st, addr, ty.store_size() as usize, *w),
            Ty::Ptr => self.load_scalar(st, addr, 8, 64),
            Ty::Float(w) => self.load_scalar(st, addr, *w as usize / 8, *w),
            Ty::Vect(n, t) if t.bits() % 8 != 0 => { let bits = *n as u16 * t.bits(); let v = self.load_scalar(st, addr, ty.store_size() as usize, bits)?; self.split(&v, bits, t.bits(), *n as usize) }
            _ => { let mut v = vec![]; for i in 0..ty.nfields() { v.push(self.load_ty(st, addr + ty.field_off(i), ty.field(i))?); } Ok(Val::Agg(Rc::new(v))) }
        }
    }
    fn split(&mut self, v: &Val, bits: u16, ew: u16, n: usize) -> R<Val> {
        let e = self.ex(v, bits);
        let mut o = vec![];
        for i in 0..n { let x = self.ar.extract(i as u16 * ew, ew, e); o.push(self.val(x)); }
        Ok(Val::Agg(Rc::new(o)))
    }
    fn join(&mut self, v: &Val, ew: u16) -> Val {
        if let Val::Agg(a) = v { let a = a.clone(); let mut e = self.ex(&a[0], ew); for x in &a[1..] { let y = self.ex(x, ew); e = self.ar.concat(y, e); } self.val(e) } else { v.clone() }
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, n: usize, w: u16, v: &Val) -> R<()> {
        match v {
            Val::I(x) if n <= 8 => st.mem.write_u64(addr, n, *x)?,
            Val::I(x) => { let b = (*x as u128).to_le_bytes(); st.mem.write_bytes(addr, &b[..n])? }
            Val::Big(x) => { let b = x.to_le_bytes(); st.mem.write_bytes(addr, &b[..n])? }
            Val::E(e) => {
                let mut e = *e;
                if w < n as u16 * 8 { e = self.ar.zext(n as u16 * 8, e); }
                let mut sy = vec![]; let mut bs = vec![0u8; n];
                for i in 0..n { let b = self.ar.extract(i as u16 * 8, 8, e); match self.ar.as_const(b) { Some(c) => bs[i] = c as u8, None => sy.push((i as u32, b)) } }
                st.mem.write_bytes_sym(addr, &bs, &sy)?
            }
            Val::Agg(_) => return Err(Stop::Internal("store aggregate as scalar".into())),
        }
        Ok(())
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.store_scalar(st, addr, ty.store_size() as usize, ty.bits(), v),
            Ty::Vect(n, t) if t.bits() % 8 != 0 => { let j = self.join(v, t.bits()); self.store_scalar(st, addr, ty.store_size() as usize, *n as u16 * t.bits(), &j) }
            _ => { if let Val::Agg(a) = v { let a = a.clone(); for i in 0..ty.nfields() { self.store_ty(st, addr + ty.field_off(i), ty.field(i), &a[i])?; } Ok(()) } else { Err(Stop::Internal("store scalar as aggregate".into())) } }
        }
    }
    fn bytes_ex(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<Ex>> {
        let (d, s) = st.mem.read_bytes_sym(addr, n)?;
        let mut v: Vec<Ex> = Vec::with_capacity(n);
        for b in d { v.push(self.ar.cst(8, b as u128)); }
        for (k, e) in s { v[k as usize] = e; }
        Ok(v)
    }

    // ---- operators
    fn bin(&mut self, op: Bop, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) { if w <= 64 { return Ok(Val::I(Self::fast(op, w, *x, *y)?)); } }
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let mut o = vec![];
            for i in 0..x.len() { o.push(self.bin(op, w, &x[i], &y[i])?); }
            return Ok(Val::Agg(Rc::new(o)));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.bin(op, x, y);
        Ok(self.val(e))
    }
    #[inline]
    fn fast(op: Bop, w: u16, x: u64, y: u64) -> R<u64> {
        let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
        let sx = |v: u64| -> i64 { let s = 64 - w as u32; ((v << s) as i64) >> s };
        Ok((match op {
            Bop::Add => x.wrapping_add(y), Bop::Sub => x.wrapping_sub(y), Bop::Mul => x.wrapping_mul(y),
            Bop::And => x & y, Bop::Or => x | y, Bop::Xor => x ^ y,
            Bop::Shl => if y >= w as u64 { 0 } else { x << y },
            Bop::LShr => if y >= w as u64 { 0 } else { x >> y },
            Bop::AShr => (sx(x) >> y.min(w as u64 - 1)) as u64,
            Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem if y == 0 => return Err(Stop::Violation(9003, "division by zero".into())),
            Bop::UDiv => x / y, Bop::URem => x % y,
            Bop::SDiv => sx(x).wrapping_div(sx(y)) as u64, Bop::SRem => sx(x).wrapping_rem(sx(y)) as u64,
        }) & m)
    }
    fn cmpv(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let sx = |v: u64| -> i64 { let s = 64 - w as u32; ((v << s) as i64) >> s };
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sx(*x) < sx(*y), Pred::Sle => sx(*x) <= sx(*y), Pred::Sgt => sx(*x) > sx(*y), Pred::Sge => sx(*x) >= sx(*y) };
            return Ok(Val::I(r as u64));
        }
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) { let mut o = vec![]; for i in 0..x.len() { o.push(self.cmpv(p, w, &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(o))); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let e = match p {
            Pred::Eq => ar.eq(x, y), Pred::Ne => ar.ne(x, y),
            Pred::Ult => ar.ult(x, y), Pred::Ugt => ar.ult(y, x),
            Pred::Ule => { let t = ar.ult(y, x); ar.not(t) } Pred::Uge => { let t = ar.ult(x, y); ar.not(t) }
            Pred::Slt => ar.cmp(Cop::Slt, x, y), Pred::Sgt => ar.cmp(Cop::Slt, y, x),
            Pred::Sle => { let t = ar.cmp(Cop::Slt, y, x); ar.not(t) } Pred::Sge => { let t = ar.cmp(Cop::Slt, x, y); ar.not(t) }
        };
        Ok(self.val(e))
    }
    fn cast(&mut self, st: &mut State, k: CastK, from: &Ty, to: &Ty, v: Val) -> R<Val> {
        if let (Ty::Vect(n, ft), Val::Agg(a)) = (from, &v) {
            if k == CastK::Bit {
                let bits = *n as u16 * ft.bits();
                let j = self.join(&v, ft.bits());
                return if let Ty::Vect(n2, t2) = to { self.split(&j, bits, t2.bits(), *n2 as usize) } else { Ok(j) };
            }
            let mut o = vec![];
            for x in a.iter() { o.push(self.cast(st, k, ft, to.field(0), x.clone())?); }
            return Ok(Val::Agg(Rc::new(o)));
        }
        if let (CastK::Bit, Ty::Vect(n2, t2)) = (k, to) { return self.split(&v, from.bits(), t2.bits(), *n2 as usize); }
        let (fw, tw) = (from.bits(), to.bits());
        match k {
            CastK::None | CastK::Bit => Ok(v),
            CastK::Trunc => match v { Val::I(x) => Ok(Val::I(if tw < 64 { x & ((1u64 << tw) - 1) } else { x })), v => { let e = self.ex(&v, fw); let e = self.ar.extract(0, tw, e); Ok(self.val(e)) } },
            CastK::ZExt => match v { Val::I(x) if tw <= 64 => Ok(Val::I(x)), v => { let e = self.ex(&v, fw); let e = self.ar.zext(tw, e); Ok(self.val(e)) } },
            CastK::SExt => match v { Val::I(x) if tw <= 64 => { let s = 64 - fw as u32; let y = (((x << s) as i64) >> s) as u64; Ok(Val::I(if tw < 64 { y & ((1u64 << tw) - 1) } else { y })) } v => { let e = self.ex(&v, fw); let e = self.ar.sext(tw, e); Ok(self.val(e)) } },
            _ => {
                let x = self.conc(st, &v, fw)?;
                let f = |b: u64, w: u16| if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
                let g = |d: f64, w: u16| if w == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
                let s = 64 - fw.min(64) as u32;
                Ok(Val::I(match k {
                    CastK::UiToFp => g(x as f64, tw), CastK::SiToFp => g((((x << s) as i64) >> s) as f64, tw),
                    CastK::FpToUi => f(x, fw) as u64 & mask(tw) as u64, CastK::FpToSi => (f(x, fw) as i64) as u64 & mask(tw) as u64,
                    CastK::FpExt | CastK::FpTrunc => g(f(x, fw), tw), _ => unreachable!(),
                }))
            }
        }
    }
    fn jump(&mut self, st: &mut State, e: u32) {
        let k = st.frames.len() - 1;
        let f = st.frames[k].f;
        let ed = &f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => { let v = self.get(st, &ed.moves[0].1); st.frames[k].regs[ed.moves[0].0 as usize] = v; }
            _ => {
                let mut t = std::mem::take(&mut self.vtmp);
                t.clear();
                for (_, o) in &ed.moves { t.push(self.get(st, o)); }
                for ((d, _), v) in ed.moves.iter().zip(t.drain(..)) { st.frames[k].regs[*d as usize] = v; }
                self.vtmp = t;
            }
        }
        st.frames[k].pc = ed.to;
    }
    fn finish_call(&mut self, st: &mut State, c: &CallI, v: Option<Val>) {
        if let Some(v) = v { if c.ret != Ty::Void { self.set(st, c.dst, v); } }
        match c.invoke { Some((n, _)) => self.jump(st, n), None => { let k = st.frames.len() - 1; st.frames[k].pc += 1; } }
    }

    /// run a state until it ends, or (breadth-first mode) until it forks
    pub fn run(&mut self, st: &mut State) -> Option<Stop> {
        self.forked = false;
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return Some(s),
            }
            if self.bfs && self.forked { return None; }
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        // a straight run of instructions without leaving this function when possible
        let k = st.frames.len() - 1;
        let (f, pc) = { let fr = &st.frames[k]; (fr.f, fr.pc as usize) };
        st.steps += 1;
        if st.steps > self.step_limit { return Err(Stop::Limit); }
        f.hit[pc].set(true);
        match &f.code[pc] {
            Inst::Bin { op, w, dst, a, b } => {
                let v = match (self.geti(st, a), self.geti(st, b)) {
                    (Some(x), Some(y)) if *w <= 64 => Val::I(Self::fast(*op, *w, x, y)?),
                    _ => {
                        let (x, y) = (self.get(st, a), self.get(st, b));
                        if matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) { if let Val::E(e) = y { let z = self.ar.cst(*w, 0); let c = self.ar.eq(e, z); if self.branch(st, c)? { return Err(Stop::Violation(9003, "division by zero".into())); } } }
                        self.bin(*op, *w, &x, &y)?
                    }
                };
                self.set(st, *dst, v);
            }
            Inst::ICmp { p, w, dst, a, b } => { let (x, y) = (self.get(st, a), self.get(st, b)); let v = self.cmpv(*p, *w, &x, &y)?; self.set(st, *dst, v); }
            Inst::Load { dst, ty, w, n, ptr } => {
                let p = self.getc(st, ptr)?;
                let v = if *n > 0 { self.load_scalar(st, p, *n as usize, *w)? } else { self.load_ty(st, p, ty)? };
                self.set(st, *dst, v);
            }
            Inst::Store { ty, n, val, ptr } => {
                let p = self.getc(st, ptr)?;
                let v = self.get(st, val);
                if *n > 0 { self.store_scalar(st, p, *n as usize, ty.bits(), &v)?; } else { self.store_ty(st, p, ty, &v)?; }
            }
            Inst::Gep { dst, base, off, terms } => {
                let b = self.get(st, base);
                if terms.is_empty() {
                    if let Val::I(x) = b { self.set(st, *dst, Val::I(x.wrapping_add(*off as u64))); }
                    else { let e = self.ex(&b, 64); let o = self.ar.cst(64, *off as u64 as u128); let r = self.ar.bin(Bop::Add, e, o); let v = self.val(r); self.set(st, *dst, v); }
                } else {
                    let mut acc = *off as u64;
                    let mut sy: Option<Ex> = None;
                    if let Val::I(x) = b { acc = acc.wrapping_add(x); } else { sy = Some(self.ex(&b, 64)); }
                    for (o, w, scale) in terms {
                        match self.get(st, o) {
                            Val::I(x) => { let s = 64 - *w as u32; let x = (((x << s) as i64) >> s).wrapping_mul(*scale); acc = acc.wrapping_add(x as u64); }
                            v => { let e = self.ex(&v, *w); let e = if *w < 64 { self.ar.sext(64, e) } else { e }; let sc = self.ar.cst(64, *scale as u64 as u128); let t = self.ar.bin(Bop::Mul, e, sc); sy = Some(match sy { None => t, Some(s) => self.ar.bin(Bop::Add, s, t) }); }
                        }
                    }
                    let v = match sy { None => Val::I(acc), Some(s) => { let k = self.ar.cst(64, acc as u128); let r = self.ar.bin(Bop::Add, s, k); self.val(r) } };
                    self.set(st, *dst, v);
                }
            }
            Inst::Alloca { dst, off } => { let b = st.frames[k].base; self.set(st, *dst, Val::I(b + off)); }
            Inst::Cast { k: ck, from, to, dst, a } => { let x = self.get(st, a); let v = self.cast(st, *ck, from, to, x)?; self.set(st, *dst, v); }
            Inst::Br(e) => { self.jump(st, *e); return Ok(()); }
            Inst::CondBr(c, a, b) => {
                let t = match self.get(st, c) { Val::I(x) => x & 1 == 1, Val::E(e) => self.branch(st, e)?, _ => return Err(Stop::Internal("branch on aggregate".into())) };
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            Inst::Switch { v, w, cases, def } => {
                match self.get(st, v) {
                    Val::I(x) => { let e = cases.iter().find(|c| c.0 == x).map_or(*def, |c| c.1); self.jump(st, e); }
                    Val::E(e) => {
                        let mut to = *def;
                        if let Some(x) = st.conc.get(&e) { let x = *x; to = cases.iter().find(|c| c.0 == x).map_or(*def, |c| c.1); }
                        else { for (kk, ed) in cases { let c = self.ar.cst(*w, *kk as u128); let q = self.ar.eq(e, c); if self.branch(st, q)? { to = *ed; break; } } }
                        self.jump(st, to);
                    }
                    _ => return Err(Stop::Internal("switch operand".into())),
                }
                return Ok(());
            }
            Inst::Select { dst, ty, c, a, b, vec } => {
                let cv = self.get(st, c);
                let v = if *vec {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    if let (Val::Agg(c), Val::Agg(x), Val::Agg(y)) = (&cv, &x, &y) {
                        let w = ty.bits();
                        let mut o = vec![];
                        for i in 0..c.len() { o.push(match &c[i] { Val::I(1) => x[i].clone(), Val::I(_) => y[i].clone(), Val::E(e) => { let e = *e; let (p, q) = (self.ex(&x[i], w), self.ex(&y[i], w)); let r = self.ar.ite(e, p, q); self.val(r) } _ => return Err(Stop::Internal("select".into())) }); }
                        Val::Agg(Rc::new(o))
                    } else { return Err(Stop::Internal("vector select".into())) }
                } else {
                    match cv {
                        Val::I(x) => if x & 1 == 1 { self.get(st, a) } else { self.get(st, b) },
                        Val::E(e) => match (self.lookup(st, e), ty) {
                            (Some(t), _) => if t { self.get(st, a) } else { self.get(st, b) },
                            (None, Ty::Int(w)) => { let (x, y) = (self.get(st, a), self.get(st, b)); let (p, q) = (self.ex(&x, *w), self.ex(&y, *w)); let r = self.ar.ite(e, p, q); self.val(r) }
                            _ => if self.branch(st, e)? { self.get(st, a) } else { self.get(st, b) },
                        },
                        _ => return Err(Stop::Internal("select".into())),
                    }
                };
                self.set(st, *dst, v);
            }
            Inst::ExtractV { dst, a, idx } => {
                let mut v = self.get(st, a);
                for i in idx { v = match &v { Val::Agg(x) => x[*i].clone(), _ => return Err(Stop::Internal("extractvalue".into())) }; }
                self.set(st, *dst, v);
            }
            Inst::InsertV { dst, a, v, idx } => {
                fn ins(t: &Val, idx: &[usize], v: Val) -> Val { if idx.is_empty() { return v; } if let Val::Agg(x) = t { let mut x = (**x).clone(); x[idx[0]] = ins(&x[idx[0]], &idx[1..], v); Val::Agg(Rc::new(x)) } else { panic!("insertvalue") } }
                let (x, y) = (self.get(st, a), self.get(st, v));
                let r = ins(&x, idx, y);
                self.set(st, *dst, r);
            }
            Inst::ExtractE { dst, a, i } => { let i = self.getc(st, i)? as usize; let v = match self.get(st, a) { Val::Agg(x) => x[i].clone(), _ => return Err(Stop::Internal("extractelement".into())) }; self.set(st, *dst, v); }
            Inst::InsertE { dst, a, v, i } => { let i = self.getc(st, i)? as usize; let y = self.get(st, v); let r = match self.get(st, a) { Val::Agg(x) => { let mut x = (*x).clone(); x[i] = y; Val::Agg(Rc::new(x)) } _ => return Err(Stop::Internal("insertelement".into())) }; self.set(st, *dst, r); }
            Inst::Shuffle { dst, a, b, mask, n } => {
                let r = match (self.get(st, a), self.get(st, b)) { (Val::Agg(x), Val::Agg(y)) => Val::Agg(Rc::new(mask.iter().map(|m| if (*m as usize) < *n { x[*m as usize].clone() } else { y.get(*m as usize - n).cloned().unwrap_or(Val::I(0)) }).collect())), _ => return Err(Stop::Internal("shuffle".into())) };
                self.set(st, *dst, r);
            }
            Inst::FBin { op, w, dst, a, b } => {
                let (x, y) = (self.getc(st, a)?, self.getc(st, b)?);
                let f = |b: u64| if *w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
                let r = match op { b'a' => f(x) + f(y), b's' => f(x) - f(y), b'm' => f(x) * f(y), b'd' => f(x) / f(y), _ => f(x) % f(y) };
                self.set(st, *dst, Val::I(if *w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() }));
            }
            Inst::FCmp { pred, w, dst, a, b } => {
                let (x, y) = (self.getc(st, a)?, self.getc(st, b)?);
                let f = |b: u64| if *w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
                let (x, y) = (f(x), f(y));
                let un = x.is_nan() || y.is_nan();
                let r = match &pred[1..] { "eq" => x == y, "ne" => x != y && !un, "lt" => x < y, "le" => x <= y, "gt" => x > y, "ge" => x >= y, "rd" => !un, "no" => un, _ => false };
                let r = if pred.starts_with('u') && un { true } else { r };
                self.set(st, *dst, Val::I(r as u64));
            }
            Inst::Copy { dst, a } => { let v = self.get(st, a); self.set(st, *dst, v); }
            Inst::Nop => {}
            Inst::Rmw { dst, op, w, ptr, v } => {
                let p = self.getc(st, ptr)?;
                let n = (*w as usize + 7) / 8;
                let old = self.load_scalar(st, p, n, *w)?;
                let y = self.get(st, v);
                let new = match *op {
                    "xchg" => y,
                    "add" => self.bin(Bop::Add, *w, &old, &y)?, "sub" => self.bin(Bop::Sub, *w, &old, &y)?, "and" => self.bin(Bop::And, *w, &old, &y)?, "or" => self.bin(Bop::Or, *w, &old, &y)?, "xor" => self.bin(Bop::Xor, *w, &old, &y)?,
                    "umax" | "umin" => { let (a, b) = (self.conc(st, &old, *w)?, self.conc(st, &y, *w)?); Val::I(if *op == "umax" { a.max(b) } else { a.min(b) }) }
                    o => return Err(Stop::Internal(format!("atomicrmw {}", o))),
                };
                self.store_scalar(st, p, n, *w, &new)?;
                self.set(st, *dst, old);
            }
            Inst::CmpX { dst, w, ptr, cmp, new } => {
                let p = self.getc(st, ptr)?;
                let n = (*w as usize + 7) / 8;
                let old = self.load_scalar(st, p, n, *w)?;
                let o = self.conc(st, &old, *w)?;
                let c = self.getc(st, cmp)?;
                let nv = self.get(st, new);
                if o == c { self.store_scalar(st, p, n, *w, &nv)?; }
                self.set(st, *dst, Val::Agg(Rc::new(vec![old, Val::I((o == c) as u64)])));
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                self.pop_frame(st);
                if st.frames.is_empty() { return Err(Stop::Done); }
                let fr = &st.frames[st.frames.len() - 1];
                let c = match &fr.f.code[fr.pc as usize] { Inst::Call(c) => c, _ => return Err(Stop::Internal("return to non-call".into())) };
                self.finish_call(st, c, v);
                return Ok(());
            }
            Inst::Unreachable => return Err(Stop::Violation(9004, "reached unreachable code".into())),
            Inst::LandingPad { .. } => {} // value set by unwind()
            Inst::Resume(v) => { let v = self.get(st, v); return self.unwind(st, v); }
            Inst::Call(c) => return self.call(st, c),
        }
        st.frames[k].pc += 1;
        Ok(())
    }
    /// propagate an exception: pop the current frame, then find a landing pad
    fn unwind(&mut self, st: &mut State, v: Val) -> R<()> {
        loop {
            self.pop_frame(st);
            if st.frames.is_empty() { return Err(Stop::Violation(9005, "panic reached the caller".into())); }
            let fr = &st.frames[st.frames.len() - 1];
            if let Inst::Call(c) = &fr.f.code[fr.pc as usize] {
                if let Some((_, u)) = c.invoke {
                    self.jump(st, u);
                    let fr = &st.frames[st.frames.len() - 1];
                    let f = fr.f;
                    if let Inst::LandingPad { dst } = &f.code[fr.pc as usize] { self.set(st, *dst, v.clone()); }
                    else { return Err(Stop::Internal("unwind target is not a landing pad".into())); }
                    return Ok(());
                }
            }
        }
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut o = vec![];
        for fr in st.frames.iter().rev() {
            let d = fr.f.dbg.get(fr.pc as usize).copied().unwrap_or(0);
            let mut id = Some(d);
            let mut any = false;
            while let Some(i) = id { if i == 0 { break; } if let Some((f, l, n)) = self.m.loc(i) { o.push(format!("{} ({}:{})", n, f, l)); any = true; } id = self.m.inlined_at(i); }
            if !any { o.push(fr.f.name.to_string()); }
        }
        o
    }
    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<()> {
        match &c.callee {
            Callee::Fn(i) => { let f = self.m.func(*i); let args = c.args.iter().map(|o| self.get(st, o)).collect(); self.push_frame(st, f, args) }
            Callee::Ext(name, idx) => {
                let x = self.ext[*idx as usize - self.m.fns.len()];
                let r = self.external(st, c, x, name)?;
                if x != X::Raise { self.finish_call(st, c, r); }
                Ok(())
            }
            Callee::Ind(o) => {
                let a = self.getc(st, o)?;
                if a < FUNC_BASE { return Err(Stop::Violation(9001, format!("call through invalid pointer {:#x}", a))); }
                let i = ((a - FUNC_BASE) / 16) as usize;
                if i < self.m.fns.len() { let f = self.m.func(i); let args = c.args.iter().map(|o| self.get(st, o)).collect(); self.push_frame(st, f, args) }
                else { let name = self.m.decl_names[i - self.m.fns.len()]; let x = self.ext[i - self.m.fns.len()]; let r = self.external(st, c, x, name)?; if x != X::Raise { self.finish_call(st, c, r); } Ok(()) }
            }
        }
    }
    fn set_errno(&mut self, st: &mut State, e: u64) { let a = st.errno; let _ = st.mem.write_u64(a, 4, e); }
    fn fail(&mut self, st: &mut State, e: u64, w: u16) -> R<Option<Val>> { self.set_errno(st, e); Ok(Some(Val::I(mask(w) as u64))) }

    fn external(&mut self, st: &mut State, c: &'static CallI, x: X, name: &str) -> R<Option<Val>> {
        macro_rules! a { ($i:expr) => { self.get(st, &c.args[$i]) } }
        macro_rules! ac { ($i:expr) => { self.getc(st, &c.args[$i])? } }
        let w0 = c.argw.first().copied().unwrap_or(64);
        Ok(Some(match x {
            X::Nop => return Ok(None),
            X::NopZero => Val::I(0),
            X::Ret1 => Val::I(1),
            X::Expect => a!(0),
            X::IsConst => Val::I(0),
            X::TlAddr => a!(0),
            X::Memcpy => { let n = ac!(2); let (d, s) = (ac!(0), ac!(1)); st.mem.copy(d, s, n as usize)?; Val::I(d) }
            X::Memset => {
                let n = ac!(2) as usize; let d = ac!(0);
                if n > 0 {
                    match a!(1) {
                        Val::I(b) => { let (o, off) = st.mem.at_mut(d, n)?; o.data[off..off + n].fill(b as u8); if o.sym.is_some() { o.clear_sym(off, n); } }
                        v => { let w = c.argw[1]; let e = self.ex(&v, w); let e = self.ar.extract(0, 8, e); let sy: Vec<(u32, Ex)> = (0..n as u32).map(|i| (i, e)).collect(); st.mem.write_bytes_sym(d, &vec![0; n], &sy)?; }
                    }
                }
                Val::I(d)
            }
            X::Memcmp | X::Bcmp => {
                let n = ac!(2) as usize; let (p, q) = (ac!(0), ac!(1));
                if n == 0 { Val::I(0) } else {
                    let conc = { let (o, f) = st.mem.at(p, n)?; let (o2, f2) = st.mem.at(q, n)?; if !o.has_sym(f, n) && !o2.has_sym(f2, n) { Some(o.data[f..f + n].cmp(&o2.data[f2..f2 + n])) } else { None } };
                    match conc {
                        Some(o) => Val::I(match o { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 }),
                        None => {
                            let (va, vb) = (self.bytes_ex(st, p, n)?, self.bytes_ex(st, q, n)?);
                            let cat = |ar: &mut Arena, v: &[Ex]| { let mut e = v[0]; for b in &v[1..] { e = ar.concat(e, *b); } e };
                            let z = self.ar.cst(32, 0); let one = self.ar.cst(32, 1); let neg = self.ar.cst(32, 0xffff_ffff);
                            let mut r = z;
                            let mut chunks: Vec<(usize, usize)> = (0..n).step_by(8).map(|i| (i, (i + 8).min(n))).collect();
                            chunks.reverse();
                            for (i, j) in chunks {
                                let (ea, eb) = (cat(&mut self.ar, &va[i..j]), cat(&mut self.ar, &vb[i..j]));
                                let eq = self.ar.eq(ea, eb);
                                if x == X::Bcmp { r = self.ar.ite(eq, r, one); }
                                else { let lt = self.ar.ult(ea, eb); let d = self.ar.ite(lt, neg, one); r = self.ar.ite(eq, r, d); }
                            }
                            self.val(r)
                        }
                    }
                }
            }
            X::Strlen => { let p = ac!(0); Val::I(st.mem.cstr(p)?.len() as u64) }
            X::Malloc => { let n = ac!(0); if n > 1 << 31 { Val::I(0) } else { Val::I(st.mem.alloc(n as usize)) } }
            X::Calloc => { let n = ac!(0).wrapping_mul(ac!(1)); if n > 1 << 31 { Val::I(0) } else { Val::I(st.mem.alloc(n as usize)) } }
            X::PosixMemalign => { let n = ac!(2); let out = ac!(0); let p = st.mem.alloc(n as usize); st.mem.write_u64(out, 8, p)?; Val::I(0) }
            X::Realloc => {
                let p = ac!(0); let n = ac!(1) as usize;
                if n > 1 << 31 { Val::I(0) }
                else if p == 0 { Val::I(st.mem.alloc(n)) }
                else { let o = st.mem.obj_mut(p >> 32).ok_or_else(|| MemErr(format!("realloc of invalid pointer {:#x}", p)))?; let old = o.data.len(); if n < old && o.sym.is_some() { o.clear_sym(n, old - n); } o.data.resize(n, 0); Val::I(p) }
            }
            X::Free => { let p = ac!(0); st.mem.dealloc(p)?; return Ok(None); }
            X::AddO | X::SubO | X::MulO | X::SAddO | X::SSubO | X::SMulO => {
                let (p, q) = (a!(0), a!(1));
                let w = w0;
                if let (Val::I(x1), Val::I(y1), true) = (&p, &q, w <= 64) {
                    let (x1, y1) = (*x1, *y1);
                    let (u, o) = match x {
                        X::AddO => { let s = x1 as u128 + y1 as u128; (s, s > mask(w)) }
                        X::SubO => ((x1 as u128).wrapping_sub(y1 as u128), x1 < y1),
                        X::MulO => { let s = x1 as u128 * y1 as u128; (s, s > mask(w)) }
                        _ => { let (a, b) = (sext(x1 as u128, w), sext(y1 as u128, w)); let s = match x { X::SAddO => a + b, X::SSubO => a - b, _ => a * b }; (s as u128, sext(s as u128 & mask(w), w) != s) }
                    };
                    Val::Agg(Rc::new(vec![Val::I((u & mask(w)) as u64), Val::I(o as u64)]))
                } else {
                    let (e, f) = (self.ex(&p, w), self.ex(&q, w));
                    let ww = match x { X::MulO | X::SMulO => w * 2, _ => w + 1 };
                    if ww > 128 { return Err(Stop::Internal("overflow intrinsic too wide".into())); }
                    let sg = matches!(x, X::SAddO | X::SSubO | X::SMulO);
                    let op = match x { X::AddO | X::SAddO => Bop::Add, X::SubO | X::SSubO => Bop::Sub, _ => Bop::Mul };
                    let r = self.ar.bin(op, e, f);
                    let o = if x == X::SubO { self.ar.ult(e, f) } else {
                        let (we, wf) = if sg { (self.ar.sext(ww, e), self.ar.sext(ww, f)) } else { (self.ar.zext(ww, e), self.ar.zext(ww, f)) };
                        let wr = self.ar.bin(op, we, wf);
                        let back = if sg { self.ar.sext(ww, r) } else { self.ar.zext(ww, r) };
                        self.ar.ne(wr, back)
                    };
                    Val::Agg(Rc::new(vec![self.val(r), self.val(o)]))
                }
            }
            X::UAddSat | X::USubSat | X::SAddSat | X::SSubSat | X::UMin | X::UMax | X::SMin | X::SMax => {
                let (p, q) = (a!(0), a!(1));
                self.minmax(x, w0, &p, &q)?
            }
            X::SCmp | X::UCmp => {
                let (p, q) = (a!(0), a!(1)); let rw = c.ret.bits();
                let (e, f) = (self.ex(&p, w0), self.ex(&q, w0));
                let lt = self.ar.cmp(if x == X::SCmp { Cop::Slt } else { Cop::Ult }, e, f); let eq = self.ar.eq(e, f);
                let z = self.ar.cst(rw, 0); let one = self.ar.cst(rw, 1); let neg = self.ar.cst(rw, mask(rw));
                let t = self.ar.ite(eq, z, one); let r = self.ar.ite(lt, neg, t); self.val(r)
            }
            X::Abs => { let p = a!(0); let e = self.ex(&p, w0); let z = self.ar.cst(w0, 0); let n = self.ar.bin(Bop::Sub, z, e); let lt = self.ar.cmp(Cop::Slt, e, z); let r = self.ar.ite(lt, n, e); self.val(r) }
            X::Bswap => { let p = a!(0); let e = self.ex(&p, w0); let mut r = self.ar.extract(0, 8, e); for i in 1..w0 / 8 { let b = self.ar.extract(i * 8, 8, e); r = self.ar.concat(r, b); } self.val(r) }
            X::BitRev => { let p = a!(0); let e = self.ex(&p, w0); let mut r = self.ar.extract(0, 1, e); for i in 1..w0 { let b = self.ar.extract(i, 1, e); r = self.ar.concat(r, b); } self.val(r) }
            X::Ctlz | X::Cttz | X::Ctpop => match a!(0) {
                Val::Agg(v) => { let mut o = vec![]; for y in v.iter() { let k = self.conc(st, y, w0)?; o.push(Val::I(count(x, k, w0))); } Val::Agg(Rc::new(o)) }
                v => { let k = self.conc(st, &v, w0)?; if w0 > 64 { return Err(Stop::Internal("bit count on wide integer".into())); } Val::I(count(x, k, w0)) }
            },
            X::Fshl | X::Fshr => {
                let (p, q) = (a!(0), a!(1)); let s = ac!(2) % w0 as u64; let (e, f) = (self.ex(&p, w0), self.ex(&q, w0));
                let cc = self.ar.concat(e, f);
                if w0 > 64 { return Err(Stop::Internal("funnel shift too wide".into())); }
                let lo = if x == X::Fshl { w0 - s as u16 } else { s as u16 };
                let r = self.ar.extract(lo, w0, cc); self.val(r)
            }
            X::VReduce => {
                let v = match a!(0) { Val::Agg(v) => v, _ => return Err(Stop::Internal("reduce".into())) };
                let mut r = v[0].clone();
                for y in &v[1..] {
                    r = if name.contains(".or.") { self.bin(Bop::Or, w0, &r, y)? } else if name.contains(".and.") { self.bin(Bop::And, w0, &r, y)? } else if name.contains(".add.") { self.bin(Bop::Add, w0, &r, y)? } else if name.contains(".xor.") { self.bin(Bop::Xor, w0, &r, y)? }
                        else if name.contains(".umax.") { self.minmax(X::UMax, w0, &r, y)? } else if name.contains(".umin.") { self.minmax(X::UMin, w0, &r, y)? } else { return Err(Stop::Internal(name.to_string())) };
                }
                r
            }
            X::Trap | X::Abort => return Err(Stop::Violation(9006, "process aborted".into())),
            X::Exit => return Err(Stop::Violation(9006, "process exited".into())),
            X::Raise => {
                let e = a!(0);
                st.notes.push(format!("panic: {}", self.panic_site(st)));
                self.unwind(st, Val::Agg(Rc::new(vec![e, Val::I(1)])))?;
                return Ok(None);
            }
            X::ExcDelete => return Ok(None),
            // ---- files
            X::Open => {
                let p = ac!(0); let fl = ac!(1);
                let path = String::from_utf8_lossy(&st.mem.cstr(p)?).to_string();
                let ino = match st.fs.look(&path) {
                    Some(i) => { if fl & 0o200 != 0 && fl & 0o100 != 0 { return self.fail(st, 17, 32); } if st.fs.inodes[i].dir && fl & 3 != 0 { return self.fail(st, 21, 32); } i }
                    None => { if fl & 0o100 == 0 || !st.fs.parent_ok(&path) { return self.fail(st, 2, 32); } st.fs.mk(&path, false) }
                };
                if fl & 0o1000 != 0 { st.fs.inodes[ino].data = Rc::new(Data::default()); }
                Val::I(st.fs.open(ino, fl))
            }
            X::Close => { let fd = ac!(0); st.fs.fdt.remove(&fd); Val::I(0) }
            X::Dup => { let fd = ac!(0); match st.fs.fdt.get(&fd).copied() { Some(o) => Val::I(st.fs.newfd(o, 3)), None => return self.fail(st, 9, 32) } }
            X::Fcntl => {
                let fd = ac!(0); let cmd = ac!(1);
                match st.fs.fdt.get(&fd).copied() { None if fd > 2 => return self.fail(st, 9, 32), None => Val::I(0), Some(o) => match cmd { 0 | 1030 => { let m = ac!(2).max(3); Val::I(st.fs.newfd(o, m)) } 1 => Val::I(1), 3 => Val::I(st.fs.ofd[o].flags), _ => Val::I(0) } }
            }
            X::Flock => Val::I(0),
            X::Read | X::Pread => {
                let fd = ac!(0); let buf = ac!(1); let n = ac!(2) as usize;
                let pos = if x == X::Pread { Some(ac!(3)) } else { None };
                let o = match st.fs.fdt.get(&fd) { Some(o) => *o, None => return self.fail(st, 9, 64) };
                if st.fs.fault(8) { return self.fail(st, 5, 64); }
                let at = pos.unwrap_or(st.fs.ofd[o].pos);
                let d = st.fs.inodes[st.fs.ofd[o].ino].data.clone();
                let (b, s) = d.read(at, n);
                st.mem.write_bytes_sym(buf, &b, &s)?;
                if pos.is_none() { st.fs.ofd[o].pos += b.len() as u64; }
                Val::I(b.len() as u64)
            }
            X::Write | X::Pwrite => {
                let fd = ac!(0); let buf = ac!(1); let mut n = ac!(2) as usize;
                let pos = if x == X::Pwrite { Some(ac!(3)) } else { None };
                if fd <= 2 { Val::I(n as u64) } else {
                    let o = match st.fs.fdt.get(&fd) { Some(o) => *o, None => return self.fail(st, 9, 64) };
                    if st.fs.fault(1) { return self.fail(st, 28, 64); }
                    if st.fs.short(n) { n /= 2; }
                    st.fs.n_write += 1;
                    let (b, s) = st.mem.read_bytes_sym(buf, n)?;
                    let f = st.fs.ofd[o].clone();
                    let ino = &mut st.fs.inodes[f.ino];
                    let at = pos.unwrap_or(if f.flags & 0o2000 != 0 { ino.data.size } else { f.pos });
                    Rc::make_mut(&mut ino.data).write(at, &b, &s);
                    if pos.is_none() { st.fs.ofd[o].pos = at + n as u64; }
                    Val::I(n as u64)
                }
            }
            X::Writev => {
                let iov = ac!(1); let cnt = ac!(2); let fd = ac!(0);
                if fd > 2 { return Err(Stop::Internal("writev to a file".into())); }
                let mut t = 0; for i in 0..cnt { t += match self.load_scalar(st, iov + i * 16 + 8, 8, 64)? { Val::I(x) => x, _ => 0 }; }
                Val::I(t)
            }
            X::Lseek => {
                let fd = ac!(0); let off = ac!(1) as i64; let wh = ac!(2);
                let o = match st.fs.fdt.get(&fd) { Some(o) => *o, None => return self.fail(st, 9, 64) };
                let base = match wh { 0 => 0, 1 => st.fs.ofd[o].pos as i64, 2 => st.fs.inodes[st.fs.ofd[o].ino].data.size as i64, _ => return Err(Stop::Internal("lseek whence".into())) };
                let np = base.checked_add(off).unwrap_or(-1);
                if np < 0 { return self.fail(st, 22, 64); }
                st.fs.ofd[o].pos = np as u64;
                Val::I(np as u64)
            }
            X::Ftruncate => {
                let fd = ac!(0); let n = ac!(1);
                let o = match st.fs.fdt.get(&fd) { Some(o) => *o, None => return self.fail(st, 9, 32) };
                if st.fs.fault(2) { return self.fail(st, 28, 32); }
                let ino = st.fs.ofd[o].ino;
                Rc::make_mut(&mut st.fs.inodes[ino].data).truncate(n);
                Val::I(0)
            }
            X::Fsync => {
                let fd = ac!(0);
                let o = match st.fs.fdt.get(&fd) { Some(o) => *o, None => return self.fail(st, 9, 32) };
                if st.fs.fault(4) { return self.fail(st, 5, 32); }
                let ino = st.fs.ofd[o].ino;
                let d = st.fs.inodes[ino].data.clone();
                st.fs.inodes[ino].durable = Some(d);
                st.fs.n_sync += 1;
                Val::I(0)
            }
            X::Fstat => { let fd = ac!(0); let buf = ac!(1); let ino = match st.fs.fdt.get(&fd) { Some(o) => st.fs.ofd[*o].ino, None => return self.fail(st, 9, 32) }; self.stat(st, buf, ino)? }
            X::Stat => { let p = ac!(0); let buf = ac!(1); let path = String::from_utf8_lossy(&st.mem.cstr(p)?).to_string(); match st.fs.look(&path) { Some(i) => self.stat(st, buf, i)?, None => return self.fail(st, 2, 32) } }
            X::Statx => {
                let fd = ac!(0) as u32 as i32; let p = ac!(1); let fl = ac!(2); let buf = ac!(4);
                if p == 0 || buf == 0 { return self.fail(st, 14, 32); }
                let path = String::from_utf8_lossy(&st.mem.cstr(p)?).to_string();
                let ino = if path.is_empty() && fl & 0x1000 != 0 { match st.fs.fdt.get(&(fd as u64)) { Some(o) => st.fs.ofd[*o].ino, None => return self.fail(st, 9, 32) } } else { match st.fs.look(&path) { Some(i) => i, None => return self.fail(st, 2, 32) } };
                let nd = &st.fs.inodes[ino];
                let (size, mode) = (nd.data.size, if nd.dir { 0o40755u64 } else { 0o100644 });
                let mut b = [0u8; 256];
                b[0..4].copy_from_slice(&0xfffu32.to_le_bytes()); b[4..8].copy_from_slice(&4096u32.to_le_bytes()); b[16..20].copy_from_slice(&1u32.to_le_bytes()); b[28..30].copy_from_slice(&(mode as u16).to_le_bytes());
                b[32..40].copy_from_slice(&(ino as u64 + 100).to_le_bytes()); b[40..48].copy_from_slice(&size.to_le_bytes());
                st.mem.write_bytes(buf, &b)?;
                Val::I(0)
            }
            X::Mkdir => { let p = ac!(0); let path = String::from_utf8_lossy(&st.mem.cstr(p)?).to_string(); if st.fs.look(&path).is_some() { return self.fail(st, 17, 32); } if !st.fs.parent_ok(&path) { return self.fail(st, 2, 32); } st.fs.mk(&path, true); Val::I(0) }
            X::Unlink => { let p = ac!(0); let path = norm(&String::from_utf8_lossy(&st.mem.cstr(p)?)); match st.fs.names.remove(&path) { Some(i) => { st.fs.inodes[i].linked = false; Val::I(0) } None => return self.fail(st, 2, 32) } }
            X::Access => { let p = ac!(0); let path = String::from_utf8_lossy(&st.mem.cstr(p)?).to_string(); if st.fs.look(&path).is_some() { Val::I(0) } else { return self.fail(st, 2, 32) } }
            X::Realpath => {
                let p = ac!(0); let out = ac!(1); let path = String::from_utf8_lossy(&st.mem.cstr(p)?).to_string();
                if st.fs.look(&path).is_none() { self.set_errno(st, 2); Val::I(0) } else {
                    let mut b = format!("/{}", norm(&path)).into_bytes(); b.push(0);
                    let o = if out == 0 { st.mem.alloc(b.len()) } else { out };
                    st.mem.write_bytes(o, &b)?; Val::I(o)
                }
            }
            X::Readlink => return self.fail(st, 22, 64),
            X::Getcwd => { let p = ac!(0); st.mem.write_bytes(p, b"/\0")?; Val::I(p) }
            X::Poll => Val::I(0),
            X::Sysconf => Val::I(match ac!(0) { 30 => 4096, 84 | 83 => 1, _ => u64::MAX }),
            X::Getenv => Val::I(0),
            X::Errno => Val::I(st.errno),
            X::Getrandom => { let p = ac!(0); let n = ac!(1) as usize; st.mem.write_bytes(p, &vec![7; n])?; Val::I(n as u64) }
            X::Syscall => match ac!(0) { 318 => { let p = ac!(1); let n = ac!(2) as usize; st.mem.write_bytes(p, &vec![7; n])?; Val::I(n as u64) } 202 => Val::I(0), 186 => Val::I(1), n => { let _ = n; return self.fail(st, 38, 64) } },
            X::KeyCreate => { let p = ac!(0); st.mem.write_u64(p, 4, 1)?; Val::I(0) }
            X::KeyGet => Val::I(0),
            X::ClockGettime => { let p = ac!(1); st.mem.write_u64(p, 8, 1_700_000_000)?; st.mem.write_u64(p + 8, 8, 0)?; Val::I(0) }
            X::Mmap => return self.fail(st, 12, 64),
            X::Munmap => Val::I(0),
            // ---- harness interface
            X::SymU64 => { let i = st.nvars; st.nvars += 1; let e = self.ar.var(64, i); st.inputs.push(Inp::U(e)); Val::E(e) }
            X::SymRange => {
                let lo = ac!(0); let hi = ac!(1);
                if hi == lo + 1 { st.inputs.push(Inp::C(lo)); Val::I(lo) } else {
                let i = st.nvars; st.nvars += 1; let e = self.ar.var(64, i); st.inputs.push(Inp::U(e));
                let (l, h) = (self.ar.cst(64, lo as u128), self.ar.cst(64, hi as u128));
                let c1 = self.ar.ule(l, e); let c2 = self.ar.ult(e, h); let cc = self.ar.and(c1, c2);
                self.assume(st, cc)?;
                Val::E(e) }
            }
            X::SymBytes => {
                let p = ac!(0); let n = ac!(1) as usize;
                let mut v = vec![]; let mut sy = vec![];
                for k in 0..n { let i = st.nvars; st.nvars += 1; let e = self.ar.var(8, i); v.push(e); sy.push((k as u32, e)); }
                st.mem.write_bytes_sym(p, &vec![0; n], &sy)?;
                st.inputs.push(Inp::B(v));
                return Ok(None);
            }
            X::SymChoice => {
                let n = ac!(0);
                let k = match st.forced.take() { Some(k) => k, None => { for k in (1..n).rev() { let mut alt = self.fork(st); alt.forced = Some(k); self.work.push_back(alt); } 0 } };
                if n == 0 { return Err(Stop::Infeasible); }
                st.inputs.push(Inp::C(k));
                Val::I(k)
            }
            X::SymConc => Val::I(ac!(0)),
            X::SymIsSymbolic => Val::I(!matches!(a!(0), Val::I(_)) as u64),
            X::SymAssume => { match a!(0) { Val::I(b) => if b & 1 == 0 { return Err(Stop::Infeasible); }, Val::E(e) => { let e = self.truth(e); self.assume(st, e)?; } _ => {} } return Ok(None); }
            X::SymAssert => {
                let code = ac!(1);
                self.out.asserts += 1;
                match a!(0) {
                    Val::I(b) => if b & 1 == 0 { return Err(Stop::Violation(code, "assertion failed".into())); },
                    Val::E(e) => {
                        let e = self.truth(e);
                        match self.lookup(st, e) {
                            Some(true) => {}
                            Some(false) => return Err(Stop::Violation(code, "assertion failed".into())),
                            None => {
                                self.out.asserts_sym += 1;
                                let ne = self.ar.not(e);
                                match self.so.check(&mut self.ar, &st.pc, ne) {
                                    Res::Unsat => { st.known.insert(e, true); }
                                    Res::Sat(m) => { st.model = self.merge_model(&st.model, &m); self.learn(st, e, false); return Err(Stop::Violation(code, "assertion failed".into())); }
                                    Res::Unknown => return Err(Stop::Internal("solver gave up on an assertion".into())),
                                }
                            }
                        }
                    }
                    _ => {}
                }
                return Ok(None);
            }
            X::SymTrace => { let v = a!(0); st.trace.push(v); return Ok(None); }
            X::SymCover => { let k = ac!(0); if !st.covers.contains(&k) { st.covers.push(k); } return Ok(None); }
            X::SymNote => { let p = ac!(0); let n = ac!(1) as usize; let (b, _) = st.mem.read_bytes_sym(p, n)?; st.notes.push(String::from_utf8_lossy(&b).to_string()); return Ok(None); }
            X::SymFault => { let k = ac!(0); let n = ac!(1); st.fs.fault_kind = k; st.fs.fault_after = n; return Ok(None); }
            X::SymFired => Val::I(st.fs.fault_fired),
            X::SymSyncs => Val::I(st.fs.n_sync),
            X::SymCrash => { st.fs.crash(); return Ok(None); }
            X::SymSnap => { let p = ac!(0); let n = ac!(1) as usize; let (b, _) = st.mem.read_bytes_sym(p, n)?; let d = st.fs.look(&String::from_utf8_lossy(&b)).map(|i| st.fs.inodes[i].data.clone()).unwrap_or_default(); st.snaps.push(d); Val::I(st.snaps.len() as u64 - 1) }
            X::SymSame => {
                let h = ac!(0) as usize; let p = ac!(1); let n = ac!(2) as usize; let (b, _) = st.mem.read_bytes_sym(p, n)?;
                let d = st.fs.look(&String::from_utf8_lossy(&b)).map(|i| st.fs.inodes[i].data.clone()).unwrap_or_default();
                let o = st.snaps[h].clone();
                self.same(&o, &d)
            }
            X::Unknown => return Err(Stop::Internal(format!("external function {} is not modelled", name))),
        }))
    }
    fn truth(&mut self, e: Ex) -> Ex { let w = self.ar.width(e); if w == 1 { e } else { self.ar.extract(0, 1, e) } }
    fn same(&mut self, a: &Data, b: &Data) -> Val {
        if a.size != b.size { return Val::I(0); }
        let mut ks: Vec<u64> = a.pages.keys().chain(b.pages.keys()).copied().collect();
        ks.sort(); ks.dedup();
        let mut r = self.ar.bit(true);
        let zero = Page { data: vec![0; PG], sym: BTreeMap::new() };
        for k in ks {
            let (x, y) = (a.pages.get(&k), b.pages.get(&k));
            if let (Some(p), Some(q)) = (x, y) { if Rc::ptr_eq(p, q) { continue; } }
            let x: &Page = x.map_or(&zero, |p| p); let y: &Page = y.map_or(&zero, |p| p);
            if x.sym.is_empty() && y.sym.is_empty() { if x.data != y.data { return Val::I(0); } continue; }
            for i in 0..PG {
                let (sx, sy) = (x.sym.get(&(i as u16)), y.sym.get(&(i as u16)));
                if sx.is_none() && sy.is_none() { if x.data[i] != y.data[i] { return Val::I(0); } continue; }
                let ex = match sx { Some(e) => *e, None => self.ar.cst(8, x.data[i] as u128) };
                let ey = match sy { Some(e) => *e, None => self.ar.cst(8, y.data[i] as u128) };
                let q = self.ar.eq(ex, ey);
                r = self.ar.and(r, q);
            }
        }
        self.val(r)
    }
    fn assume(&mut self, st: &mut State, e: Ex) -> R<()> {
        match self.lookup(st, e) { Some(true) => return Ok(()), Some(false) => return Err(Stop::Infeasible), None => {} }
        if self.ar.eval(e, &st.model) == 1 { self.learn(st, e, true); return Ok(()); }
        match self.so.check(&mut self.ar, &st.pc, e) {
            Res::Unsat => Err(Stop::Infeasible),
            Res::Sat(m) => { st.model = self.merge_model(&st.model, &m); self.learn(st, e, true); Ok(()) }
            Res::Unknown => Err(Stop::Internal("solver gave up on an assumption".into())),
        }
    }
    fn minmax(&mut self, x: X, w: u16, p: &Val, q: &Val) -> R<Val> {
        if let (Val::Agg(a), Val::Agg(b)) = (p, q) { let mut o = vec![]; for i in 0..a.len() { o.push(self.minmax(x, w, &a[i], &b[i])?); } return Ok(Val::Agg(Rc::new(o))); }
        let (e, f) = (self.ex(p, w), self.ex(q, w));
        let r = match x {
            X::UMin => { let c = self.ar.ult(e, f); self.ar.ite(c, e, f) } X::UMax => { let c = self.ar.ult(e, f); self.ar.ite(c, f, e) }
            X::SMin => { let c = self.ar.cmp(Cop::Slt, e, f); self.ar.ite(c, e, f) } X::SMax => { let c = self.ar.cmp(Cop::Slt, e, f); self.ar.ite(c, f, e) }
            X::UAddSat => { let s = self.ar.bin(Bop::Add, e, f); let c = self.ar.ult(s, e); let m = self.ar.cst(w, mask(w)); self.ar.ite(c, m, s) }
            X::USubSat => { let c = self.ar.ult(e, f); let d = self.ar.bin(Bop::Sub, e, f); let z = self.ar.cst(w, 0); self.ar.ite(c, z, d) }
            _ => {
                let (a, b) = (self.ar.sext(w + 1, e), self.ar.sext(w + 1, f));
                let s = self.ar.bin(if x == X::SAddSat { Bop::Add } else { Bop::Sub }, a, b);
                let mx = self.ar.cst(w + 1, mask(w - 1)); let mn = self.ar.cst(w + 1, mask(w + 1) & !mask(w - 1));
                let c = self.ar.cmp(Cop::Slt, mx, s); let s = self.ar.ite(c, mx, s);
                let c = self.ar.cmp(Cop::Slt, s, mn); let s = self.ar.ite(c, mn, s);
                self.ar.extract(0, w, s)
            }
        };
        Ok(self.val(r))
    }
    fn stat(&mut self, st: &mut State, buf: u64, ino: usize) -> R<Val> {
        let nd = &st.fs.inodes[ino];
        let (size, mode) = (nd.data.size, if nd.dir { 0o40755u64 } else { 0o100644 });
        let mut b = [0u8; 144];
        b[8..16].copy_from_slice(&(ino as u64 + 100).to_le_bytes()); b[16..24].copy_from_slice(&1u64.to_le_bytes()); b[24..28].copy_from_slice(&(mode as u32).to_le_bytes());
        b[48..56].copy_from_slice(&size.to_le_bytes()); b[56..64].copy_from_slice(&4096u64.to_le_bytes());
        st.mem.write_bytes(buf, &b)?;
        Ok(Val::I(0))
    }
    fn panic_site(&self, st: &State) -> String {
        let s = self.stack(st);
        s.iter().find(|l| !l.contains("/rustc/") && !l.contains("rustlib") && !l.contains("library/")).cloned().unwrap_or_else(|| s.first().cloned().unwrap_or_default())
    }
    pub fn record(&mut self, st: &State, kind: &str, code: u64, msg: &str, stack: Vec<String>) -> PathRec {
        let m = st.model.clone();
        let inputs = st.inputs.iter().map(|i| match i { Inp::U(e) => (0u8, vec![self.ar.eval(*e, &m) as u64]), Inp::C(v) => (1, vec![*v]), Inp::B(v) => (2, v.iter().map(|e| self.ar.eval(*e, &m) as u64).collect()) }).collect();
        let trace = st.trace.iter().map(|v| match v { Val::I(x) => *x, Val::E(e) => self.ar.eval(*e, &m) as u64, _ => 0 }).collect();
        let mut fs = vec![];
        for (n, &i) in &st.fs.names {
            if st.fs.inodes[i].dir { continue; }
            let d = &st.fs.inodes[i].data;
            let mut h = 0xcbf29ce484222325u64;
            for (pn, pg) in &d.pages {
                let mut b = pg.data.clone();
                for (o, e) in &pg.sym { b[*o as usize] = self.ar.eval(*e, &m) as u8; }
                if b.iter().all(|x| *x == 0) { continue; }
                h = (h ^ pn).wrapping_mul(0x100000001b3);
                for w in b.chunks(8) { h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x100000001b3); h ^= h >> 29; }
            }
            fs.push((n.clone(), d.size, h));
        }
        PathRec { kind: kind.into(), code, msg: msg.into(), stack, inputs, trace, fs, notes: st.notes.clone() }
    }
    /// account for a finished state; true = stop everything (violation budget used up)
    pub fn finish(&mut self, st: &State, s: Stop) -> bool {
        self.out.insts += st.steps;
        // the model a state carries must satisfy its path condition (a check of the executor itself)
        if !matches!(s, Stop::Infeasible) { let m = st.model.clone(); for &e in &st.pc { if self.ar.eval(e, &m) != 1 { self.out.internal.push("the model of a path does not satisfy its path condition".into()); break; } } }
        match s {
            Stop::Infeasible => self.out.infeasible += 1,
            Stop::Internal(m) => { let sk = self.stack(st); self.out.internal.push(format!("{} at {}", m, sk.iter().take(6).cloned().collect::<Vec<_>>().join(" <- "))); }
            Stop::Done | Stop::Limit | Stop::Violation(..) => {
                self.out.paths += 1;
                self.out.max_steps = self.out.max_steps.max(st.steps);
                for c in &st.covers { *self.out.covers.entry(*c).or_insert(0) += 1; }
                match s {
                    Stop::Done => {
                        // deterministic thinning sample
                        if self.out.paths % self.sample_every == 0 {
                            let r = self.record(st, "ok", 0, "", vec![]);
                            self.out.samples.push(r);
                            if self.out.samples.len() > self.max_samples { let mut i = 0; self.out.samples.retain(|_| { i += 1; i % 2 == 1 }); self.sample_every *= 2; }
                        }
                    }
                    Stop::Violation(code, msg) => {
                        let stack = self.stack(st);
                        let r = self.record(st, "violation", code, &msg, stack);
                        let dup = self.out.violations.iter().filter(|v| v.code == code && v.stack == r.stack).count();
                        if dup < 2 { self.out.violations.push(r); }
                    }
                    _ => { let stack = self.stack(st); let r = self.record(st, "limit", 9010, "step limit exceeded", stack); self.out.violations.push(r); }
                }
            }
        }
        self.out.violations.len() >= self.max_viol || self.out.internal.len() >= 3
    }
}
fn count(x: X, k: u64, w: u16) -> u64 {
    match x { X::Ctlz => if k == 0 { w as u64 } else { (k.leading_zeros() - (64 - w as u32)) as u64 }, X::Cttz => if k == 0 { w as u64 } else { k.trailing_zeros() as u64 }, _ => k.count_ones() as u64 }
}
