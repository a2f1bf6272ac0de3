//! Interface to the symbolic executor, and its native stand-in that replays one solver model.
#[cfg(not(feature = "native"))]
extern "C" {
    pub fn sym_u64() -> u64;
    pub fn sym_range(lo: u64, hi: u64) -> u64;
    pub fn sym_bytes(p: *mut u8, n: usize);
    pub fn sym_choice(n: u64) -> u64;
    pub fn sym_assume(b: bool);
    pub fn sym_assert(b: bool, code: u64);
    pub fn sym_trace(x: u64);
    pub fn sym_cover(id: u64);
    pub fn sym_fault(kinds: u64, n: u64);
    pub fn sym_fired() -> u64;
    pub fn sym_syncs() -> u64;
    pub fn sym_crash();
    pub fn sym_snap(p: *const u8, n: usize) -> u64;
    pub fn sym_same(h: u64, p: *const u8, n: usize) -> bool;
    pub fn sym_conc(x: u64) -> u64;
}

#[cfg(feature = "native")]
pub use native::*;

#[cfg(feature = "native")]
pub mod native {
    use std::collections::{BTreeMap, VecDeque};
    use std::fmt::Write as _;
    use std::os::raw::{c_int, c_long};
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    extern "C" {
        fn syscall(n: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
    }
    type Segs = (u64, Vec<(u64, Vec<u8>)>);
    #[derive(Default)]
    struct Nat {
        inputs: VecDeque<(u64, Vec<u64>)>,
        trace: Vec<u64>,
        durable: BTreeMap<String, Segs>,
        snaps: Vec<(u64, u64)>,
        covers: Vec<u64>,
        root: String,
    }
    static mut NAT: Option<Nat> = None;
    static INSIDE: AtomicBool = AtomicBool::new(true); // no interception while the runtime itself does I/O
    static KINDS: AtomicU64 = AtomicU64::new(0);
    static AFTER: AtomicU64 = AtomicU64::new(0);
    static FIRED: AtomicU64 = AtomicU64::new(0);
    static SYNCS: AtomicU64 = AtomicU64::new(0);
    #[allow(static_mut_refs)]
    fn nat() -> &'static mut Nat { unsafe { NAT.as_mut().unwrap() } }
    fn quiet<T>(f: impl FnOnce() -> T) -> T { let o = INSIDE.swap(true, SeqCst); let r = f(); INSIDE.store(o, SeqCst); r }

    pub fn start(replay: &str) {
        let mut n = Nat { root: std::env::current_dir().unwrap().to_str().unwrap().to_string(), ..Default::default() };
        for l in std::fs::read_to_string(replay).unwrap().lines() {
            let v: Vec<u64> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
            if !v.is_empty() { n.inputs.push_back((v[0], v[1..].to_vec())); }
        }
        unsafe { NAT = Some(n) };
        INSIDE.store(false, SeqCst);
    }
    fn segs(path: &str) -> Segs {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::File::open(path).unwrap();
        let len = f.metadata().unwrap().len();
        let mut v = vec![];
        let mut p = 0i64;
        unsafe {
            loop {
                let d = syscall(8, f.as_raw_fd(), p, 3); // SEEK_DATA
                if d < 0 { break; }
                let h = syscall(8, f.as_raw_fd(), d, 4); // SEEK_HOLE
                if h < 0 { break; }
                let mut b = vec![0u8; (h - d) as usize];
                use std::os::unix::fs::FileExt;
                f.read_exact_at(&mut b, d as u64).unwrap();
                v.push((d as u64, b));
                p = h;
            }
        }
        (len, v)
    }
    /// the same digest as the executor's file system model: non-zero 4096-byte pages only
    fn digest(path: &str) -> (u64, u64) {
        let (len, v) = segs(path);
        let mut pages: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
        for (o, b) in v { for (i, x) in b.iter().enumerate() { if *x != 0 { let p = o + i as u64; pages.entry(p / 4096).or_insert_with(|| vec![0; 4096])[(p % 4096) as usize] = *x; } } }
        let mut h = 0xcbf29ce484222325u64;
        for (pn, b) in pages {
            h = (h ^ pn).wrapping_mul(0x100000001b3);
            for w in b.chunks(8) { h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x100000001b3); h ^= h >> 29; }
        }
        (len, h)
    }
    fn walk(d: &str, out: &mut Vec<String>) {
        if let Ok(rd) = std::fs::read_dir(d) { for e in rd { let e = e.unwrap(); let p = format!("{}/{}", d, e.file_name().to_str().unwrap()); if e.file_type().unwrap().is_dir() { walk(&p, out) } else { out.push(p) } } }
    }
    fn files() -> Vec<String> { let mut v = vec![]; walk(".", &mut v); let mut v: Vec<String> = v.iter().map(|x| x[2..].to_string()).collect(); v.sort(); v }
    pub fn end(kind: &str, code: u64, msg: &str, out: &str) -> ! {
        INSIDE.store(true, SeqCst);
        let mut s = String::new();
        let _ = writeln!(s, "R {} {} {}", kind, code, msg.replace('\n', " "));
        let n = nat();
        let _ = writeln!(s, "T {}", n.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        let _ = writeln!(s, "L {}", n.inputs.len());
        for f in files() { if f == out || f.ends_with(".replay") { continue; } let (l, h) = digest(&f); let _ = writeln!(s, "F {} {} {}", f, l, h); }
        std::fs::write(out, s).unwrap();
        std::process::exit(0)
    }
    static mut OUT: String = String::new();
    #[allow(static_mut_refs)]
    pub fn set_out(o: &str) { unsafe { OUT = o.to_string() } }
    #[allow(static_mut_refs)]
    fn out() -> String { unsafe { OUT.clone() } }
    fn pop(kinds: &[u64]) -> Vec<u64> {
        match nat().inputs.pop_front() { Some((k, v)) if kinds.contains(&k) => v, _ => end("badinput", 0, "the recorded inputs do not fit", &out()) }
    }
    pub unsafe fn sym_u64() -> u64 { pop(&[0, 1])[0] }
    pub unsafe fn sym_range(_lo: u64, _hi: u64) -> u64 { pop(&[0, 1])[0] }
    pub unsafe fn sym_choice(_n: u64) -> u64 { pop(&[1])[0] }
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) { let v = pop(&[2]); for i in 0..n { *p.add(i) = v[i] as u8; } }
    pub unsafe fn sym_assume(b: bool) { if !b { end("assume", 0, "assumption false", &out()) } }
    pub unsafe fn sym_assert(b: bool, code: u64) { if !b { end("violation", code, "assertion failed", &out()) } }
    pub unsafe fn sym_trace(x: u64) { nat().trace.push(x) }
    pub unsafe fn sym_cover(id: u64) { nat().covers.push(id) }
    pub unsafe fn sym_conc(x: u64) -> u64 { x }
    pub unsafe fn sym_fault(kinds: u64, n: u64) { AFTER.store(n, SeqCst); KINDS.store(kinds, SeqCst); }
    pub unsafe fn sym_fired() -> u64 { FIRED.load(SeqCst) }
    pub unsafe fn sym_syncs() -> u64 { SYNCS.load(SeqCst) }
    pub unsafe fn sym_crash() {
        quiet(|| {
            for f in files() {
                if f.ends_with(".replay") { continue; }
                match nat().durable.get(&f) {
                    None => std::fs::remove_file(&f).unwrap(),
                    Some((len, v)) => {
                        use std::os::unix::fs::FileExt;
                        let h = std::fs::OpenOptions::new().write(true).open(&f).unwrap();
                        h.set_len(0).unwrap();
                        h.set_len(*len).unwrap();
                        for (o, b) in v { h.write_all_at(b, *o).unwrap(); }
                    }
                }
            }
        });
        KINDS.store(0, SeqCst);
    }
    unsafe fn name(p: *const u8, n: usize) -> String { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap().to_string() }
    pub unsafe fn sym_snap(p: *const u8, n: usize) -> u64 {
        let f = name(p, n);
        let d = quiet(|| if std::path::Path::new(&f).exists() { digest(&f) } else { (0, 0xcbf29ce484222325) });
        nat().snaps.push(d);
        nat().snaps.len() as u64 - 1
    }
    pub unsafe fn sym_same(h: u64, p: *const u8, n: usize) -> bool {
        let f = name(p, n);
        let d = quiet(|| if std::path::Path::new(&f).exists() { digest(&f) } else { (0, 0xcbf29ce484222325) });
        nat().snaps[h as usize] == d
    }
    // ---- interposed calls
    fn hit(bit: u64) -> bool {
        if INSIDE.load(SeqCst) || KINDS.load(SeqCst) & bit == 0 { return false; }
        let a = AFTER.load(SeqCst);
        if a > 0 { AFTER.store(a - 1, SeqCst); return false; }
        if KINDS.load(SeqCst) & 32 == 0 { KINDS.store(0, SeqCst); }
        FIRED.fetch_add(1, SeqCst);
        true
    }
    fn short(n: usize) -> bool {
        if INSIDE.load(SeqCst) || KINDS.load(SeqCst) & 16 == 0 || n < 2 { return false; }
        let a = AFTER.load(SeqCst);
        if a > 0 { AFTER.store(a - 1, SeqCst); return false; }
        KINDS.store(1 | KINDS.load(SeqCst) & 32, SeqCst);
        true
    }
    unsafe fn fail(e: c_int) -> isize { *__errno_location() = e; -1 }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, b: *const u8, n: usize) -> isize { if fd > 2 && hit(1) { return fail(28); } let n = if fd > 2 && short(n) { n / 2 } else { n }; syscall(1, fd, b, n) as isize }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, b: *mut u8, n: usize) -> isize { if fd > 2 && hit(8) { return fail(5); } syscall(0, fd, b, n) as isize }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int { if fd > 2 && hit(2) { return fail(28) as c_int; } syscall(77, fd, n) as c_int }
    unsafe fn sync(fd: c_int, nr: c_long) -> c_int {
        if fd <= 2 || INSIDE.load(SeqCst) { return syscall(nr, fd) as c_int; }
        if hit(4) { return fail(5) as c_int; }
        SYNCS.fetch_add(1, SeqCst);
        quiet(|| {
            let p = std::fs::read_link(format!("/proc/self/fd/{}", fd)).unwrap();
            let p = p.to_str().unwrap().to_string();
            let root = nat().root.clone();
            if let Some(r) = p.strip_prefix(&format!("{}/", root)) { let s = segs(r); nat().durable.insert(r.to_string(), s); }
        });
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { sync(fd, 74) }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { sync(fd, 75) }
}
