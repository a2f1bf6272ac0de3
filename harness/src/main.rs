#![allow(non_snake_case)]
mod kit;
mod rt;
mod cases;
mod cases2;
mod cases3;

/// number of the harness source file, for the assertion codes
pub const fn FILE_ID(f: &str) -> u32 {
    let b = f.as_bytes();
    // src/kit.rs -> 1, src/cases.rs -> 2, src/cases2.rs -> 3
    if b[4] == b'k' { 1 } else if b[9] == b'.' { 2 } else { (b[9] - b'0') as u32 + 1 }
}

#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn symx_entry(case: u64, a: u64, b: u64, c: u64, d: u64) {
    #[cfg(not(feature = "native"))]
    std::panic::set_hook(Box::new(|_| {}));
    let a = kit::pick(a);
    if !(cases::run(case, a, b, c, d) || cases2::run(case, a, b, c, d) || cases3::run(case, a, b, c, d)) { panic!("no such case") }
}

#[cfg(not(feature = "native"))]
fn main() {
    let v: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    symx_entry(v[0], v[1], v[2], v[3], v[4]);
}
#[cfg(feature = "native")]
fn main() {
    // harness REPLAY OUT case a b c d   (in a scratch directory)
    let av: Vec<String> = std::env::args().collect();
    rt::start(&av[1]);
    rt::set_out(&av[2]);
    let v: Vec<u64> = av[3..].iter().map(|x| x.parse().unwrap()).collect();
    static SITE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { *SITE.lock().unwrap() = format!("{}:{}", l.file(), l.line()); } }));
    let r = std::panic::catch_unwind(|| symx_entry(v[0], v[1], v[2], v[3], v[4]));
    match r {
        Ok(()) => rt::end("ok", 0, "", &av[2]),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() };
            rt::end("violation", 9005, &format!("{} at {}", m, SITE.lock().unwrap()), &av[2])
        }
    }
}
