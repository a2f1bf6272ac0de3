//! symx: symbolic execution of rustc-emitted LLVM IR with z3.
//! usage: symx IR ENTRY ARG.. [--out F] [--jobs N] [--frontier N] [--steps N] [--secs N] [--max-viol N] [--samples N] [--seed N] [--dump DIR EVERY] [--src PREFIX]
mod exec;
mod expr;
mod fs;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn list<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }
fn rec(r: &PathRec) -> String {
    format!("{{\"kind\":{},\"code\":{},\"msg\":{},\"stack\":{},\"inputs\":{},\"trace\":{},\"fs\":{},\"notes\":{}}}", esc(&r.kind), r.code, esc(&r.msg), list(&r.stack, |s| esc(s)),
        list(&r.inputs, |(k, v)| format!("[{},{}]", k, list(v, |x| x.to_string()))), list(&r.trace, |x| x.to_string()), list(&r.fs, |(n, s, h)| format!("[{},{},{}]", esc(n), s, h)), list(&r.notes, |s| esc(s)))
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn drive(ex: &mut Exec, deadline: std::time::Instant, cap: usize) -> bool {
    // depth first
    while let Some(mut st) = ex.work.pop_back() {
        if std::time::Instant::now() > deadline { ex.out.unfinished += 1 + ex.work.len() as u64; ex.work.clear(); return true; }
        if ex.work.len() > cap { ex.out.internal.push(format!("more than {} pending states", cap)); return true; }
        if let Some(s) = ex.run(&mut st) { if ex.finish(&st, s) { return true; } } else { ex.work.push_back(st); }
    }
    false
}
fn report(ex: &Exec) -> String {
    let o = &ex.out;
    let s = &ex.so.stats;
    let mut t = String::new();
    for (k, v) in [("paths", o.paths), ("infeasible", o.infeasible), ("insts", o.insts), ("forks", o.forks), ("asserts", o.asserts), ("asserts_sym", o.asserts_sym), ("unfinished", o.unfinished),
        ("queries", s.queries), ("sat", s.sat), ("unsat", s.unsat), ("unknown", s.unknown), ("cache_hits", s.cache_hits), ("solver_us", s.time_us)] { let _ = writeln!(t, "N {} {}", k, v); }
    let _ = writeln!(t, "M max_steps {}", o.max_steps);
    let _ = writeln!(t, "M max_query_us {}", s.max_us);
    for (k, v) in &o.covers { let _ = writeln!(t, "C {} {}", k, v); }
    for r in &o.samples { let _ = writeln!(t, "S {}", rec(r)); }
    for r in &o.violations { let _ = writeln!(t, "V {}", rec(r)); }
    for i in &o.internal { let _ = writeln!(t, "I {}", i.replace('\n', " ")); }
    let mut ids = BTreeSet::new();
    for f in ex.m.compiled_fns() { for (i, h) in f.hit.iter().enumerate() { if h.get() { ids.insert(f.dbg[i]); } } }
    let _ = writeln!(t, "D {}", ids.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    t
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let (mut pos, mut out, mut jobs, mut frontier, mut steps, mut secs, mut maxv, mut samples, mut seed, mut dump, mut src) = (vec![], String::new(), 8usize, 0usize, 300_000_000u64, 3000u64, 3usize, 4usize, 1u64, None, "/repo/src".to_string());
    let mut i = 1;
    while i < av.len() {
        let nx = |i: &mut usize| { *i += 1; av[*i].clone() };
        match av[i].as_str() {
            "--out" => out = nx(&mut i), "--jobs" => jobs = nx(&mut i).parse().unwrap(), "--frontier" => frontier = nx(&mut i).parse().unwrap(), "--steps" => steps = nx(&mut i).parse().unwrap(), "--secs" => secs = nx(&mut i).parse().unwrap(),
            "--max-viol" => maxv = nx(&mut i).parse().unwrap(), "--samples" => samples = nx(&mut i).parse().unwrap(), "--seed" => seed = nx(&mut i).parse().unwrap(),
            "--dump" => { let d = nx(&mut i); let e = nx(&mut i).parse().unwrap(); dump = Some((d, e)); }
            "--src" => src = nx(&mut i),
            _ => pos.push(av[i].clone()),
        }
        i += 1;
    }
    if frontier == 0 { frontier = jobs * 48; }
    let t0 = std::time::Instant::now();
    let deadline = t0 + std::time::Duration::from_secs(secs);
    let text: &'static str = Box::leak(std::fs::read_to_string(&pos[0]).expect("IR file").into_boxed_str());
    let m = ir::Module::load(text);
    let args: Vec<u64> = pos[2..].iter().map(|x| x.parse().unwrap()).collect();
    let mut ex = Exec::new(&m);
    ex.step_limit = steps;
    ex.max_viol = maxv;
    ex.max_samples = samples;
    ex.seed = seed;
    ex.so.dump = dump.clone().map(|(d, e)| (d, e, 0));
    let st = ex.initial(&pos[1], &args);
    let t_load = t0.elapsed();
    ex.work.push_back(st);
    let mut texts = vec![];
    let mut stop = false;
    if jobs > 1 {
        ex.bfs = true;
        while ex.work.len() < frontier {
            let mut st = match ex.work.pop_front() { Some(s) => s, None => break };
            match ex.run(&mut st) { Some(s) => { if ex.finish(&st, s) { stop = true; break; } } None => ex.work.push_back(st) }
            if std::time::Instant::now() > deadline { break; }
        }
        ex.bfs = false;
    }
    if !stop && !ex.work.is_empty() {
        if jobs <= 1 { drive(&mut ex, deadline, 2_000_000); }
        else {
            let states: Vec<State> = std::mem::take(&mut ex.work).into_iter().collect();
            let ctr = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize) };
            let flag = unsafe { &*((ctr as *const _ as usize + 64) as *const std::sync::atomic::AtomicUsize) };
            let base = format!("{}.part{}", if out.is_empty() { "/tmp/symx".into() } else { out.clone() }, std::process::id());
            let mut kids = vec![];
            for j in 0..jobs {
                let p = unsafe { fork() };
                if p == 0 {
                    ex.out = Out::default();
                    let ids = ex.so.next_model;
                    ex.so = solver::Solver::new();
                    // model numbers key the evaluation cache: they continue, so that none is used twice
                    ex.so.next_model = ids;
                    ex.so.dump = dump.clone().map(|(d, e)| (d, e, 0));
                    loop {
                        let k = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if k >= states.len() { break; }
                        if flag.load(std::sync::atomic::Ordering::SeqCst) != 0 { ex.out.unfinished += 1; continue; }
                        let mut s = states[k].clone();
                        s.model = ex.so.new_model(s.model.vals.clone());
                        ex.work.push_back(s);
                        if drive(&mut ex, deadline, 2_000_000) { flag.store(1, std::sync::atomic::Ordering::SeqCst); ex.out.unfinished += ex.work.len() as u64; ex.work.clear(); }
                    }
                    let ok = std::fs::write(format!("{}.{}", base, j), report(&ex)).is_ok();
                    unsafe { _exit(if ok { 0 } else { 1 }) }
                }
                kids.push((p, j));
            }
            for (p, j) in kids {
                let mut stt = 0;
                unsafe { waitpid(p, &mut stt, 0) };
                let f = format!("{}.{}", base, j);
                match std::fs::read_to_string(&f) { Ok(t) if stt == 0 => texts.push(t), _ => { let msg = format!("worker {} died (status {:#x})", j, stt); texts.push(format!("I {}\n", msg)); } }
                let _ = std::fs::remove_file(&f);
            }
        }
    }
    texts.push(report(&ex));
    // merge
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut cov: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut sm, mut vi, mut it) = (vec![], vec![], vec![]);
    let mut ids: BTreeSet<u32> = BTreeSet::new();
    for t in &texts {
        for l in t.lines() {
            let (k, r) = l.split_at(2.min(l.len()));
            match k.trim() {
                "N" => { let (a, b) = r.split_once(' ').unwrap(); *n.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap(); }
                "M" => { let (a, b) = r.split_once(' ').unwrap(); let e = n.entry(a.into()).or_insert(0); *e = (*e).max(b.parse().unwrap()); }
                "C" => { let (a, b) = r.split_once(' ').unwrap(); *cov.entry(a.parse().unwrap()).or_insert(0) += b.parse::<u64>().unwrap(); }
                "S" => sm.push(r.to_string()), "V" => vi.push(r.to_string()), "I" => it.push(r.to_string()),
                "D" => ids.extend(r.split_whitespace().map(|x| x.parse::<u32>().unwrap())),
                _ => {}
            }
        }
    }
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fns: BTreeSet<String> = BTreeSet::new();
    for d in ids { if d == 0 { continue; } if let Some((f, l, fun)) = m.loc(d) { if let Some(r) = f.strip_prefix(&src) { lines.entry(r.trim_start_matches('/').to_string()).or_default().insert(l); fns.insert(fun); } } }
    let mut j = String::from("{");
    for (k, v) in &n { let _ = write!(j, "{}:{},", esc(k), v); }
    let _ = write!(j, "\"covers\":{{{}}},", cov.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"samples\":[{}],\"violations\":[{}],\"internal\":{},", sm.join(","), vi.join(","), list(&it, |s| esc(s)));
    let _ = write!(j, "\"lines\":{{{}}},", lines.iter().map(|(k, v)| format!("{}:[{}]", esc(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"functions\":{},", list(&fns.iter().cloned().collect::<Vec<_>>(), |s| esc(s)));
    let _ = write!(j, "\"load_ms\":{},\"wall_ms\":{}}}", t_load.as_millis(), t0.elapsed().as_millis());
    if out.is_empty() { println!("{}", j); } else { std::fs::write(&out, j).unwrap(); }
}
