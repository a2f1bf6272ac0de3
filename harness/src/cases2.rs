//! Iteration, persistence, bulk calls, several maps, refusal of foreign files.
use crate::cases::*;
use crate::check;
use crate::kit::*;
use siamesedb::filedb::{CheckFileDbMap, DbBytes, DbInt, DbString, FileDb};
use siamesedb::{DbMap, DbXxx, DbXxxBase, DbXxxObjectSafe};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

pub fn run(case: u64, a: u64, b: u64, c: u64, d: u64) -> bool {
    match case {
        201 => iterate(a, b, c, d),
        202 => interleaved(a, b, c, d),
        203 => iterate_every_step(a, b, c, d),
        301 => persist(a, b, c, d),
        302 => rounds(a, b, c, d),
        303 => whole_db(a, b),
        801 => bulk(a, b, c, d),
        304 => six_maps(a, b),
        305 => persist_pieces(a, b, c, d),
        805 => bulk_long(a, b),
        802 => bulk_strings(a, b),
        803 => bulk_many(a, b),
        804 => bulk_keys(a, b, c, d),
        901 => several_maps(a, b),
        902 => two_dbs(a),
        903 => handles(a, b),
        904 => isolated_int(a, b),
        1001 => bad_header(a, b),
        1002 => wrong_type(a, b),
        1003 => own_type(a, b, c, d),
        1004 => foreign(a, b),
        _ => return false,
    }
    true
}

// ---------------------------------------------------------------- C02
fn all_ways(m: &mut M, md: &Model) {
    match choice(6) {
        0 => { let mut it = m.iter(); iter_same(&mut it, md); cover(40) }
        1 => { let mut it = m.iter_mut(); iter_same(&mut it, md); cover(41) }
        2 => { let mut it = (&*m).into_iter(); iter_same(&mut it, md); cover(42) }
        3 => { let mut it = (&mut *m).into_iter(); iter_same(&mut it, md); cover(43) }
        4 => { let mut it = m.clone().into_iter(); iter_same(&mut it, md); cover(44) }
        _ => { // stop part-way, then start over
            let mut it = m.iter();
            let n = choice(4) as usize;
            for (k, v) in md.e.iter().take(n) { let (x, y) = it.next().unwrap(); check!(x.0.as_slice() == k.as_slice()); check!(y.as_slice() == v.as_slice()); }
            drop(it);
            cover(45)
        }
    }
}
fn iterate(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    ops(&mut m, &mut md, a, b);
    all_ways(&mut m, &md);
    contents_same(&m, &md);
    all_found(&mut m, &md);
    let k = sym_key((a as usize).max(2));
    probe(&mut m, &md, k);
    if md.len() == 0 { cover(46) }
    cover(1);
}
fn iterate_every_step(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    contents_same(&m, &md);
    for i in 0..b % 100 {
        let k = sym_key((a as usize).max(2));
        step(&mut m, &mut md, k, 0x40 + i as u8, lens_of(b), kinds_of(b));
        contents_same(&m, &md);
    }
    cover(1);
}
/// two iterators, lookups and reports between their steps
fn interleaved(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    ops(&mut m, &mut md, a, b);
    let mut i1 = m.iter();
    let mut m2 = m.clone();
    let mut i2 = m2.iter_mut();
    let ahead = choice(3) as usize;
    for (k, v) in md.e.iter().take(ahead) { let (x, y) = i2.next().unwrap(); check!(x.0 == *k && y == *v); }
    for (n, (k, v)) in md.e.iter().enumerate() {
        let x = i1.next();
        check!(x.is_some());
        let (x, y) = x.unwrap();
        check!(x.0.as_slice() == k.as_slice());
        check!(y.as_slice() == v.as_slice());
        if n == 1 { let k = sym_key((a as usize).max(2)); probe(&mut m, &md, k); reports_ok(&m); m.flush().unwrap(); }
        match (md.e.get(n + ahead), i2.next()) {
            (None, None) => (),
            (Some((k, v)), Some((x, y))) => { check!(x.0.as_slice() == k.as_slice()); check!(y.as_slice() == v.as_slice()) }
            _ => check!(false),
        }
    }
    check!(i1.next().is_none());
    check!(i2.next().is_none());
    check!(i1.next().is_none());
    cover(1);
}

// ---------------------------------------------------------------- C03
/// what a map shows after it has been opened again
pub fn reopened_same(md: &Model, a: u64) -> M {
    let mut m = open();
    contents_same(&m, md);
    all_found(&mut m, md);
    let k = sym_key((a as usize).max(2));
    probe(&mut m, md, k);
    m
}
fn persist(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    ops(&mut m, &mut md, a, b);
    base_sync(&mut m, choice(3));
    // the process ends here without running destructors
    std::mem::forget(m);
    let mut m = reopened_same(&md, a);
    reports_ok(&m);
    // later operations behave as on the original
    let k = sym_key((a as usize).max(2));
    step(&mut m, &mut md, k, 0x60, &[2], 2);
    contents_same(&m, &md);
    base_sync(&mut m, choice(3));
    std::mem::forget(m);
    let m = open();
    contents_same(&m, &md);
    let d = disk("m", true);
    disk_same(&d, &md);
    cover(1);
}
/// several rounds of (at most one change, save, end of process), starting from a new or an existing map
fn rounds(n: u64, a: u64, lens: u64, d: u64) {
    HASH_MODE.store(d, Relaxed);
    let mut md = Model::new();
    let mut m = open();
    if a > 0 { fill(&mut m, &mut md, a as usize, 0); base_sync(&mut m, 0); std::mem::forget(m); m = open(); }
    for i in 0..n {
        // nothing, a put (overwrite or insert), a delete
        match choice(3) {
            0 => cover(50),
            1 => { let k = sym_key((a as usize).max(2)); step(&mut m, &mut md, k, 0x40 + i as u8, lens_of(lens * 100), 10); }
            _ => { let k = sym_key((a as usize).max(2)); step(&mut m, &mut md, k, 0x40 + i as u8, lens_of(lens * 100), 1); }
        }
        let how = choice(3);
        base_sync(&mut m, how);
        if how == 0 && choice(2) == 1 { base_sync(&mut m, how); base_sync(&mut m, 1); }
        if choice(2) == 1 { std::mem::forget(m); m = open(); }
        contents_same(&m, &md);
    }
    std::mem::forget(m);
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    cover(1);
}
pub fn db_iter_same<KT: siamesedb::DbMapKeyType>(m: &siamesedb::filedb::FileDbMap<KT>, md: &Model) {
    let mut it = m.iter();
    for (k, v) in &md.e {
        let x = it.next();
        check!(x.is_some());
        let (a, b) = x.unwrap();
        check!(a.as_bytes() == k.as_slice());
        check!(b.as_slice() == v.as_slice());
    }
    check!(it.next().is_none());
}
/// one symbolic put or delete through the ordinary calls of a map of any type
fn change<KT: siamesedb::DbMapKeyType, X: DbXxxObjectSafe<KT>>(m: &mut X, md: &mut Model, key: &[u8], tag: u8) {
    let k = KT::from_bytes(key);
    if choice(2) == 0 {
        let v = sym_value(tag, 2 + (tag as usize % 3) * 20);
        check!(m.put_kt(&k, &v).is_ok());
        md.put(key, &v);
    } else {
        let r = m.del_kt(&k).unwrap();
        let e = md.del(key);
        check!(r.is_some() == e.is_some());
        check!(eq_opt(&r, &e));
    }
}
fn key3(which: u64) -> Vec<u8> { match which { 0 => vec![b'a'], 1 => vec![b'b'], _ => vec![b'a', 0] } }
fn key3i(which: u64) -> Vec<u8> { match which { 0 => 1u64, 1 => 256, _ => u64::MAX - 1 }.to_be_bytes().to_vec() }
/// a database with one map of each type; sync of the whole database
fn whole_db(nops: u64, with_base: u64) {
    let (mut ms, mut mb, mut mi) = (Model::new(), Model::new(), Model::new());
    let db = FileDb::open("db").unwrap();
    {
        let (mut s, mut b, mut i) = (db.db_map_string("s").unwrap(), db.db_map_bytes("b").unwrap(), db.db_map_int("i").unwrap());
        if with_base == 1 {
            for n in 0..3 { s.put_kt(&DbString::from(key3(n).as_slice()), b"base").unwrap(); ms.put(&key3(n), b"base"); b.put_kt(&DbBytes::from(key3(n).as_slice()), b"base").unwrap(); mb.put(&key3(n), b"base"); i.put_kt(&DbInt::from(key3i(n).as_slice()), b"base").unwrap(); mi.put(&key3i(n), b"base"); }
            check!(db.sync_all().is_ok());
        }
        for n in 0..nops {
            let w = choice(3);
            match choice(3) {
                0 => change::<DbString, _>(&mut s, &mut ms, &key3(w), n as u8),
                1 => change::<DbBytes, _>(&mut b, &mut mb, &key3(w), n as u8),
                _ => change::<DbInt, _>(&mut i, &mut mi, &key3i(w), n as u8),
            }
        }
        if choice(2) == 0 { check!(db.sync_all().is_ok()) } else { check!(db.sync_data().is_ok()) }
        std::mem::forget((s, b, i));
    }
    std::mem::forget(db);
    let db = FileDb::open("db").unwrap();
    db_iter_same(&db.db_map_string("s").unwrap(), &ms);
    db_iter_same(&db.db_map_bytes("b").unwrap(), &mb);
    db_iter_same(&db.db_map_int("i").unwrap(), &mi);
    cover(1);
}

/// two maps of each type in one database; a = 0: save and reopen, 1: the save fails somewhere, 2: power loss after the save
fn six_maps(mode: u64, nops: u64) {
    use crate::rt;
    use siamesedb::DbMapKeyType;
    let db = FileDb::open("db").unwrap();
    let (mut b1, mut b2) = (db.db_map_bytes("b1").unwrap(), db.db_map_bytes("b2").unwrap());
    let (mut s1, mut s2) = (db.db_map_string("s1").unwrap(), db.db_map_string("s2").unwrap());
    let (mut i1, mut i2) = (db.db_map_int("i1").unwrap(), db.db_map_int("i2").unwrap());
    let mut md: Vec<Model> = (0..6).map(|_| Model::new()).collect();
    if choice(2) == 1 { check!(db.sync_all().is_ok()); cover(51) }
    for n in 0..nops {
        let w = choice(6) as usize;
        let k = b"kkkkkkk".iter().copied().chain([n as u8]).collect::<Vec<u8>>();
        let v = [range(0, 256) as u8, 5];
        match w { 0 => b1.put_kt(&DbBytes::from_bytes(&k), &v), 1 => b2.put_kt(&DbBytes::from_bytes(&k), &v), 2 => s1.put_kt(&DbString::from_bytes(&k), &v), 3 => s2.put_kt(&DbString::from_bytes(&k), &v), 4 => i1.put_kt(&DbInt::from_bytes(&k), &v), _ => i2.put_kt(&DbInt::from_bytes(&k), &v) }.unwrap();
        md[w].put(&k, &v);
    }
    if mode == 1 { unsafe { rt::sym_fault([1, 4, 39][choice(3) as usize], choice(26)) } }
    let r = if choice(2) == 0 { db.sync_all() } else { db.sync_data() };
    let fired = unsafe { rt::sym_fired() } > 0;
    unsafe { rt::sym_fault(0, 0) };
    if fired { cover(80) }
    trace(r.is_ok() as u64);
    check!(r.is_ok() == !fired);
    if r.is_err() {
        cover(81);
        let r = if choice(2) == 0 { db.sync_all() } else { db.sync_data() };
        check!(r.is_ok());
    }
    std::mem::forget((b1, b2, s1, s2, i1, i2, db));
    if mode == 2 { unsafe { rt::sym_crash() } }
    let db = FileDb::open("db").unwrap();
    db_iter_same(&db.db_map_bytes("b1").unwrap(), &md[0]);
    db_iter_same(&db.db_map_bytes("b2").unwrap(), &md[1]);
    db_iter_same(&db.db_map_string("s1").unwrap(), &md[2]);
    db_iter_same(&db.db_map_string("s2").unwrap(), &md[3]);
    db_iter_same(&db.db_map_int("i1").unwrap(), &md[4]);
    db_iter_same(&db.db_map_int("i2").unwrap(), &md[5]);
    cover(1);
}
/// large records, free and used, across a reopening and one more change
fn persist_pieces(released: u64, reused: u64, of_keys: u64, hash: u64) {
    let (mut m, mut md) = pieces(released, reused, of_keys, hash);
    base_sync(&mut m, choice(3));
    std::mem::forget(m);
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    let big = [900, 1500, 4000][choice(3) as usize];
    let (k, v) = if of_keys == 1 { (vec![b'z'; big], vec![5u8; 2]) } else { (vec![b'z'], vec![5u8; big]) };
    if choice(2) == 0 { check!(m.put_kt(&K(k.clone()), &v).is_ok()); md.put(&k, &v); }
    else if md.len() > 0 { let k = md.e[0].0.clone(); let r = m.del_kt(&K(k.clone())).unwrap(); check!(eq_opt(&r, &md.del(&k))); }
    base_sync(&mut m, choice(3));
    std::mem::forget(m);
    let m = open();
    contents_same(&m, &md);
    let d = disk("m", true);
    disk_same(&d, &md);
    cover(1);
}

// ---------------------------------------------------------------- C08
/// batches of many lengths in several orders, with repetitions
fn bulk_long(upto: u64, ty: u64) {
    const N: [u64; 16] = [16, 20, 21, 31, 32, 33, 50, 63, 64, 65, 127, 128, 255, 256, 257, 300];
    let n = if upto > 0 { upto } else { N[choice(16) as usize] };
    let db = FileDb::open("db").unwrap();
    let mem = siamesedb::open_memory();
    if ty == 0 {
        let _ = db.db_map_int("m").unwrap();
        drop(db);
        set_slots("m", 1024);
        let db = FileDb::open("db").unwrap();
        let mut m = db.db_map_int("m").unwrap();
        long_on(&mut m, n)
    } else { let mut m = mem.db_map_dbint("m"); long_on(&mut m, n) }
    cover(1);
}
fn long_on<X: DbXxx<DbInt>>(m: &mut X, n: u64) {
    let ord = choice(3);
    let distinct = if choice(2) == 0 { n } else { n / 2 + 1 };
    let ks: Vec<u64> = (0..n).map(|i| match ord { 0 => i % distinct, 1 => (n - 1 - i) % distinct, _ => (i * 7919) % distinct }).collect();
    let mut md: Vec<Option<Vec<u8>>> = vec![None; n as usize + 2];
    let vals: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8, (i >> 8) as u8, (i >> 16) as u8]).collect();
    let pairs: Vec<(&u64, &[u8])> = ks.iter().zip(vals.iter()).map(|(k, v)| (k, v.as_slice())).collect();
    check!(m.bulk_put(&pairs).is_ok());
    for (k, v) in ks.iter().zip(vals.iter()) { md[*k as usize] = Some(v.clone()); }
    let x = choice(3);
    let x = [0, n / 2, n][x as usize];
    let mut qs = ks.clone();
    qs.push(x);
    let refs: Vec<&u64> = qs.iter().collect();
    let r = m.bulk_get(&refs).unwrap();
    check!(r.len() == qs.len());
    for (k, r) in qs.iter().zip(r.iter()) { check!(*r == md[*k as usize]); }
    let r = m.bulk_delete(&refs).unwrap();
    check!(r.len() == qs.len());
    for (k, r) in qs.iter().zip(r.iter()) { trace(r.is_some() as u64); check!(*r == md[*k as usize].take()); }
    for k in 0..n { check!(m.get(&k).unwrap().is_none()); }
}
/// n pairs in one bulk put, then a bulk get and a bulk delete, with repeated keys, against the single operations
fn bulk(n: u64, keys: u64, base: u64, ty: u64) {
    let db = FileDb::open("db").unwrap();
    let mem = siamesedb::open_memory();
    match ty {
        0 => {
            let _ = db.db_map_int("m").unwrap();
            drop(db);
            set_slots("m", 2);
            let db = FileDb::open("db").unwrap();
            let mut m = db.db_map_int("m").unwrap();
            bulk_on(&mut m, n, keys, base);
            db_trace(&m)
        }
        1 => { let mut m = mem.db_map_dbint("m"); bulk_on(&mut m, n, keys, base) }
        _ => { let mut m = mem.db_map_bytes("m"); bulk_on(&mut m, n, keys, base) }
    }
    cover(1);
}
fn db_trace<KT: siamesedb::DbMapKeyType>(m: &siamesedb::filedb::FileDbMap<KT>) { for (k, v) in m.iter() { trace_bytes(k.as_bytes()); trace_bytes(&v) } }
fn bulk_on<KT: siamesedb::DbMapKeyType + for<'x> From<&'x u64>, X: DbXxx<KT>>(m: &mut X, n: u64, keys: u64, base: u64) {
    let mut md = Model::new();
    let kb = |k: u64| KT::from(&k).as_bytes().to_vec();
    for i in 0..base { let k = 300 + i; m.put(&k, &[i as u8, 9]).unwrap(); md.put(&kb(k), &[i as u8, 9]); }
    let pick = || { let mut v: Vec<u64> = vec![]; for _ in 0..n { v.push(if keys == 0 { any_u64() } else { 300 + range(0, keys) }); } v };
    let what = choice(3);
    cover(60 + what);
    let ks = pick();
    if what == 0 {
    let vals: Vec<Vec<u8>> = (0..n).map(|i| sym_value(i as u8, 2 + i as usize)).collect();
    {
        let pairs: Vec<(&u64, &[u8])> = ks.iter().zip(vals.iter()).map(|(k, v)| (k, v.as_slice())).collect();
        check!(m.bulk_put(&pairs).is_ok());
    }
    for (k, v) in ks.iter().zip(vals.iter()) { md.put(&kb(*k), v); }
    for (k, v) in &md.e { let r = m.get_kt(&KT::from_bytes(k)).unwrap(); check!(r.is_some()); check!(r.unwrap().as_slice() == v.as_slice()); }
    }
    if what == 1 {
        let refs: Vec<&u64> = ks.iter().collect();
        let r = m.bulk_get(&refs).unwrap();
        check!(r.len() == ks.len());
        for (k, r) in ks.iter().zip(r.iter()) { trace_opt(r); let e = md.get(&kb(*k)); check!(r.is_some() == e.is_some()); check!(eq_opt(r, &e)); }
    }
    if what == 2 {
        let refs: Vec<&u64> = ks.iter().collect();
        let r = m.bulk_delete(&refs).unwrap();
        check!(r.len() == ks.len());
        for (k, r) in ks.iter().zip(r.iter()) { trace_opt(r); let e = md.del(&kb(*k)); check!(r.is_some() == e.is_some()); check!(eq_opt(r, &e)); }
    }
    let last = [if keys == 0 { any_u64() } else { 300 + range(0, keys) }];
    for k in &last { let r = m.get(k).unwrap(); let e = md.get(&kb(*k)); check!(r.is_some() == e.is_some()); check!(eq_opt(&r, &e)); }
}
/// bulk calls over a tree of `base` keys; every key of the batch is symbolic
fn bulk_keys(n: u64, base: u64, order: u64, hash: u64) {
    let (mut m, mut md) = prepare(base, 0, order, hash);
    let pick = || -> Vec<Vec<u8>> { (0..n).map(|_| sym_key((base as usize).max(2))).collect() };
    let what = choice(3);
    if what == 0 {
        let ks = pick();
        let vals: Vec<Vec<u8>> = (0..n).map(|i| sym_value(i as u8, 2 + 20 * i as usize)).collect();
        let pairs: Vec<(&[u8], &[u8])> = ks.iter().zip(vals.iter()).map(|(k, v)| (k.as_slice(), v.as_slice())).collect();
        check!(m.bulk_put(&pairs).is_ok());
        for (k, v) in ks.iter().zip(vals.iter()) { md.put(k, v); }
    } else {
        let ks = pick();
        let refs: Vec<&[u8]> = ks.iter().map(|k| k.as_slice()).collect();
        let r = if what == 1 { m.bulk_get(&refs) } else { m.bulk_delete(&refs) };
        check!(r.is_ok());
        let r = r.unwrap();
        check!(r.len() == ks.len());
        for (k, r) in ks.iter().zip(r.iter()) {
            trace_opt(r);
            let e = if what == 1 { md.get(k) } else { md.del(k) };
            check!(r.is_some() == e.is_some());
            check!(eq_opt(r, &e));
        }
    }
    cover(60 + what);
    contents_same(&m, &md);
    all_found(&mut m, &md);
    let k = sym_key((base as usize).max(2));
    probe(&mut m, &md, k);
    cover(1);
}
/// the string variants, on file and memory maps
fn bulk_strings(n: u64, ty: u64) {
    let db = FileDb::open("db").unwrap();
    let mem = siamesedb::open_memory();
    match ty {
        0 => { let mut m = db.db_map_string("m").unwrap(); strings_on(&mut m, n); db_trace(&m) }
        1 => { let mut m = mem.db_map_string("m"); strings_on(&mut m, n) }
        _ => { let mut m = db.db_map_bytes("m").unwrap(); strings_on(&mut m, n); db_trace(&m) }
    }
    cover(1);
}
const WORDS: [&str; 5] = ["", "b", "ab", "a", "\u{e9}t\u{e9}"];
fn strings_on<KT: siamesedb::DbMapKeyType + for<'x> From<&'x str>, X: DbXxx<KT>>(m: &mut X, n: u64) {
    let mut md: Vec<(usize, String)> = vec![];
    fn put(md: &mut Vec<(usize, String)>, k: usize, v: &str) { match md.iter().position(|x| x.0 == k) { Some(p) => md[p].1 = v.to_string(), None => md.push((k, v.to_string())) } }
    m.put_string(WORDS[1], "one").unwrap();
    put(&mut md, 1, "one");
    let pick = || { let mut v: Vec<usize> = vec![]; for _ in 0..n { v.push(choice(WORDS.len() as u64) as usize); } v };
    let ks = pick();
    let pairs: Vec<(&str, String)> = ks.iter().enumerate().map(|(i, k)| (WORDS[*k], format!("v{}\u{e8}", i))).collect();
    check!(m.bulk_put_string(&pairs).is_ok());
    for (i, k) in ks.iter().enumerate() { put(&mut md, *k, &pairs[i].1); }
    for (k, v) in &md { let r = m.get_string(WORDS[*k]).unwrap(); check!(r.as_deref() == Some(v.as_str())); }
    let ks = pick();
    let refs: Vec<&str> = ks.iter().map(|k| WORDS[*k]).collect();
    let r = m.bulk_get_string(&refs).unwrap();
    check!(r.len() == ks.len());
    for (k, r) in ks.iter().zip(r.iter()) { let e = md.iter().find(|x| x.0 == *k).map(|x| x.1.as_str()); check!(r.as_deref() == e); }
    let ks = pick();
    let refs: Vec<&str> = ks.iter().map(|k| WORDS[*k]).collect();
    let r = m.bulk_delete_string(&refs).unwrap();
    check!(r.len() == ks.len());
    for (k, r) in ks.iter().zip(r.iter()) {
        let e = md.iter().position(|x| x.0 == *k).map(|p| md.remove(p).1);
        check!(r.as_deref() == e.as_deref());
        trace(r.is_some() as u64);
    }
    for k in 0..WORDS.len() { let r = m.get_string(WORDS[k]).unwrap(); let e = md.iter().find(|x| x.0 == k).map(|x| x.1.as_str()); check!(r.as_deref() == e); }
}
/// long batches (sorting algorithms change with the length): a fixed list with two symbolic entries
fn bulk_many(n: u64, ty: u64) {
    let db = FileDb::open("db").unwrap();
    let mem = siamesedb::open_memory();
    if ty == 0 { let mut m = db.db_map_int("m").unwrap(); many_on(&mut m, n); } else { let mut m = mem.db_map_dbint("m"); many_on(&mut m, n); }
    cover(1);
}
fn many_on<X: DbXxx<DbInt>>(m: &mut X, n: u64) {
    let mut md: Vec<Option<Vec<u8>>> = vec![None; 64];
    let mut ks: Vec<u64> = (0..n).map(|i| (i * 7 + i / 5) % 24).collect();
    let (p, q) = (choice(n) as usize, choice(4) as usize);
    ks[p] = choice(24);
    ks[q] = 3;
    let vals: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; 3]).collect();
    let pairs: Vec<(&u64, &[u8])> = ks.iter().zip(vals.iter()).map(|(k, v)| (k, v.as_slice())).collect();
    check!(m.bulk_put(&pairs).is_ok());
    for (k, v) in ks.iter().zip(vals.iter()) { md[*k as usize] = Some(v.clone()); }
    let refs: Vec<&u64> = ks.iter().collect();
    let r = m.bulk_get(&refs).unwrap();
    check!(r.len() == ks.len());
    for (k, r) in ks.iter().zip(r.iter()) { check!(*r == md[*k as usize]); }
    let r = m.bulk_delete(&refs).unwrap();
    check!(r.len() == ks.len());
    for (k, r) in ks.iter().zip(r.iter()) { trace(r.is_some() as u64); check!(*r == md[*k as usize].take()); }
    for k in 0..24u64 { check!(m.get(&k).unwrap().is_none()); }
}

// ---------------------------------------------------------------- C09
const NAMES: [&str; 15] = ["a.b.c", "a1", "a.htx.key", "a", "b", "A", "a.key", "a.b", "", "ab", "a b", "\u{e9}", "a-b", "map_1", "a.idx"];
/// two maps of the same database with any two different names, of the same or different types
fn several_maps(nops: u64, ty: u64) {
    let db = FileDb::open("db").unwrap();
    let (n1, n2) = (choice(NAMES.len() as u64) as usize, choice(NAMES.len() as u64) as usize);
    assume(n1 != n2);
    let (mut d1, mut d2) = (Model::new(), Model::new());
    let mut x = db.db_map_bytes(NAMES[n1]).unwrap();
    macro_rules! go { ($open:ident, $kt:ty) => {{
        let mut y = db.$open(NAMES[n2]).unwrap();
        for n in 0..nops {
            let k = key3(choice(2));
            if choice(2) == 0 { change::<DbBytes, _>(&mut x, &mut d1, &k, n as u8) } else { change::<$kt, _>(&mut y, &mut d2, &k, n as u8) }
        }
        db_iter_same(&x, &d1);
        db_iter_same(&y, &d2);
        if choice(2) == 0 { check!(db.sync_all().is_ok()) } else { check!(db.sync_data().is_ok()) }
        check!(!x.is_dirty());
        check!(!y.is_dirty());
        std::mem::forget((x, y, db));
        let db = FileDb::open("db").unwrap();
        db_iter_same(&db.db_map_bytes(NAMES[n1]).unwrap(), &d1);
        db_iter_same(&db.$open(NAMES[n2]).unwrap(), &d2);
    }} }
    match ty { 0 => go!(db_map_bytes, DbBytes), 1 => go!(db_map_string, DbString), _ => go!(db_map_int, DbInt) }
    cover(1);
}
/// the same map name in two databases, one inside a directory of the other
fn two_dbs(nops: u64) {
    let path2 = ["db2", "db/sub", "db/m"][choice(3) as usize];
    let (da, db) = (FileDb::open("db").unwrap(), FileDb::open(path2).unwrap());
    check!(db.path() == std::path::Path::new(path2));
    let (mut x, mut y) = (da.db_map_bytes("m").unwrap(), db.db_map_bytes("m").unwrap());
    let (mut d1, mut d2) = (Model::new(), Model::new());
    for n in 0..nops {
        let k = key3(choice(2));
        if choice(2) == 0 { change::<DbBytes, _>(&mut x, &mut d1, &k, n as u8) } else { change::<DbBytes, _>(&mut y, &mut d2, &k, n as u8) }
    }
    db_iter_same(&x, &d1);
    db_iter_same(&y, &d2);
    check!(da.sync_all().is_ok());
    std::mem::forget((x, da));
    check!(db.sync_data().is_ok());
    std::mem::forget((y, db));
    db_iter_same(&FileDb::open("db").unwrap().db_map_bytes("m").unwrap(), &d1);
    db_iter_same(&FileDb::open(path2).unwrap().db_map_bytes("m").unwrap(), &d2);
    cover(1);
}
/// integer keys over all 64 bits on two maps of one database, a map of the first one's name in another database, and a second handle
fn isolated_int(nops: u64, slots: u64) {
    const AT: [(&str, &str); 3] = [("db", "x"), ("db", "y"), ("db2", "x")];
    for (d, n) in AT { let _ = FileDb::open(d).unwrap().db_map_int(n).unwrap(); set_slots_in(d, n, slots); }
    let (da, db) = (FileDb::open("db").unwrap(), FileDb::open("db2").unwrap());
    let mut hs = vec![da.db_map_int("x").unwrap(), da.db_map_int("y").unwrap(), db.db_map_int("x").unwrap(), da.clone().db_map_int("x").unwrap()];
    let mut md: [Vec<(u64, Vec<u8>)>; 3] = Default::default();
    let mut ks: Vec<u64> = vec![];
    for i in 0..nops {
        let (h, k) = (choice(4) as usize, any_u64());
        let at = md[h % 3].iter().position(|e| e.0 == k);
        if choice(2) == 0 {
            let v = sym_value(i as u8, 3);
            check!(hs[h].put(&k, &v).is_ok());
            match at { Some(p) => md[h % 3][p].1 = v, None => md[h % 3].push((k, v)) }
            cover(10);
        } else {
            let r = hs[h].delete(&k).unwrap();
            trace_opt(&r);
            let e = at.map(|p| md[h % 3].remove(p).1);
            check!(eq_opt(&r, &e));
            cover(if e.is_some() { 11 } else { 12 });
        }
        ks.push(k);
    }
    for (h, m) in hs.iter_mut().enumerate() { for k in &ks {
        let r = m.get(k).unwrap();
        trace_opt(&r);
        check!(eq_opt(&r, &md[h % 3].iter().find(|e| e.0 == *k).map(|e| e.1.clone())));
    } }
    check!(da.sync_all().is_ok());
    check!(db.sync_data().is_ok());
    std::mem::forget((hs, da, db));
    for (h, (d, n)) in AT.iter().enumerate() {
        let m = FileDb::open(d).unwrap().db_map_int(n).unwrap();
        md[h].sort();
        let mut it = m.iter();
        for (k, v) in &md[h] { let x = it.next().unwrap(); check!(x.0 == DbInt::from(*k)); check!(x.1.as_slice() == v.as_slice()); }
        check!(it.next().is_none());
    }
    cover(1);
}
/// handles of one map obtained in every way, through clones of the database
fn handles(nops: u64, ty: u64) {
    let db = FileDb::open("db").unwrap();
    let db2 = db.clone();
    macro_rules! go { ($open:ident, $openp:ident, $kt:ty) => {{
        let h1 = db.$open("m").unwrap();
        let mut hs = vec![h1.clone(), db.$open("m").unwrap(), db2.$open("m").unwrap(), db.$openp("m", params_no(1)).unwrap(), h1];
        let mut md = Model::new();
        for n in 0..nops {
            let k = key3(choice(2));
            let h = choice(hs.len() as u64) as usize;
            change::<$kt, _>(&mut hs[h], &mut md, &k, n as u8);
            let g = choice(2) as usize * 3;
            let r = hs[g].get_kt(&<$kt as siamesedb::DbMapKeyType>::from_bytes(&k)).unwrap();
            check!(eq_opt(&r, &md.get(&k)));
        }
        for h in &hs { db_iter_same(h, &md); }
        let h = choice(hs.len() as u64) as usize;
        base_sync(&mut hs[h], choice(3));
        for h in &hs { check!(!h.is_dirty()); }
        std::mem::forget((hs, db, db2));
        db_iter_same(&FileDb::open("db").unwrap().$open("m").unwrap(), &md);
    }} }
    match ty { 0 => go!(db_map_bytes, db_map_bytes_with_params, DbBytes), 1 => go!(db_map_string, db_map_string_with_params, DbString), _ => go!(db_map_int, db_map_int_with_params, DbInt) }
    cover(1);
}

// ---------------------------------------------------------------- C10
const EXT: [&str; 4] = ["key", "val", "idx", "htx"];
fn snaps() -> Vec<u64> { EXT.iter().map(|e| snap(&format!("db/m.{}", e))).collect() }
fn unchanged(s: &[u64]) { for (i, e) in EXT.iter().enumerate() { check!(same(s[i], &format!("db/m.{}", e))); } }
fn refused<T>(f: impl FnOnce() -> std::io::Result<T>) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(Ok(x)) => { std::mem::forget(x); false } _ => true }
}
/// any change of the sixteen signature bytes of any of the four files
fn bad_header(n: u64, whole: u64) {
    HASH_MODE.store(0, Relaxed);
    let mut md = Model::new();
    { let mut m = open(); fill(&mut m, &mut md, n as usize, 0); check!(m.sync_all().is_ok()); }
    let w = choice(4) as usize;
    let f = format!("db/m.{}", EXT[w]);
    let mut h = load("m", EXT[w])[..16].to_vec();
    let old = h.clone();
    if whole == 1 { let b = bytes(8); h[..8].copy_from_slice(&b); assume(h[..8] != old[..8]); }
    else { let i = range(0, 16) as usize; let x = range(0, 256) as u8; assume(h[i] != x); h[i] = x; }
    patch(&f, 0, &h);
    let s = snaps();
    check!(refused(|| M::verif_open("db", "m", params())));
    unchanged(&s);
    patch(&f, 0, &old);
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    cover(1);
}
fn open_as(db: &FileDb, name: &str, t: u64) -> bool {
    match t { 0 => refused(|| db.db_map_string(name)), 1 => refused(|| db.db_map_bytes(name)), 2 => refused(|| db.db_map_int(name)), _ => refused(|| M::verif_open("db", name, params())) }
}
/// open a map of type A under type B; open_first: the original is still open and not yet saved
fn wrong_type(nops: u64, open_first: u64) {
    let (ta, tb) = (choice(4), choice(4));
    assume(ta != tb);
    HASH_MODE.store(0, Relaxed);
    let mut md = Model::new();
    let db = FileDb::open("db").unwrap();
    macro_rules! go { ($open:expr, $kt:ty) => {{
        let mut x = $open(&db);
        for n in 0..nops { let k = key3(choice(2)); change::<$kt, _>(&mut x, &mut md, &k, n as u8); }
        if open_first == 0 {
            check!(x.sync_all().is_ok());
            std::mem::forget(x);
            let s = snaps();
            let db2 = FileDb::open("db").unwrap();
            check!(open_as(&db2, "m", tb));
            check!(open_as(&db, "m", tb));
            unchanged(&s);
        } else {
            if choice(2) == 1 { check!(x.flush().is_ok()); cover(51); }
            check!(open_as(&db, "m", tb));
            db_iter_same(&x, &md);
            let k = key3(0);
            change::<$kt, _>(&mut x, &mut md, &k, 77);
            check!(x.sync_all().is_ok());
            std::mem::forget(x);
            check!(open_as(&db, "m", tb));
        }
        let db3 = FileDb::open("db").unwrap();
        let y = $open(&db3);
        db_iter_same(&y, &md);
    }} }
    match ta {
        0 => go!(|d: &FileDb| d.db_map_string("m").unwrap(), DbString),
        1 => go!(|d: &FileDb| d.db_map_bytes("m").unwrap(), DbBytes),
        2 => go!(|d: &FileDb| d.db_map_int("m").unwrap(), DbInt),
        _ => go!(|_: &FileDb| open(), K),
    }
    cover(1);
}
/// opening a map under its own type leaves all files alone, whatever is done with the handle besides changing it
fn own_type(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    ops(&mut m, &mut md, a, b);
    check!(m.sync_all().is_ok());
    std::mem::forget(m);
    let s = snaps();
    let mut m = open_p(params_no(choice(3)));
    match choice(4) { 0 => (), 1 => base_sync(&mut m, 1), 2 => base_sync(&mut m, 0), _ => check!(m.read_fill_buffer().is_ok()) }
    drop(m);
    unchanged(&s);
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    cover(1);
}
/// a short file, a file of something else or another file of the same map in the place of one of the four
fn foreign(len: u64, how: u64) {
    let w = choice(4) as usize;
    if how > 0 { let mut m = open(); let mut md = Model::new(); fill(&mut m, &mut md, 2, 0); check!(m.sync_all().is_ok()); }
    else { std::fs::create_dir_all("db").unwrap(); }
    let f = format!("db/m.{}", EXT[w]);
    let mut b;
    if how == 2 { let o = choice(3) as usize; b = load("m", EXT[if o >= w { o + 1 } else { o }]); b.truncate(len as usize); }
    else {
        b = bytes((len as usize).min(8));
        if len >= 8 { let ok: &[u8] = &[b"siamdbK\0", b"siamdbV\0", b"siamdbT\0", b"siamdbH\0"][w][..]; assume(b != ok); }
        b.extend_from_slice(b"verifk\0\0");
        b.resize(len.max(16) as usize, 0);
        b.truncate(len as usize);
    }
    std::fs::write(&f, &b).unwrap();
    let s = snap(&f);
    check!(refused(|| M::verif_open("db", "m", params())));
    check!(same(s, &f));
    cover(1);
}
