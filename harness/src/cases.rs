//! Histories on file maps: map semantics, tree shape, storage space, lookup table.
use crate::check;
use crate::kit::*;
use siamesedb::filedb::{DbBytes, DbInt, DbString, FileDb};
use siamesedb::{DbMap, DbXxx, DbXxxBase, DbXxxObjectSafe};
use std::sync::atomic::Ordering::Relaxed;

pub fn run(case: u64, a: u64, b: u64, c: u64, d: u64) -> bool {
    match case {
        101 => history(a, b, c, d),
        102 => real_int(a, b),
        103 => real_bytes(a, b, c),
        104 => real_string(a, b),
        106 => large_tree(a, b, c, d),
        105 => mixed_calls(a, b, c, d),
        401 => tree(a, b, c, d),
        402 => tree_every_step(a, b, c, d),
        501 => space(a, b, c, d),
        502 => cycles(a, b, c),
        503 => regrow(a, b),
        504 => key_space(a, b),
        505 => large_pieces(a, b, c, d),
        601 => any_hash(a, b, c),
        602 => lost_entries(a, b, c),
        603 => crossed(a, b),
        _ => return false,
    }
    true
}

/// the map left by a history: a = number of base keys, b = symbolic operations + 100 * value lengths + 10000 * kinds of operations, c = insertion order + 100 * thinning, d = hash mode + 100 * window + 100000 * style of the base values
pub fn prepare(a: u64, b: u64, c: u64, d: u64) -> (M, Model) {
    HASH_MODE.store(d % 100, Relaxed);
    WINDOWS.store(d / 100 % 1000, Relaxed);
    VSTYLE.store(d / 100000, Relaxed);
    let n = a as usize;
    // c = 9999: any of four insertion orders and of nine ways of thinning
    let (ord, how) = if c == 9999 { ([0, 1, 2, 5][choice(4) as usize], choice(9)) } else { (c % 100, c / 100) };
    let mut m = open();
    let mut md = Model::new();
    fill(&mut m, &mut md, n, ord);
    thin(&mut m, &mut md, n, how);
    (m, md)
}
pub fn thin(m: &mut M, md: &mut Model, n: usize, how: u64) {
    let v: Vec<usize> = match how {
        0 => vec![],
        1 => (0..n).filter(|i| i % 2 == 0).collect(),
        2 => (0..n / 2).collect(),
        3 => (n / 2..n).rev().collect(),
        4 => (0..n.saturating_sub(2)).collect(),
        5 => (0..n).collect(),
        6 => (n / 4..n - n / 4).collect(),
        7 => (0..n).filter(|i| i % 3 != 0).rev().collect(),
        _ => order(n, how).into_iter().take(n * 2 / 3).collect(),
    };
    for i in v {
        let k = base_key(i, n);
        let r = m.del_kt(&K(k.clone())).unwrap();
        let e = md.del(&k);
        check!(eq_opt(&r, &e));
    }
}
pub fn lens_of(b: u64) -> &'static [usize] {
    match b / 100 % 100 {
        0 => &[3],
        1 => &[0, 9, 30],
        2 => &LENS,
        3 => &[1, 1200],
        4 => &[120, 1000, 1016, 1017, 3000],
        5 => &[8, 9, 24, 25],
        _ => &[1, 17, 300],
    }
}
pub fn kinds_of(b: u64) -> u64 { match b / 10000 { 0 => 3, 1 => 2, 2 => 1, 3 => 10, _ => 12 } }
pub fn ops(m: &mut M, md: &mut Model, a: u64, b: u64) {
    for i in 0..b % 100 { let k = sym_key((a as usize).max(2)); step(m, md, k, 0x40 + i as u8, lens_of(b), kinds_of(b)); }
}

fn history(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    ops(&mut m, &mut md, a, b);
    let k = sym_key((a as usize).max(2));
    probe(&mut m, &md, k);
    all_found(&mut m, &md);
    check!(md.len() as u64 <= a + b % 100);
    cover(1);
}

/// integer maps with keys over the whole 64-bit range; b = slots of the lookup table
fn real_int(nops: u64, slots: u64) {
    { let db = FileDb::open("db").unwrap(); let _ = db.db_map_int("m").unwrap(); }
    set_slots("m", slots);
    let db = FileDb::open("db").unwrap();
    let mut m = db.db_map_int("m").unwrap();
    let mut md: Vec<(u64, Vec<u8>)> = vec![];
    for i in 0..nops {
        let k = any_u64();
        let at = md.iter().position(|e| e.0 == k);
        match choice(3) {
            0 => {
                let v = sym_value(i as u8, 3);
                check!(m.put(&k, &v).is_ok());
                match at { Some(p) => md[p].1 = v, None => md.push((k, v)) }
                cover(10);
            }
            1 => {
                let r = m.delete(&k).unwrap();
                trace_opt(&r);
                let e = at.map(|p| md.remove(p).1);
                check!(r.is_some() == e.is_some());
                check!(eq_opt(&r, &e));
            }
            _ => {
                let r = m.get(&k).unwrap();
                trace_opt(&r);
                let e = at.map(|p| md[p].1.clone());
                check!(r.is_some() == e.is_some());
                check!(eq_opt(&r, &e));
                if at.is_some() { cover(13) }
            }
        }
    }
    for (k, v) in &md { let r = m.get(k).unwrap(); check!(r.is_some()); check!(r.unwrap().as_slice() == v.as_slice()); }
    // ascending numeric order
    md.sort();
    let mut it = m.iter();
    for (k, v) in &md {
        let x = it.next();
        check!(x.is_some());
        let (ik, iv) = x.unwrap();
        check!(ik == DbInt::from(*k));
        check!(iv.as_slice() == v.as_slice());
    }
    check!(it.next().is_none());
    cover(1);
}
/// byte-string maps with symbolic keys of symbolic length up to `maxlen`
fn real_bytes(nops: u64, slots: u64, maxlen: u64) {
    { let db = FileDb::open("db").unwrap(); let _ = db.db_map_bytes("m").unwrap(); }
    set_slots("m", slots);
    let db = FileDb::open("db").unwrap();
    let mut m = db.db_map_bytes("m").unwrap();
    let mut md = Model::new();
    for i in 0..nops {
        let k = bytes(choice(maxlen + 1) as usize);
        let kb: DbBytes = DbBytes::from(k.as_slice());
        match choice(3) {
            0 => { let v = sym_value(i as u8, 2); check!(m.put_kt(&kb, &v).is_ok()); md.put(&k, &v); cover(10); }
            1 => { let r = m.del_kt(&kb).unwrap(); trace_opt(&r); let e = md.del(&k); check!(eq_opt(&r, &e)); }
            _ => { let r = m.get_kt(&kb).unwrap(); trace_opt(&r); let e = md.get(&k); check!(eq_opt(&r, &e)); if e.is_some() { cover(13) } }
        }
    }
    let mut it = m.iter();
    for (k, v) in &md.e {
        let x = it.next();
        check!(x.is_some());
        let (ik, iv) = x.unwrap();
        check!(ik == DbBytes::from(k.as_slice()));
        check!(iv.as_slice() == v.as_slice());
    }
    check!(it.next().is_none());
    cover(1);
}
/// string maps through the string calls, ASCII keys of up to two symbolic letters
fn real_string(nops: u64, slots: u64) {
    { let db = FileDb::open("db").unwrap(); let _ = db.db_map_string("m").unwrap(); }
    set_slots("m", slots);
    let db = FileDb::open("db").unwrap();
    let mut m = db.db_map_string("m").unwrap();
    let mut md = Model::new();
    for _ in 0..nops {
        let k: Vec<u8> = (0..choice(2) + 1).map(|_| range(97, 123) as u8).collect();
        let ks: String = unsafe { String::from_utf8_unchecked(k.clone()) };
        match choice(3) {
            0 => { let v = ["", "x", "value-2"][choice(3) as usize]; check!(m.put_string(ks.as_str(), v).is_ok()); md.put(&k, v.as_bytes()); cover(10); }
            1 => { let r = m.delete_string(ks.as_str()).unwrap().map(|s| s.into_bytes()); trace_opt(&r); let e = md.del(&k); check!(eq_opt(&r, &e)); }
            _ => { let r = m.get_string(ks.as_str()).unwrap().map(|s| s.into_bytes()); trace_opt(&r); let e = md.get(&k); check!(eq_opt(&r, &e)); if e.is_some() { cover(13) } }
        }
    }
    for (k, v) in &md.e { let r = m.get_kt(&DbString::from(k.as_slice())).unwrap(); check!(r.is_some()); check!(r.unwrap().as_slice() == v.as_slice()); }
    cover(1);
}
/// lookups, flushes, syncs, iteration and buffer fills between the changes of a history
fn mixed_calls(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    for i in 0..b % 100 {
        let k = sym_key((a as usize).max(2));
        step(&mut m, &mut md, k, 0x40 + i as u8, lens_of(b), kinds_of(b));
        match choice(6) {
            0 => check!(m.flush().is_ok()),
            1 => check!(m.sync_all().is_ok()),
            2 => check!(m.sync_data().is_ok()),
            3 => check!(m.read_fill_buffer().is_ok()),
            4 => if md.len() > 0 { contents_same(&m, &md) },
            _ => (),
        }
    }
    let k = sym_key((a as usize).max(2));
    probe(&mut m, &md, k);
    all_found(&mut m, &md);
    cover(1);
}

/// thousands of keys: b = number of symbolic operations near the lowest, middle and highest key + 100 * what is checked afterwards + 10000 * kinds
fn large_tree(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, 0, c, d);
    for i in 0..b % 10 { let k = sym_key(a as usize); step(&mut m, &mut md, k, 0x40 + i as u8, &[2, 700], kinds_of(b)); }
    match b / 100 % 100 {
        0 => { let k = sym_key(a as usize); probe(&mut m, &md, k); for i in 0..20 { let j = i * (md.len() - 1) / 19; let k = md.e[j].0.clone(); probe(&mut m, &md, k); } }
        1 => contents_same(&m, &md),
        2 => { base_sync(&mut m, choice(3)); std::mem::forget(m); m = open(); contents_same(&m, &md); let k = sym_key(a as usize); step(&mut m, &mut md, k, 9, &[2], 2); tree_ok(&mut m, &md) }
        3 => tree_ok(&mut m, &md),
        4 => { space_ok(&mut m, &md); }
        _ => { check!(m.sync_all().is_ok()); let d = disk("m", true); crate::cases3::reports_match(&m, &d, 0) }
    }
    cover(1);
}

// ---------------------------------------------------------------- C04
pub fn tree_ok(m: &mut M, md: &Model) {
    reports_ok(m);
    check!(m.flush().is_ok());
    // make sure the bytes reach the file whatever the dirty flag says
    check!(m.sync_all().is_ok());
    let d = disk("m", false);
    disk_same(&d, md);
    trace(d.depth as u64);
    trace(d.nodes.len() as u64);
    check!(siamesedb::filedb::CheckFileDbMap::depth_of_node_tree(m).unwrap() == d.depth as u64);
    cover(100 + d.depth as u64);
}
fn tree(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    ops(&mut m, &mut md, a, b);
    tree_ok(&mut m, &md);
    cover(1);
}
fn tree_every_step(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    for i in 0..b % 100 {
        let k = sym_key((a as usize).max(2));
        step(&mut m, &mut md, k, 0x40 + i as u8, lens_of(b), kinds_of(b));
        tree_ok(&mut m, &md);
    }
    cover(1);
}

// ---------------------------------------------------------------- C05
pub fn space_ok(m: &mut M, md: &Model) -> Disk {
    check!(m.sync_all().is_ok());
    let d = disk("m", true);
    disk_same(&d, md);
    d
}
fn space(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, b, c, d);
    for i in 0..b % 100 {
        let k = sym_key((a as usize).max(2));
        step(&mut m, &mut md, k, 0x40 + i as u8, lens_of(b), kinds_of(b));
    }
    let d = space_ok(&mut m, &md);
    for l in d.len { trace(l) }
    if d.free_val.iter().any(|x| *x > 0) { cover(20) }
    if d.free_key.iter().any(|x| *x > 0) { cover(21) }
    if d.free_node.iter().any(|x| *x > 0) { cover(22) }
    all_found(&mut m, &md);
    cover(1);
}
/// the same put/delete cycle again and again must not make the files grow
fn cycles(n: u64, lens: u64, hash: u64) {
    HASH_MODE.store(hash, Relaxed);
    let mut m = open();
    let mut md = Model::new();
    fill(&mut m, &mut md, 3, 0);
    let l = lens_of(lens * 100);
    let sizes: Vec<usize> = (0..n).map(|_| l[choice(l.len() as u64) as usize]).collect();
    let ord = choice(2);
    let mut first = [0u64; 3];
    for round in 0..4 {
        for i in 0..n as usize { let k = vec![101 + 2 * i as u8]; let v = vec![round as u8; sizes[i]]; m.put_kt(&K(k.clone()), &v).unwrap(); md.put(&k, &v); }
        for i in 0..n as usize { let i = if ord == 0 { i } else { n as usize - 1 - i }; let k = vec![101 + 2 * i as u8]; let r = m.del_kt(&K(k.clone())).unwrap(); let e = md.del(&k); check!(eq_opt(&r, &e)); }
        let d = space_ok(&mut m, &md);
        // the first round may still enlarge the files, as may the second if the order of the free lists matters
        if round == 1 { first = d.len }
        if round > 1 { for i in 0..3 { check!(d.len[i] <= first[i]); } }
    }
    cover(1);
}
/// alternate one value between two lengths: after the first rounds nothing grows any more
fn regrow(lens: u64, hash: u64) {
    HASH_MODE.store(hash, Relaxed);
    let mut m = open();
    let mut md = Model::new();
    fill(&mut m, &mut md, 2, 0);
    let l = lens_of(lens * 100);
    let s = [l[choice(l.len() as u64) as usize], l[choice(l.len() as u64) as usize]];
    let mut first = [0u64; 3];
    for round in 0..4 {
        for j in 0..2 {
            let k = base_key(0, 2);
            let v = vec![7u8; s[j]];
            m.put_kt(&K(k.clone()), &v).unwrap();
            md.put(&k, &v);
            let k = vec![90u8];
            m.put_kt(&K(k.clone()), &v).unwrap();
            md.put(&k, &v);
            if j == 1 { m.del_kt(&K(k.clone())).unwrap(); md.del(&k); }
        }
        let d = space_ok(&mut m, &md);
        if round == 1 { first = d.len }
        if round > 1 { for i in 0..3 { check!(d.len[i] <= first[i]); } }
    }
    cover(1);
}
/// key records of many sizes released and used again
fn key_space(nops: u64, hash: u64) {
    HASH_MODE.store(hash, Relaxed);
    let mut m = open();
    let mut md = Model::new();
    const L: [usize; 6] = [0, 1, 8, 9, 1000, 1100];
    for i in 0..nops {
        let mut k = vec![b'k'; L[choice(6) as usize]];
        if !k.is_empty() { k[0] = range(0, 2) as u8; }
        step(&mut m, &mut md, k, i as u8, &[2], 2);
    }
    space_ok(&mut m, &md);
    cover(1);
}

/// large free pieces of several sizes, released in any order, then reused for contents of any of some sizes; `of_keys`: large keys instead of large values
pub fn pieces(released: u64, reused: u64, of_keys: u64, hash: u64) -> (M, Model) {
    HASH_MODE.store(hash, Relaxed);
    const L: [usize; 4] = [1100, 5000, 3000, 2000];
    const R: [usize; 6] = [1000, 1100, 1900, 2900, 4900, 6000];
    let mut m = open();
    let mut md = Model::new();
    let kv = |i: usize, len: usize| { let mut k = vec![b'a' + i as u8]; let mut v = vec![i as u8; if of_keys == 1 { 3 } else { len }]; if of_keys == 1 { k.resize(len, b'.') } else { v[len - 1] = 0xee } (k, v) };
    let mut left: Vec<Vec<u8>> = vec![];
    for (i, l) in L.iter().enumerate() { let (k, v) = kv(i, *l); m.put_kt(&K(k.clone()), &v).unwrap(); md.put(&k, &v); left.push(k); }
    for _ in 0..released { let k = left.remove(choice(left.len() as u64) as usize); let r = m.del_kt(&K(k.clone())).unwrap(); let e = md.del(&k); check!(eq_opt(&r, &e)); }
    for i in 0..reused as usize { let (k, v) = kv(8 + i, R[choice(6) as usize]); m.put_kt(&K(k.clone()), &v).unwrap(); md.put(&k, &v); }
    (m, md)
}
fn large_pieces(released: u64, reused: u64, of_keys: u64, hash: u64) {
    let (mut m, md) = pieces(released, reused, of_keys, hash);
    let d = space_ok(&mut m, &md);
    for l in d.len { trace(l) }
    all_found(&mut m, &md);
    cover(1);
}

// ---------------------------------------------------------------- C06
/// every assignment of lookup slots (0..c) to eight keys; symbolic operations over those keys
fn any_hash(nops: u64, keys: u64, slots: u64) {
    HASH_MODE.store(9, Relaxed);
    // slots = 0: numbers at the ends of the range and around the size of the table, two of them in one slot
    if slots == 0 { for i in 0..keys as usize { set_hash(i, [0, u64::MAX, 16 * 1024 * 1024 - 1, 16 * 1024 * 1024, 1 << 63, 1 << 32][choice(6) as usize]); } }
    else { for i in 0..keys as usize { set_hash(i, range(0, slots)); } }
    let key = |i: u64| match i { 0 => vec![], 2 => vec![1, 2], _ => vec![i as u8] };
    let mut m = open();
    let mut md = Model::new();
    for i in 0..nops {
        let k = key(choice(keys));
        step(&mut m, &mut md, k, 0x40 + i as u8, &[2, 40], 3);
    }
    for i in 0..keys { probe(&mut m, &md, key(i)); }
    cover(1);
}
/// entries of the lookup table that are missing (any subset of the slots is cleared while the map is closed)
fn lost_entries(n: u64, nops: u64, hash: u64) {
    HASH_MODE.store(hash, Relaxed);
    let mut md = Model::new();
    {
        let mut m = open();
        fill(&mut m, &mut md, n as usize, 0);
        check!(m.sync_all().is_ok());
    }
    let mut slots: Vec<u64> = vec![];
    for i in 0..n as usize {
        let h = siamesedb::HashValue::hash_value(&K(base_key(i, n as usize)));
        if !slots.contains(&h) { slots.push(h); if choice(2) == 1 { patch("db/m.htx", 128 + 8 * h, &[0u8; 8]); cover(30); } }
    }
    let mut m = open();
    for i in 0..nops { let k = sym_key(n as usize); step(&mut m, &mut md, k, 0x40 + i as u8, &[3, 60], 3); }
    let k = sym_key(n as usize);
    probe(&mut m, &md, k);
    all_found(&mut m, &md);
    cover(1);
}
/// keys sharing a slot, with values that move, deleted and inserted again around a reopening
fn crossed(nops: u64, hash: u64) {
    HASH_MODE.store(hash, Relaxed);
    let mut md = Model::new();
    let mut m = open();
    for r in 0..2u64 {
        for i in 0..nops { let k = vec![range(1, 4) as u8 * 2]; step(&mut m, &mut md, k, (0x40 + r * 16 + i) as u8, &[2, 60], 2); }
        if r == 0 { check!(m.sync_all().is_ok()); drop(m); m = open(); }
    }
    for i in 1..4 { probe(&mut m, &md, vec![2 * i]); probe(&mut m, &md, vec![2 * i + 1]); }
    cover(1);
}
