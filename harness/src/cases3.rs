//! Key types, memory maps, sizes, buffers, failures, power loss, reports, reads.
use crate::cases::*;
use crate::check;
use crate::kit::*;
use crate::rt;
use siamesedb::filedb::{CheckFileDbMap, DbBytes, DbInt, DbString, FileDb};
use siamesedb::{DbMap, DbMapKeyType, DbXxx, DbXxxBase, DbXxxObjectSafe, HashValue};
use std::cmp::Ordering;
use std::ops::Deref;
use std::sync::atomic::Ordering::Relaxed;

pub fn run(case: u64, a: u64, b: u64, c: u64, d: u64) -> bool {
    match case {
        701 => key_laws(a, b, c),
        702 => key_conversions(a, b),
        703 => int_laws(),
        704 => stored_keys(a, b, c),
        1101 => differential(a, b, c, d),
        1102 => mem_maps(a),
        1104 => mem_names(a, b),
        1103 => differential_all(a, b, c),
        1504 => power_pieces(a, b, c, d),
        1602 => report_pieces(a, b, c, d),
        1703 => reading_pieces(a, b, c, d),
        1201 => sizes(a, b, c, d),
        1202 => key_sizes(a, b, c, d),
        1203 => neighbours(a, b, c, d),
        1204 => every_size(a, b, c, d),
        1301 => buffers(a, b, c, d),
        1302 => big_buffers(a, b, c),
        1401 => save_fault(a, b, c, d),
        1402 => op_fault(a, b, c, d),
        1403 => save_fault_db(a, b),
        1404 => new_map_fault(a),
        1501 => power_loss(a, b, c, d),
        1502 => power_loss_db(a, b),
        1503 => power_rounds(a, b, c, d),
        1601 => reports(a, b, c, d),
        1701 => reading(a, b, c, d),
        1702 => reading_db(a, b),
        _ => return false,
    }
    true
}

// ---------------------------------------------------------------- C07
fn lex(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] < b[i] { return Ordering::Less }
        if a[i] > b[i] { return Ordering::Greater }
        i += 1;
    }
    if a.len() < b.len() { Ordering::Less } else if a.len() > b.len() { Ordering::Greater } else { Ordering::Equal }
}
fn hash_of<T: std::hash::Hash>(x: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn laws<KT: DbMapKeyType + std::fmt::Debug + Deref<Target = [u8]>>(a: &[u8], b: &[u8]) {
    let (x, y) = (KT::from_bytes(a), KT::from_bytes(b));
    check!(x.as_bytes() == a);
    check!(y.as_bytes() == b);
    check!(x.deref() == a);
    let o = lex(a, b);
    check!(x.cmp(&y) == o);
    check!(y.cmp(&x) == o.reverse());
    check!(x.partial_cmp(&y) == Some(o));
    check!(x.cmp_u8(y.as_bytes()) == o);
    check!(y.cmp_u8(x.as_bytes()) == o.reverse());
    check!((x == y) == (o == Ordering::Equal));
    check!((x != y) == (o != Ordering::Equal));
    match o {
        Ordering::Less => cover(70),
        Ordering::Greater => cover(71),
        Ordering::Equal => {
            cover(72);
            check!(x.hash_value() == y.hash_value());
        }
    }
    check!(x.clone() == x);
    check!(KT::from_bytes(x.as_bytes()) == x);
    check!(KT::from_bytes(x.as_bytes()).hash_value() == x.hash_value());
}
/// two symbolic keys of up to `la` and `lb` bytes
fn key_laws(la: u64, lb: u64, ty: u64) {
    let (a, b) = (bytes(choice(la + 1) as usize), bytes(choice(lb + 1) as usize));
    match ty { 0 => laws::<DbString>(&a, &b), 1 => laws::<DbBytes>(&a, &b), _ => laws::<DbInt>(&a, &b) }
    cover(1);
}
macro_rules! conv { ($kt:ty, $raw:expr, $s:expr, $x:expr) => {{
    let (raw, s, x): (&[u8], &str, u64) = ($raw, $s, $x);
    let k = <$kt>::from_bytes(raw);
    check!(<$kt>::from(raw) == k);
    check!(<$kt>::from(raw.to_vec()) == k);
    check!(<$kt>::from(&k) == k);
    check!(<$kt>::from(raw).as_bytes() == raw);
    check!(<$kt>::from(raw).hash_value() == k.hash_value());
    let arr: [u8; 3] = [raw[0], raw[1], raw[2]];
    check!(<$kt>::from(&arr).as_bytes() == &raw[..3]);
    let t = <$kt>::from_bytes(s.as_bytes());
    check!(<$kt>::from(s) == t);
    check!(<$kt>::from(s.to_string()) == t);
    check!(<$kt>::from(&s.to_string()) == t);
    check!(t.as_bytes() == s.as_bytes());
    let be = [(x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8];
    check!(<$kt>::from(x).as_bytes() == &be[..]);
    check!(<$kt>::from(&x).as_bytes() == &be[..]);
    check!(<$kt>::from(&x).hash_value() == <$kt>::from_bytes(&be).hash_value());
}} }
fn key_conversions(len: u64, ty: u64) {
    let raw = bytes(len as usize);
    let s: String = unsafe { String::from_utf8_unchecked((0..choice(4)).map(|_| range(0, 128) as u8).collect()) };
    let x = any_u64();
    match ty { 0 => conv!(DbString, &raw, &s, x), 1 => conv!(DbBytes, &raw, &s, x), _ => conv!(DbInt, &raw, &s, x) }
    cover(1);
}
/// integer keys are ordered and stored as unsigned 64-bit numbers
fn int_laws() {
    let (x, y) = (any_u64(), any_u64());
    let (a, b) = (DbInt::from(x), DbInt::from(&y));
    check!(a.as_bytes().len() == 8);
    check!((a < b) == (x < y));
    check!((a == b) == (x == y));
    check!((a > b) == (x > y));
    check!((a.cmp_u8(b.as_bytes()) == Ordering::Less) == (x < y));
    check!((a.cmp_u8(b.as_bytes()) == Ordering::Greater) == (x > y));
    let mut back = [0u8; 8];
    back.copy_from_slice(a.as_bytes());
    check!(u64::from_be_bytes(back) == x);
    if x == y { check!(a.hash_value() == b.hash_value()); }
    cover(1);
}
/// keys of three types stored in a map come back in order and unchanged
fn stored_keys(n: u64, maxlen: u64, ty: u64) {
    let db = FileDb::open("db").unwrap();
    macro_rules! go { ($open:ident, $kt:ty) => {{
        let _ = db.$open("m").unwrap();
        drop(db);
        set_slots("m", 1);
        let db = FileDb::open("db").unwrap();
        let mut m = db.$open("m").unwrap();
        let mut md = Model::new();
        for i in 0..n {
            let k = bytes(choice(maxlen + 1) as usize);
            check!(m.put_kt(&<$kt>::from_bytes(&k), &[i as u8]).is_ok());
            md.put(&k, &[i as u8]);
        }
        let mut it = m.iter();
        for (k, v) in &md.e {
            let (a, b) = it.next().unwrap();
            check!(a.as_bytes() == k.as_slice());
            check!(a == <$kt>::from_bytes(k));
            check!(b.as_slice() == v.as_slice());
        }
        check!(it.next().is_none());
        check!(m.sync_data().is_ok());
        let db = FileDb::open("db").unwrap();
        let mut m = db.$open("m").unwrap();
        for (k, v) in &md.e { let r = m.get_kt(&<$kt>::from_bytes(k)).unwrap(); check!(r.is_some()); check!(r.unwrap() == *v); }
        check!(m.is_mst_valid().unwrap());
    }} }
    match ty { 0 => go!(db_map_string, DbString), 1 => go!(db_map_bytes, DbBytes), _ => go!(db_map_int, DbInt) }
    cover(1);
}

// ---------------------------------------------------------------- C11
fn one_op<KT: DbMapKeyType, A: DbXxx<KT>, B: DbXxx<KT>>(f: &mut A, m: &mut B, key: &[u8], i: u64) {
    let k = KT::from_bytes(key);
    match choice(3) {
        0 => { let v = sym_value(i as u8, 1 + i as usize); check!(f.put_kt(&k, &v).is_ok()); check!(m.put_kt(&k, &v).is_ok()); cover(10) }
        1 => { let (x, y) = (f.del_kt(&k).unwrap(), m.del_kt(&k).unwrap()); trace_opt(&x); check!(x.is_some() == y.is_some()); check!(eq_opt(&x, &y)); if x.is_some() { cover(11) } }
        _ => { let (x, y) = (f.get_kt(&k).unwrap(), m.get_kt(&k).unwrap()); trace_opt(&x); check!(x.is_some() == y.is_some()); check!(eq_opt(&x, &y)); if x.is_some() { cover(13) } }
    }
    match choice(4) { 0 => check!(m.flush().is_ok()), 1 => check!(m.sync_all().is_ok() && m.sync_data().is_ok()), 2 => check!(m.read_fill_buffer().is_ok()), _ => () }
}
fn differential(n: u64, maxlen: u64, ty: u64, slots: u64) {
    let db = FileDb::open("db").unwrap();
    let mem = siamesedb::open_memory();
    macro_rules! go { ($open:ident, $mopen:ident, $kt:ty) => {{
        let _ = db.$open("m").unwrap();
        drop(db);
        set_slots("m", slots);
        let db = FileDb::open("db").unwrap();
        let (mut f, mut m) = (db.$open("m").unwrap(), mem.$mopen("m"));
        for i in 0..n { let k = bytes(choice(maxlen + 1) as usize); one_op::<$kt, _, _>(&mut f, &mut m, &k, i); }
        for (k, v) in f.iter() { let r = m.get_kt(&k).unwrap(); check!(r.is_some()); check!(r.unwrap() == v); }
        let k = <$kt>::from_bytes(&bytes(maxlen as usize));
        let (x, y) = (f.get_kt(&k).unwrap(), m.get_kt(&k).unwrap());
        check!(x.is_some() == y.is_some());
        check!(eq_opt(&x, &y));
    }} }
    match ty { 0 => go!(db_map_string, db_map_string, DbString), 1 => go!(db_map_bytes, db_map_bytes, DbBytes), _ => go!(db_map_int, db_map_dbint, DbInt) }
    cover(1);
}
/// every kind of call with a few keys and values of many lengths, on both kinds of maps
fn differential_all(n: u64, ty: u64, lens: u64) {
    let db = FileDb::open("db").unwrap();
    let mem = siamesedb::open_memory();
    macro_rules! go { ($open:ident, $mopen:ident, $kt:ty, $q:ty, $keys:expr) => {{
        let _ = db.$open("m").unwrap();
        drop(db);
        set_slots("m", 3);
        let db = FileDb::open("db").unwrap();
        let (mut f, mut m) = (db.$open("m").unwrap(), mem.$mopen("m"));
        let keys: Vec<&$q> = $keys;
        let l = lens_of(lens * 100);
        for i in 0..n {
            let k = keys[choice(3) as usize];
            match choice(9) {
                0 | 1 => { let v = vec![b'a' + i as u8; l[choice(l.len() as u64) as usize]]; check!(f.put(k, &v).is_ok()); check!(m.put(k, &v).is_ok()); cover(10) }
                2 => { let (x, y) = (f.delete(k).unwrap(), m.delete(k).unwrap()); trace_opt(&x); check!(x.is_some() == y.is_some()); check!(eq_opt(&x, &y)) }
                3 => { let v = ["", "short", "rather longer than that"][choice(3) as usize]; check!(f.put_string(k, v).is_ok()); check!(m.put_string(k, v).is_ok()) }
                4 => { let k2 = keys[choice(3) as usize]; let b: Vec<(&$q, &[u8])> = vec![(k, b"one"), (k2, b"twelve"), (k, b"")]; check!(f.bulk_put(&b).is_ok()); check!(m.bulk_put(&b).is_ok()); cover(60) }
                5 => { let b: Vec<(&$q, String)> = vec![(k, "one".to_string()), (keys[0], "x".to_string())]; check!(f.bulk_put_string(&b).is_ok()); check!(m.bulk_put_string(&b).is_ok()) }
                6 => { let b = [k, keys[1], k]; let (x, y) = (f.bulk_delete(&b).unwrap(), m.bulk_delete(&b).unwrap()); check!(x.len() == y.len()); for (x, y) in x.iter().zip(y.iter()) { trace_opt(x); check!(eq_opt(x, y)) } cover(62) }
                7 => { let b = [k, keys[1], k]; let (x, y) = (f.bulk_get(&b).unwrap(), m.bulk_get(&b).unwrap()); check!(x.len() == y.len()); for (x, y) in x.iter().zip(y.iter()) { trace_opt(x); check!(eq_opt(x, y)) } cover(61) }
                _ => { let b = [k, keys[2]]; check!(f.bulk_delete_string(&b).unwrap().len() == m.bulk_delete_string(&b).unwrap().len()) }
            }
        }
        for k in keys {
            let (x, y) = (f.get(k).unwrap(), m.get(k).unwrap());
            trace_opt(&x);
            check!(x.is_some() == y.is_some());
            check!(eq_opt(&x, &y));
        }
        let mut last = 0;
        for (k, v) in f.iter() { let r = m.get_kt(&k).unwrap(); check!(r.is_some()); check!(r.unwrap() == v); last += 1; }
        check!(last <= 3);
    }} }
    match ty {
        0 => go!(db_map_string, db_map_string, DbString, str, vec!["", "b", "ab"]),
        1 => go!(db_map_bytes, db_map_bytes, DbBytes, [u8], vec![b"", b"\xff", b"\xff\0"]),
        _ => go!(db_map_int, db_map_dbint, DbInt, u64, vec![&0, &256, &u64::MAX]),
    }
    cover(1);
}
/// memory maps: handles of one name, different names and types
fn mem_maps(n: u64) {
    let mem = siamesedb::open_memory();
    let mem2 = mem.clone();
    let other = siamesedb::open_memory();
    let (mut s1, mut s2, mut s3) = (mem.db_map_string("a"), mem2.db_map_string("a"), mem.db_map_string("b"));
    let (mut i1, mut i2, mut i3) = (mem.db_map_dbint("a"), mem.db_map_dbint("a"), mem.db_map_dbint("b"));
    let (mut b1, mut b2, mut b3) = (mem.db_map_bytes("a"), mem.db_map_bytes("a"), mem.db_map_bytes("b"));
    let mut o1 = other.db_map_string("a");
    let mut md: Vec<Model> = (0..7).map(|_| Model::new()).collect();
    let k = b"kkkkkkkk".to_vec();
    for i in 0..n {
        let (w, del) = (choice(10) as usize, choice(2) == 1);
        let v = vec![i as u8; 2];
        macro_rules! act { ($m:expr, $kt:ty, $d:expr) => {{ let kk = <$kt>::from_bytes(&k); if del { let r = $m.del_kt(&kk).unwrap(); let e = md[$d].del(&k); check!(eq_opt(&r, &e)); } else { $m.put_kt(&kk, &v).unwrap(); md[$d].put(&k, &v); } }} }
        match w {
            0 => act!(s1, DbString, 0), 1 => act!(s2, DbString, 0), 2 => act!(s3, DbString, 1),
            3 => act!(i1, DbInt, 2), 4 => act!(i2, DbInt, 2), 5 => act!(i3, DbInt, 3),
            6 => act!(b1, DbBytes, 4), 7 => act!(b2, DbBytes, 4), 8 => act!(b3, DbBytes, 5),
            _ => act!(o1, DbString, 6),
        }
    }
    let mut s4 = mem2.db_map_string("a");
    macro_rules! same { ($m:expr, $kt:ty, $d:expr) => {{ let r = $m.get_kt(&<$kt>::from_bytes(&k)).unwrap(); trace_opt(&r); check!(eq_opt(&r, &md[$d].get(&k))); }} }
    same!(s1, DbString, 0); same!(s2, DbString, 0); same!(s4, DbString, 0); same!(s3, DbString, 1);
    same!(i1, DbInt, 2); same!(i2, DbInt, 2); same!(i3, DbInt, 3);
    same!(b1, DbBytes, 4); same!(b2, DbBytes, 4); same!(b3, DbBytes, 5);
    same!(o1, DbString, 6);
    cover(1);
}

/// n memory maps whose names are any ASCII letters (0 to `maxlen` of them), each given one entry under one key: equal names are one map, different names are not
fn mem_names(n: u64, maxlen: u64) {
    let mem = siamesedb::open_memory();
    let names: Vec<String> = (0..n).map(|_| unsafe { String::from_utf8_unchecked((0..choice(maxlen + 1)).map(|_| range(33, 127) as u8).collect()) }).collect();
    let v: Vec<u64> = (0..n).map(|_| any_u64()).collect();
    for i in 0..n as usize { mem.db_map_dbint(&names[i]).put(&7, &v[i].to_le_bytes()).unwrap(); mem.db_map_string(&names[i]).put_string("x", "y").unwrap(); }
    let other = siamesedb::open_memory();
    for i in 0..n as usize {
        let last = (0..n as usize).filter(|j| names[*j] == names[i]).max().unwrap();
        let r = mem.db_map_dbint(&names[i]).get(&7).unwrap();
        trace_opt(&r);
        check!(r.as_deref() == Some(&v[last].to_le_bytes()[..]));
        check!(mem.db_map_bytes(&names[i]).get_kt(&DbBytes::from(&b"x"[..])).unwrap().is_none());
        check!(other.db_map_dbint(&names[i]).get(&7).unwrap().is_none());
        if last != i { cover(72); continue }
        check!(mem.db_map_dbint(&names[i]).delete(&7).unwrap().is_some());
        check!(mem.db_map_dbint(&names[i]).get(&7).unwrap().is_none());
        check!(mem.db_map_string(&names[i]).get_string("x").unwrap().as_deref() == Some("y"));
    }
    cover(1);
}

// ---------------------------------------------------------------- C12
pub fn size_list(which: u64) -> &'static [usize] {
    match which {
        0 => &[0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 39, 40, 41],
        1 => &[55, 56, 57, 71, 72, 73, 87, 88, 89, 103, 104, 105, 119, 120, 121],
        2 => &[247, 248, 249, 375, 376, 377, 503, 504, 505, 631, 632, 633],
        3 => &[759, 760, 761, 887, 888, 889, 1015, 1016, 1017, 1143, 1144, 1145],
        4 => &[4080, 4088, 4096, 4097, 5000, 8192, 20000],
        5 => &[0, 8, 65535, 65536, 131064, 131072, 131073, 200000],
        6 => &[0, 9, 120, 1016, 1017, 4097],
        _ => &[1, 300, 1500, 3000],
    }
}
/// any bytes in the first, middle and last positions, a fixed pattern elsewhere
fn sized(len: usize, tag: u8) -> Vec<u8> {
    let mut v: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(31).wrapping_add(tag)).collect();
    for p in [0, len / 2, len.wrapping_sub(1)] { if p < len { v[p] = range(0, 256) as u8; } }
    v
}
/// one key with a value of length L1, overwritten with one of length L2, between neighbours, and after reopening
fn sizes(which: u64, which2: u64, buf: u64, hash: u64) {
    HASH_MODE.store(hash, Relaxed);
    let mut m = open_p(params_no(buf));
    let mut md = Model::new();
    fill(&mut m, &mut md, 2, 0);
    let k = vec![3u8];
    let (l1, l2) = (size_list(which), size_list(which2));
    let v = sized(l1[choice(l1.len() as u64) as usize], 1);
    check!(m.put_kt(&K(k.clone()), &v).is_ok());
    md.put(&k, &v);
    m.put_kt(&K(vec![9]), b"after").unwrap();
    md.put(&[9], b"after");
    contents_same(&m, &md);
    let v = sized(l2[choice(l2.len() as u64) as usize], 7);
    check!(m.put_kt(&K(k.clone()), &v).is_ok());
    md.put(&k, &v);
    contents_same(&m, &md);
    all_found(&mut m, &md);
    check!(m.sync_data().is_ok());
    std::mem::forget(m);
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    let r = m.del_kt(&K(k.clone())).unwrap();
    check!(eq_opt(&r, &md.del(&k)));
    contents_same(&m, &md);
    cover(1);
}
/// keys of two sizes with symbolic bytes
fn key_sizes(which: u64, which2: u64, buf: u64, hash: u64) {
    HASH_MODE.store(hash, Relaxed);
    let mut m = open_p(params_no(buf));
    let mut md = Model::new();
    fill(&mut m, &mut md, 2, 0);
    let (l1, l2) = (size_list(which), size_list(which2));
    let (n1, n2) = (l1[choice(l1.len() as u64) as usize], l2[choice(l2.len() as u64) as usize]);
    for (n, t) in [(n1, 1), (n2, 1)] {
        let mut k: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(t)).collect();
        if n > 0 { k[n - 1] = range(0, 256) as u8; }
        let v = vec![t, n as u8];
        check!(m.put_kt(&K(k.clone()), &v).is_ok());
        md.put(&k, &v);
    }
    for (k, _) in &md.e { trace_bytes(k) }
    contents_same(&m, &md);
    all_found(&mut m, &md);
    check!(m.sync_data().is_ok());
    std::mem::forget(m);
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    let i = choice(md.len() as u64) as usize;
    let k = md.e[i].0.clone();
    let r = m.del_kt(&K(k.clone())).unwrap();
    check!(r.is_some());
    check!(eq_opt(&r, &md.del(&k)));
    contents_same(&m, &md);
    all_found(&mut m, &md);
    cover(1);
}
/// every length from lo to hi: stored before a neighbour, overwritten by a slightly different length, read back from the files
fn every_size(lo: u64, hi: u64, of_keys: u64, buf: u64) {
    let n = (lo + choice(hi - lo + 1)) as usize;
    HASH_MODE.store(3, Relaxed);
    let mut m = open_p(params_no(buf));
    let mut md = Model::new();
    let big = |n: usize, t: u8| { let mut v = vec![t; n]; for p in [0, n / 2, n.wrapping_sub(1)] { if p < n { v[p] = range(0, 256) as u8; } } v };
    let mut put = |k: Vec<u8>, v: Vec<u8>, m: &mut M| { check!(m.put_kt(&K(k.clone()), &v).is_ok()); md.put(&k, &v); };
    if of_keys == 1 {
        let mut k = vec![1; n];
        if n > 0 { k[n - 1] = range(0, 3) as u8; }
        put(k, b"one".to_vec(), &mut m);
        put(vec![2; 3], b"after".to_vec(), &mut m);
        put(vec![3; n + 1], b"longer".to_vec(), &mut m);
    } else {
        put(vec![1], big(n, 1), &mut m);
        put(vec![2], b"after".to_vec(), &mut m);
        let n2 = [n + 1, n.saturating_sub(1), n + 8][choice(3) as usize];
        put(vec![1], vec![9; n2], &mut m);
    }
    all_found(&mut m, &md);
    check!(m.sync_data().is_ok());
    let d = disk("m", true);
    disk_same(&d, &md);
    std::mem::forget(m);
    let mut m = open();
    all_found(&mut m, &md);
    cover(1);
}
/// operations that grow and shrink the values of several neighbouring records
fn neighbours(nkeys: u64, nops: u64, which: u64, buf: u64) {
    HASH_MODE.store(3, Relaxed);
    let mut m = open_p(params_no(buf));
    let mut md = Model::new();
    fill(&mut m, &mut md, nkeys as usize, 0);
    let l = size_list(which);
    for i in 0..nops {
        let k = vec![2 * range(1, nkeys + 1) as u8];
        if choice(3) < 2 {
            let v = sized(l[choice(l.len() as u64) as usize], 0x30 + i as u8);
            check!(m.put_kt(&K(k.clone()), &v).is_ok());
            md.put(&k, &v);
        } else {
            let r = m.del_kt(&K(k.clone())).unwrap();
            check!(eq_opt(&r, &md.del(&k)));
        }
        all_found(&mut m, &md);
    }
    check!(m.sync_data().is_ok());
    std::mem::forget(m);
    let m = open();
    contents_same(&m, &md);
    cover(1);
}

// ---------------------------------------------------------------- C13
/// a history written under one choice of buffer sizes, read and continued under another
fn buffers(a: u64, b: u64, c: u64, which: u64) {
    HASH_MODE.store(0, Relaxed);
    let (p, q) = if which == 0 { (choice(12), choice(12)) } else { (which, choice(12)) };
    let mut m = open_p(params_no(p));
    let mut md = Model::new();
    fill(&mut m, &mut md, a as usize, c);
    for i in 0..b % 100 {
        let k = sym_key((a as usize).max(2));
        step(&mut m, &mut md, k, 0x40 + i as u8, lens_of(b), kinds_of(b));
        match choice(4) { 0 => check!(m.read_fill_buffer().is_ok()), 1 => check!(m.flush().is_ok()), 2 => check!(m.sync_data().is_ok()), _ => () }
    }
    all_found(&mut m, &md);
    check!(m.sync_all().is_ok());
    std::mem::forget(m);
    let d = disk("m", true);
    disk_same(&d, &md);
    let mut m = open_p(params_no(q));
    check!(m.read_fill_buffer().is_ok());
    contents_same(&m, &md);
    let k = sym_key((a as usize).max(2));
    step(&mut m, &mut md, k, 0x50, lens_of(b), 3);
    all_found(&mut m, &md);
    check!(m.flush().is_ok());
    std::mem::forget(m);
    let m = open();
    contents_same(&m, &md);
    cover(1);
}
/// more data than the buffers hold, so that chunks are written and read back all the time
fn big_buffers(n: u64, len: u64, which: u64) {
    HASH_MODE.store(3, Relaxed);
    let mut m = open_p(params_no(which));
    let mut md = Model::new();
    for i in 0..n { let k = base_key(i as usize, n as usize); let v = vec![i as u8; len as usize]; m.put_kt(&K(k.clone()), &v).unwrap(); md.put(&k, &v); }
    for i in 0..2 {
        let lo = [1, n, 2 * n - 1][choice(3) as usize];
        let k = sym_key_in(n as usize, lo, lo + 3);
        let op = choice(3);
        if op == 0 { let mut v = vec![0x77; [1usize, 9000][choice(2) as usize]]; v[0] = range(0, 256) as u8; check!(m.put_kt(&K(k.clone()), &v).is_ok()); md.put(&k, &v); }
        else if op == 1 { let r = m.del_kt(&K(k.clone())).unwrap(); check!(eq_opt(&r, &md.del(&k))); }
        else { probe(&mut m, &md, k); }
        if i == 0 { match choice(3) { 0 => check!(m.read_fill_buffer().is_ok()), 1 => check!(m.flush().is_ok()), _ => () } }
    }
    all_found(&mut m, &md);
    check!(m.sync_all().is_ok());
    std::mem::forget(m);
    let m = open_p(params_no([2, 3, 6, 7, 8][choice(5) as usize]));
    contents_same(&m, &md);
    cover(1);
}

// ---------------------------------------------------------------- C14
/// the n-th write, truncation or fsync of the save fails, for every n
fn save_fault(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, 0, c % 1000, d);
    if c / 1000 > 0 { check!(m.sync_all().is_ok()); }
    ops(&mut m, &mut md, a, b);
    let kinds = [1, 2, 4, 7, 16, 39][choice(6) as usize];
    unsafe { rt::sym_fault(kinds, choice(8)) };
    let how = choice(3);
    let r = match how { 0 => m.flush(), 1 => m.sync_all(), _ => m.sync_data() };
    let fired = unsafe { rt::sym_fired() } > 0;
    unsafe { rt::sym_fault(0, 0) };
    trace(r.is_ok() as u64);
    if fired { cover(80) }
    if r.is_err() {
        check!(fired);
        cover(81);
        check!(m.is_dirty() || how > 0);
        // still answers, and a retry must do the whole job
        all_found(&mut m, &md);
        let how = choice(3);
        let r = match how { 0 => m.flush(), 1 => m.sync_all(), _ => m.sync_data() };
        check!(r.is_ok());
    }
    std::mem::forget(m);
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    let d = disk("m", true);
    disk_same(&d, &md);
    cover(1);
}
/// a failure during an operation: it is reported, and what was acknowledged before is not lost
fn op_fault(n: u64, len: u64, kind: u64, buf: u64) {
    HASH_MODE.store(3, Relaxed);
    let mut m = open_p(params_no(buf));
    let mut md = Model::new();
    for i in 0..n { let k = base_key(i as usize, n as usize); let v = vec![i as u8; len as usize]; m.put_kt(&K(k.clone()), &v).unwrap(); md.put(&k, &v); }
    if kind >= 10 { check!(m.flush().is_ok()); }
    let k = sym_key(n as usize);
    let before = md.clone();
    unsafe { rt::sym_fault(3, choice(4)) };
    let v = vec![0x77u8; [1usize, 5, 9000][choice(3) as usize]];
    let (ok, after) = if kind % 10 == 0 {
        let r = m.put_kt(&K(k.clone()), &v);
        md.put(&k, &v);
        (r.is_ok(), md.clone())
    } else {
        let r = m.del_kt(&K(k.clone()));
        md.del(&k);
        (r.is_ok(), md.clone())
    };
    let fired = unsafe { rt::sym_fired() } > 0;
    unsafe { rt::sym_fault(0, 0) };
    trace(ok as u64);
    if fired { cover(80) }
    if !ok { check!(fired); cover(82); }
    let r = m.flush();
    check!(r.is_ok());
    std::mem::forget(m);
    let mut m = open();
    if ok { contents_same(&m, &after); all_found(&mut m, &after); }
    else {
        // every other key is as before
        for (x, y) in &before.e { if *x != k { let r = m.get_kt(&K(x.clone())).unwrap(); check!(r.is_some()); check!(r.unwrap() == *y); } }
    }
    cover(1);
}
/// a failing save of a whole database
fn save_fault_db(nops: u64, kinds: u64) {
    let db = FileDb::open("db").unwrap();
    let (mut x, mut y, mut z) = (db.db_map_bytes("b").unwrap(), db.db_map_string("s").unwrap(), db.db_map_int("i").unwrap());
    let mut md = vec![Model::new(), Model::new(), Model::new()];
    for n in 0..nops {
        let w = choice(3) as usize;
        let k = b"kkkkkkk".iter().copied().chain([n as u8]).collect::<Vec<u8>>();
        match w { 0 => x.put_kt(&DbBytes::from_bytes(&k), &[n as u8]).unwrap(), 1 => y.put_kt(&DbString::from_bytes(&k), &[n as u8]).unwrap(), _ => z.put_kt(&DbInt::from_bytes(&k), &[n as u8]).unwrap() }
        md[w].put(&k, &[n as u8]);
    }
    unsafe { rt::sym_fault(kinds, choice(16)) };
    let r = if choice(2) == 0 { db.sync_all() } else { db.sync_data() };
    let fired = unsafe { rt::sym_fired() } > 0;
    unsafe { rt::sym_fault(0, 0) };
    trace(r.is_ok() as u64);
    if fired { cover(80) }
    if r.is_err() { check!(fired); cover(81); check!(db.sync_all().is_ok()); } else { check!(!fired); }
    std::mem::forget((x, y, z, db));
    unsafe { rt::sym_crash() };
    let db = FileDb::open("db").unwrap();
    crate::cases2::db_iter_same(&db.db_map_bytes("b").unwrap(), &md[0]);
    crate::cases2::db_iter_same(&db.db_map_string("s").unwrap(), &md[1]);
    crate::cases2::db_iter_same(&db.db_map_int("i").unwrap(), &md[2]);
    cover(1);
}
/// creating a map fails somewhere: no panic is taken for success, and the map can be created afterwards
fn new_map_fault(nops: u64) {
    HASH_MODE.store(3, Relaxed);
    std::fs::create_dir_all("db").unwrap();
    unsafe { rt::sym_fault(3, choice(8)) };
    let r = M::verif_open("db", "m", params());
    let fired = unsafe { rt::sym_fired() } > 0;
    unsafe { rt::sym_fault(0, 0) };
    match r {
        Ok(mut m) => {
            check!(!fired);
            let mut md = Model::new();
            for i in 0..nops { let k = sym_key(2); step(&mut m, &mut md, k, i as u8, &[3], 3); }
            check!(m.sync_all().is_ok());
            std::mem::forget(m);
            contents_same(&open(), &md);
        }
        Err(_) => { check!(fired); cover(81) }
    }
    cover(1);
}

// ---------------------------------------------------------------- C15
/// power loss right after a sync: the files keep only what an fsync has pushed out
fn power_loss(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, 0, c, d);
    match choice(5) { 0 => (), 1 => base_sync(&mut m, 0), 2 => base_sync(&mut m, 1), 3 => base_sync(&mut m, 2), _ => { base_sync(&mut m, 0); drop(m); m = open(); } }
    ops(&mut m, &mut md, a, b);
    match choice(4) { 0 => (), 1 => check!(m.flush().is_ok()), 2 => { check!(m.flush().is_ok()); all_found(&mut m, &md); check!(m.flush().is_ok()) } _ => check!(m.read_fill_buffer().is_ok()) }
    base_sync(&mut m, 1 + choice(2));
    if unsafe { rt::sym_syncs() } > 0 { cover(90) }
    std::mem::forget(m);
    unsafe { rt::sym_crash() };
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    let d = disk("m", true);
    disk_same(&d, &md);
    cover(1);
}
/// the same with large records, free and used
fn power_pieces(released: u64, reused: u64, of_keys: u64, hash: u64) {
    let (mut m, md) = pieces(released, reused, of_keys, hash);
    match choice(3) { 0 => check!(m.flush().is_ok()), 1 => all_found(&mut m, &md), _ => () }
    base_sync(&mut m, 1 + choice(2));
    std::mem::forget(m);
    unsafe { rt::sym_crash() };
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    let d = disk("m", true);
    disk_same(&d, &md);
    cover(1);
}
fn power_loss_db(nops: u64, flush: u64) {
    let db = FileDb::open("db").unwrap();
    let (mut x, mut y, mut z) = (db.db_map_bytes("b").unwrap(), db.db_map_string("s").unwrap(), db.db_map_int("i").unwrap());
    let mut md = vec![Model::new(), Model::new(), Model::new()];
    let k = b"kkkkkkkk".to_vec();
    for n in 0..nops {
        let w = choice(3) as usize;
        let v = [range(0, 256) as u8, n as u8];
        match w { 0 => x.put_kt(&DbBytes::from_bytes(&k), &v).unwrap(), 1 => y.put_kt(&DbString::from_bytes(&k), &v).unwrap(), _ => z.put_kt(&DbInt::from_bytes(&k), &v).unwrap() }
        md[w].put(&k, &v);
        if flush == 1 { match choice(4) { 0 => x.flush().unwrap(), 1 => y.flush().unwrap(), 2 => z.flush().unwrap(), _ => () } }
        if flush == 2 { match choice(3) { 0 => db.sync_data().unwrap(), 1 => y.sync_all().unwrap(), _ => () } }
    }
    if choice(2) == 0 { check!(db.sync_all().is_ok()) } else { check!(db.sync_data().is_ok()) }
    std::mem::forget((x, y, z, db));
    unsafe { rt::sym_crash() };
    let db = FileDb::open("db").unwrap();
    crate::cases2::db_iter_same(&db.db_map_bytes("b").unwrap(), &md[0]);
    crate::cases2::db_iter_same(&db.db_map_string("s").unwrap(), &md[1]);
    crate::cases2::db_iter_same(&db.db_map_int("i").unwrap(), &md[2]);
    cover(1);
}
/// rounds of change, optional flush, sync, power loss
fn power_rounds(n: u64, a: u64, lens: u64, d: u64) {
    HASH_MODE.store(d, Relaxed);
    let mut m = open();
    let mut md = Model::new();
    if a > 0 { fill(&mut m, &mut md, a as usize, 0); base_sync(&mut m, 1); }
    for i in 0..n {
        if choice(4) > 0 { let k = sym_key((a as usize).max(2)); step(&mut m, &mut md, k, 0x40 + i as u8, lens_of(lens * 100), 2); }
        if choice(2) == 1 { check!(m.flush().is_ok()); }
        base_sync(&mut m, 1 + choice(2));
        if choice(2) == 1 {
            std::mem::forget(m);
            unsafe { rt::sym_crash() };
            m = open();
            contents_same(&m, &md);
        }
    }
    std::mem::forget(m);
    unsafe { rt::sym_crash() };
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    cover(1);
}

// ---------------------------------------------------------------- C16
fn tally(v: impl Iterator<Item = u64>) -> Vec<(u64, u64)> {
    let mut t: Vec<(u64, u64)> = vec![];
    for x in v { match t.iter().position(|e| e.0 >= x) { Some(p) if t[p].0 == x => t[p].1 += 1, Some(p) => t.insert(p, (x, 1)), None => t.push((x, 1)) } }
    t
}
fn parse(s: &str) -> Vec<(u64, u64)> {
    // [(16, 3), (24, 1)]
    let mut v = vec![];
    for p in s.split('(').skip(1) {
        let p = p.split(')').next().unwrap();
        let mut n = p.split(", ");
        v.push((n.next().unwrap().parse().unwrap(), n.next().unwrap().parse().unwrap()));
    }
    v
}
fn per_class(sizes: impl Iterator<Item = u32>, classes: &[u32]) -> Vec<(u32, u64)> {
    let mut v: Vec<(u32, u64)> = classes.iter().map(|c| (*c, 0)).collect();
    let last = v.len() - 1;
    for s in sizes { let p = classes.iter().position(|c| *c == s).unwrap_or(last); v[p].1 += 1; }
    v
}
fn free_class(n: &[u64], classes: &[u32]) -> Vec<(u32, u64)> { classes.iter().zip(n).map(|(c, n)| (*c, *n)).collect() }
pub fn reports_match(m: &M, d: &Disk, slots: u64) {
    check!(m.count_of_free_key_piece().unwrap() == free_class(&d.free_key, &KV_CLASSES));
    check!(m.count_of_free_value_piece().unwrap() == free_class(&d.free_val, &KV_CLASSES));
    check!(m.count_of_free_node().unwrap() == free_class(&d.free_node, &NODE_CLASSES));
    let (k, v, n) = m.count_of_used_node().unwrap();
    check!(k == per_class(d.recs.iter().map(|r| r.size), &KV_CLASSES));
    check!(v == per_class(d.recs.iter().map(|r| r.vsize), &KV_CLASSES));
    check!(n == per_class(d.nodes.iter().map(|x| x.1), &NODE_CLASSES));
    check!(parse(&m.key_piece_size_stats().unwrap().to_string()) == tally(d.recs.iter().map(|r| r.size as u64)));
    check!(parse(&m.value_piece_size_stats().unwrap().to_string()) == tally(d.recs.iter().map(|r| r.vsize as u64)));
    check!(parse(&m.key_length_stats().unwrap().to_string()) == tally(d.recs.iter().map(|r| r.key.len() as u64)));
    check!(parse(&m.value_length_stats().unwrap().to_string()) == tally(d.recs.iter().map(|r| r.val.len() as u64)));
    check!(parse(&m.keys_count_stats().unwrap().to_string()) == tally(d.nodes.iter().map(|x| x.2 as u64)));
    check!(m.depth_of_node_tree().unwrap() == d.depth as u64);
    if slots > 0 {
        let t = load("m", "htx");
        let mut used = 0;
        for i in 0..slots as usize { if t[128 + 8 * i..136 + 8 * i].iter().any(|b| *b != 0) { used += 1; } }
        let (c, r) = m.htx_filling_rate_per_mill().unwrap();
        check!(c == used);
        check!(r as u64 == used * 1000 / slots);
        check!(m.ht_size_and_count().unwrap().0 == slots);
        if used > 0 { cover(95) }
    }
}
fn reports(a: u64, b: u64, c: u64, d: u64) {
    HASH_MODE.store(d, Relaxed);
    // a small lookup table, so that its report can be checked
    drop(open());
    let slots = 16;
    set_slots("m", slots);
    std::fs::OpenOptions::new().write(true).open("db/m.htx").unwrap().set_len(128 + 8 * slots).unwrap();
    let (mut m, mut md) = prepare(a, 0, c, d);
    ops(&mut m, &mut md, a, b);
    check!(m.sync_all().is_ok());
    let dk = disk("m", true);
    disk_same(&dk, &md);
    let s: Vec<u64> = ["key", "val", "idx", "htx"].iter().map(|e| snap(&format!("db/m.{}", e))).collect();
    reports_ok(&m);
    reports_match(&m, &dk, slots);
    check!(m.graph_string().is_ok());
    check!(m.graph_string_with_key_string().is_ok());
    check!(m.sync_all().is_ok());
    for (i, e) in ["key", "val", "idx", "htx"].iter().enumerate() { check!(same(s[i], &format!("db/m.{}", e))); }
    contents_same(&m, &md);
    trace(dk.nodes.len() as u64);
    if md.len() == 0 { cover(46) }
    cover(1);
}

/// reports over large records, free and used
fn report_pieces(released: u64, reused: u64, of_keys: u64, hash: u64) {
    let (mut m, md) = pieces(released, reused, of_keys, hash);
    check!(m.sync_all().is_ok());
    let dk = disk("m", true);
    disk_same(&dk, &md);
    reports_ok(&m);
    reports_match(&m, &dk, 0);
    cover(1);
}

// ---------------------------------------------------------------- C17
/// opening and reading maps with large records, free and used
fn reading_pieces(released: u64, reused: u64, of_keys: u64, hash: u64) {
    let (mut m, md) = pieces(released, reused, of_keys, hash);
    check!(m.sync_all().is_ok());
    let ext = ["key", "val", "idx"];
    let s: Vec<u64> = ext.iter().map(|e| snap(&format!("db/m.{}", e))).collect();
    if choice(2) == 1 { drop(m); m = open_p(params_no(choice(3))); }
    match choice(4) { 0 => (), 1 => contents_same(&m, &md), 2 => reports_ok(&m), _ => { m.count_of_used_node().unwrap(); m.count_of_free_node().unwrap(); m.count_of_free_key_piece().unwrap(); m.count_of_free_value_piece().unwrap(); } }
    all_found(&mut m, &md);
    check!(!m.is_dirty());
    base_sync(&mut m, choice(3));
    for (i, e) in ext.iter().enumerate() { check!(same(s[i], &format!("db/m.{}", e))); }
    drop(m);
    for (i, e) in ext.iter().enumerate() { check!(same(s[i], &format!("db/m.{}", e))); }
    cover(1);
}
fn reading(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut md) = prepare(a, 0, c, d);
    ops(&mut m, &mut md, a, b);
    check!(m.sync_all().is_ok());
    let ext = ["key", "val", "idx"];
    let s: Vec<u64> = ext.iter().map(|e| snap(&format!("db/m.{}", e))).collect();
    let dirty = m.is_dirty();
    check!(!dirty);
    if choice(2) == 1 { drop(m); m = open_p(params_no(choice(3))); check!(!m.is_dirty()); }
    let n = (a as usize).max(2);
    match choice(9) {
        0 => { let k = sym_key(n); probe(&mut m, &md, k); let k = sym_key(n); probe(&mut m, &md, k); }
        1 => contents_same(&m, &md),
        2 => { let mut it = m.iter_mut(); iter_same(&mut it, &md); }
        3 => { let ks = [sym_key(n), sym_key(n)]; let r = m.bulk_get(&[ks[0].as_slice(), ks[1].as_slice()]).unwrap(); check!(eq_opt(&r[0], &md.get(&ks[0]))); check!(eq_opt(&r[1], &md.get(&ks[1]))); }
        4 => reports_ok(&m),
        5 => { m.count_of_used_node().unwrap(); m.count_of_free_node().unwrap(); m.count_of_free_key_piece().unwrap(); m.count_of_free_value_piece().unwrap(); m.key_length_stats().unwrap(); m.value_length_stats().unwrap(); }
        6 => { m.key_piece_size_stats().unwrap(); m.value_piece_size_stats().unwrap(); m.keys_count_stats().unwrap(); m.depth_of_node_tree().unwrap(); m.graph_string().unwrap(); m.graph_string_with_key_string().unwrap(); }
        7 => { let k = sym_key(n); if b > 0 { let r = m.get_kt(&K(k)).unwrap(); trace(r.is_some() as u64); check!(m.read_fill_buffer().is_ok()); } else { let r = m.get_string(k.as_slice()).unwrap(); check!(r.is_some() == md.get(&k).is_some()); check!(m.read_fill_buffer().is_ok()); } }
        _ => { // a delete of an absent key changes nothing either
            let k = sym_key(n); assume(md.find(&k).is_err()); let r = m.del_kt(&K(k)).unwrap(); check!(r.is_none()); cover(12)
        }
    }
    for (i, e) in ext.iter().enumerate() { check!(same(s[i], &format!("db/m.{}", e))); }
    base_sync(&mut m, choice(3));
    for (i, e) in ext.iter().enumerate() { check!(same(s[i], &format!("db/m.{}", e))); }
    drop(m);
    for (i, e) in ext.iter().enumerate() { check!(same(s[i], &format!("db/m.{}", e))); }
    let mut m = open();
    contents_same(&m, &md);
    all_found(&mut m, &md);
    cover(1);
}
/// the same with several maps open in one database, and with maps holding unsaved changes
fn reading_db(nops: u64, n: u64) {
    let db = FileDb::open("db").unwrap();
    let (mut x, mut y) = (db.db_map_bytes("b").unwrap(), db.db_map_int("i").unwrap());
    for i in 0..n { x.put(&[i as u8, 1], b"x").unwrap(); y.put(&i, b"y").unwrap(); }
    db.sync_all().unwrap();
    let f = ["db/b.key", "db/b.val", "db/b.idx", "db/i.key", "db/i.val", "db/i.idx"];
    let s: Vec<u64> = f.iter().map(|e| snap(e)).collect();
    for _ in 0..nops {
        match choice(4) {
            0 => { let i = choice(n + 1); check!(x.get(&[i as u8, 1]).unwrap().is_some() == (i < n)); }
            1 => { let i = choice(n + 1); check!(y.get(&i).unwrap().is_some() == (i < n)); }
            2 => { let h = db.db_map_bytes("b").unwrap(); check!(h.iter().count() as u64 == n); }
            _ => { let mut c = 0; for (k, v) in &y { check!(k == DbInt::from(c)); check!(v == b"y"); c += 1; } check!(c == n); }
        }
    }
    check!(db.sync_all().is_ok());
    for (i, e) in f.iter().enumerate() { check!(same(s[i], e)); }
    check!(!x.is_dirty() && !y.is_dirty());
    drop((x, y, db));
    for (i, e) in f.iter().enumerate() { check!(same(s[i], e)); }
    cover(1);
}
