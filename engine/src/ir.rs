//! Parser for the textual LLVM IR rustc prints, and translation of functions to a flat register code.
use crate::expr::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, Int(u16), Ptr, Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Vect(u64, Box<Ty>), Label, Meta, Fn, Float(u16) }
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vect(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vect(n, t) => match **t { Ty::Int(w) => (n * w as u64 + 7) / 8, _ => n * t.size() },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let s = (*w as u64 + 7) / 8; let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vect(..) => { let s = self.store_size(); let a = self.align(); (s + a - 1) / a * a }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vect(_, t) => i as u64 * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } if k == i { return o; } o += t.size(); }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self { Ty::Arr(_, t) | Ty::Vect(_, t) => t, Ty::Struct(f, _) => &f[i], _ => panic!("field of {:?}", self) }
    }
    pub fn nfields(&self) -> usize { match self { Ty::Arr(n, _) | Ty::Vect(n, _) => *n as usize, Ty::Struct(f, _) => f.len(), _ => 0 } }
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, Ty::Vect(_, t) => t.bits(), _ => 0 } }
}

#[derive(Clone, Debug)]
pub enum Val { I(u64), Big(Rc<u128>), E(Ex), Agg(Rc<Vec<Val>>) }

#[derive(Clone, PartialEq, Debug)]
pub enum Tok<'a> { Id(&'a str), Local(&'a str), Global(&'a str), Num(&'a str), Str(&'a str), CStr(&'a str), P(u8), Meta(&'a str) }

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(b.len() / 5);
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => { i += 1; }
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' { let st = i + 1; i = st; while b[i] != b'"' { i += 1; } name = &s[st..i]; i += 1; }
                else { let st = i; while i < b.len() && idc(b[i]) { i += 1; } name = &s[st..i]; }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                i += 1;
                let st = i;
                while i < b.len() && idc(b[i]) { i += 1; }
                if i < b.len() && b[i] == b'"' && st == i { i += 1; while b[i] != b'"' { i += 1; } i += 1; }
                out.push(Tok::Meta(&s[st..i]));
            }
            b'"' => { let st = i + 1; i = st; while b[i] != b'"' { i += 1; } out.push(Tok::Str(&s[st..i])); i += 1; }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let st = i + 2; i = st; while b[i] != b'"' { i += 1; } out.push(Tok::CStr(&s[st..i])); i += 1; }
            b'0'..=b'9' | b'-' => { let st = i; i += 1; while i < b.len() && idc(b[i]) { i += 1; } out.push(Tok::Num(&s[st..i])); }
            c if c.is_ascii_alphabetic() || c == b'_' => { let st = i; while i < b.len() && (idc(b[i])) { i += 1; } out.push(Tok::Id(&s[st..i])); }
            b'#' => { i += 1; let st = i; while i < b.len() && idc(b[i]) { i += 1; } let _ = st; }
            b'.' => { i += 1; while i < b.len() && b[i] == b'.' { i += 1; } out.push(Tok::Id("...")); }
            _ => { out.push(Tok::P(c)); i += 1; }
        }
    }
    out
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 + 0 {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(b[i + 1]) * 16 + h(b[i + 2])); i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' { o.push(b'\\'); i += 2; }
        else { o.push(b[i]); i += 1; }
    }
    o
}

pub struct Global { pub name: &'static str, pub body: &'static str, pub size: u64, pub external: bool, pub weak: bool }
pub struct FnText { pub name: &'static str, pub head: &'static str, pub body: Vec<&'static str> }

pub const FUNC_BASE: u64 = 0x4000_0000_0000_0000;
pub const STACK_IDS: u64 = 4096;

pub struct Module {
    pub globals: Vec<Global>,
    pub gidx: HashMap<&'static str, usize>,
    pub fns: Vec<FnText>,
    pub fidx: HashMap<&'static str, usize>,
    pub aliases: HashMap<&'static str, &'static str>,
    pub decls: HashMap<&'static str, usize>, // external function -> pseudo index after fns
    pub decl_names: Vec<&'static str>,
    pub meta: HashMap<u32, &'static str>,
    pub types: HashMap<&'static str, &'static str>,
    compiled: RefCell<Vec<Option<&'static Func>>>,
}

pub struct Cur<'a, 'b> { pub t: &'b [Tok<'a>], pub i: usize }
impl<'a, 'b> Cur<'a, 'b> {
    fn peek(&self) -> Option<&Tok<'a>> { self.t.get(self.i) }
    fn peek_at(&self, k: usize) -> Option<&Tok<'a>> { self.t.get(self.i + k) }
    fn next(&mut self) -> Tok<'a> { let t = self.t.get(self.i).cloned().unwrap_or(Tok::P(0)); self.i += 1; t }
    fn is_p(&self, c: u8) -> bool { matches!(self.peek(), Some(Tok::P(x)) if *x == c) }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat_p(c) { panic!("IR parse: expected '{}' at {:?} in {:?}", c as char, self.peek(), &self.t[..self.t.len().min(40)]); } }
    fn eat_id(&mut self, s: &str) -> bool { if matches!(self.peek(), Some(Tok::Id(x)) if *x == s) { self.i += 1; true } else { false } }
    fn is_id(&self, s: &str) -> bool { matches!(self.peek(), Some(Tok::Id(x)) if *x == s) }
    fn skip_balanced(&mut self) { // at '('
        let mut d = 0;
        loop {
            match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => { d -= 1; if d == 0 { return; } } Tok::P(0) => panic!("IR parse: unbalanced"), _ => {} }
        }
    }
    fn starts_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => {
                matches!(*s, "void" | "ptr" | "label" | "metadata" | "float" | "double" | "half" | "token") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P(b'{')) | Some(Tok::P(b'[')) | Some(Tok::P(b'<')) => true,
            _ => false,
        }
    }
    /// attributes before a type or a value
    fn skip_attrs(&mut self) {
        while !self.starts_type() {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    if *s == "align" { self.i += 1; if !self.is_p(b'(') { self.i += 1; } else { self.skip_balanced(); } continue; }
                    self.i += 1;
                    if self.is_p(b'(') { self.skip_balanced(); }
                }
                Some(Tok::Str(_)) => { self.i += 1; if self.eat_p(b'=') { self.i += 1; } }
                _ => return,
            }
        }
    }
    /// attributes between type and value: stop at a value token
    fn skip_val_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    if matches!(*s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "none" | "asm" | "bitcast" | "trunc" | "sub" | "add" | "xor") { return; }
                    if *s == "align" { self.i += 1; if self.is_p(b'(') { self.skip_balanced(); } else { self.i += 1; } continue; }
                    self.i += 1;
                    if self.is_p(b'(') { self.skip_balanced(); }
                }
                Some(Tok::Str(_)) => { self.i += 1; if self.eat_p(b'=') { self.i += 1; } }
                _ => return,
            }
        }
    }
}

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut m = Module { globals: vec![], gidx: HashMap::new(), fns: vec![], fidx: HashMap::new(), aliases: HashMap::new(), decls: HashMap::new(), decl_names: vec![], meta: HashMap::new(), types: HashMap::new(), compiled: RefCell::new(vec![]) };
        let mut it = text.lines();
        let mut extra = vec![];
        while let Some(l) = it.next() {
            if l.is_empty() { continue; }
            match l.as_bytes()[0] {
                b'@' => {
                    let t = lex_head(l);
                    let (name, rest) = t;
                    let r = rest.trim_start_matches(" = ");
                    let words: Vec<&str> = r.split(' ').take(12).collect();
                    if let Some(k) = words.iter().position(|w| *w == "alias") { let _ = k; let tk = lex(r); if let Some(Tok::Global(g)) = tk.iter().find(|x| matches!(x, Tok::Global(_))) { m.aliases.insert(name, leak(g)); } continue; }
                    let k = words.iter().position(|w| *w == "global" || *w == "constant").unwrap_or_else(|| panic!("global? {}", l));
                    let pos: usize = words[..=k].iter().map(|w| w.len() + 1).sum();
                    let external = words[..k].iter().any(|w| *w == "external" || *w == "extern_weak");
                    let weak = words[..k].iter().any(|w| *w == "extern_weak");
                    let body = &r[pos.min(r.len())..];
                    m.gidx.insert(name, m.globals.len());
                    m.globals.push(Global { name, body, size: 0, external, weak });
                }
                b'%' => { let (name, rest) = lex_head(l); m.types.insert(name, rest.trim_start_matches(" = type ")); }
                b'!' => {
                    if let Some(p) = l.find(" = ") { if let Ok(n) = l[1..p].parse::<u32>() { m.meta.insert(n, &l[p + 3..]); } }
                }
                b'd' if l.starts_with("define ") => {
                    let at = l.find(" @").unwrap() + 1;
                    let (name, _) = lex_head(&l[at..]);
                    let mut body = vec![];
                    for b in it.by_ref() {
                        if b == "}" { break; }
                        if b.is_empty() { continue; }
                        body.push(b);
                    }
                    m.fidx.insert(name, m.fns.len());
                    m.fns.push(FnText { name, head: l, body });
                }
                b'd' if l.starts_with("declare ") => {
                    let at = l.find(" @").unwrap() + 1;
                    let (name, _) = lex_head(&l[at..]);
                    extra.push(name);
                }
                _ => {}
            }
        }
        for e in extra { if !m.fidx.contains_key(e) { m.decls.insert(e, m.fns.len() + m.decl_names.len()); m.decl_names.push(e); } }
        // global sizes
        for i in 0..m.globals.len() {
            let toks = lex(m.globals[i].body);
            let mut c = Cur { t: &toks, i: 0 };
            let ty = m.ty(&mut c);
            m.globals[i].size = ty.size();
        }
        *m.compiled.borrow_mut() = vec![None; m.fns.len()];
        m
    }
    pub fn global_addr(i: usize) -> u64 { (STACK_IDS + i as u64) << 32 }
    pub fn sym_addr(&self, name: &str) -> u64 {
        let name = self.aliases.get(name).copied().unwrap_or(name);
        if let Some(&i) = self.gidx.get(name) { if self.globals[i].weak { return 0; } return Self::global_addr(i); }
        if let Some(&i) = self.fidx.get(name) { return FUNC_BASE + 16 * i as u64; }
        if let Some(&i) = self.decls.get(name) { return FUNC_BASE + 16 * i as u64; }
        panic!("unknown symbol @{}", name)
    }
    pub fn ty(&self, c: &mut Cur) -> Ty {
        let mut t = match c.next() {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => Ty::Ptr,
            Tok::Id("label") => Ty::Label,
            Tok::Id("metadata") | Tok::Id("token") => Ty::Meta,
            Tok::Id("float") => Ty::Float(32),
            Tok::Id("double") => Ty::Float(64),
            Tok::Id("half") => Ty::Float(16),
            Tok::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {}", s))),
            Tok::Local(n) => { let s = self.types.get(n).unwrap_or_else(|| panic!("type %{}", n)); let tk = lex(s); let mut c2 = Cur { t: &tk, i: 0 }; self.ty(&mut c2) }
            Tok::P(b'[') => { let n = num(&c.next()) as u64; c.next(); let t = self.ty(c); c.expect(b']'); Ty::Arr(n, Box::new(t)) }
            Tok::P(b'{') => { let f = self.ty_list(c, b'}'); Ty::Struct(f, false) }
            Tok::P(b'<') => {
                if c.is_p(b'{') { c.next(); let f = self.ty_list(c, b'}'); c.expect(b'>'); Ty::Struct(f, true) }
                else { let n = num(&c.next()) as u64; c.next(); let t = self.ty(c); c.expect(b'>'); Ty::Vect(n, Box::new(t)) }
            }
            x => panic!("IR parse: type expected, got {:?} in {:?}", x, &c.t[..c.t.len().min(60)]),
        };
        // function type: ret (args)
        if c.is_p(b'(') && matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::Struct(..)) {
            // only when followed later by a callee: caller decides; handled in call parsing
            let _ = &mut t;
        }
        t
    }
    fn ty_list(&self, c: &mut Cur, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if c.eat_p(end) { return v; }
        loop { v.push(self.ty(c)); if c.eat_p(b',') { continue; } c.expect(end); return v; }
    }
    pub fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vect(..) => Val::Agg(Rc::new((0..ty.nfields()).map(|i| Self::zero(ty.field(i))).collect())),
            _ => Val::I(0),
        }
    }
    pub fn cst(&self, c: &mut Cur, ty: &Ty) -> Val {
        match c.next() {
            Tok::Num(s) => {
                if let Ty::Float(w) = ty { return float_const(s, *w); }
                let w = ty.bits();
                let v: u128 = if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap()).wrapping_neg() } else { s.parse().unwrap_or_else(|_| panic!("num {}", s)) } & mask(w);
                if w > 64 { Val::Big(Rc::new(v)) } else { Val::I(v as u64) }
            }
            Tok::Id("true") => Val::I(1),
            Tok::Id("false") | Tok::Id("null") => Val::I(0),
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") | Tok::Id("none") => Self::zero(ty),
            Tok::Id("splat") => {
                c.expect(b'(');
                let t = self.ty(c);
                let v = self.cst(c, &t);
                c.expect(b')');
                Val::Agg(Rc::new(vec![v; ty.nfields()]))
            }
            Tok::Id("getelementptr") => {
                while !c.is_p(b'(') { c.next(); if c.is_p(b'(') { break; } }
                // `inrange(...)` may come first
                c.expect(b'(');
                if !c.starts_type() { panic!("gep constexpr"); }
                let st = self.ty(c);
                c.expect(b',');
                let pt = self.ty(c);
                let base = self.cst(c, &pt);
                let mut off = 0i64;
                let mut cur = st.clone();
                let mut first = true;
                while c.eat_p(b',') {
                    let it = self.ty(c);
                    let v = self.cst(c, &it);
                    let k = if let Val::I(x) = v { sext(x as u128, it.bits()) as i64 } else { panic!("gep index") };
                    if first { off += k * st.size() as i64; first = false; }
                    else { off += cur.field_off(k as usize) as i64; cur = cur.field(k as usize).clone(); }
                }
                c.expect(b')');
                if let Val::I(b) = base { Val::I(b.wrapping_add(off as u64)) } else { panic!() }
            }
            Tok::Id(op @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc")) => {
                c.expect(b'(');
                let t = self.ty(c);
                let v = self.cst(c, &t);
                if !c.eat_id("to") { panic!("cast constexpr"); }
                let t2 = self.ty(c);
                c.expect(b')');
                let _ = op;
                match v { Val::I(x) => Val::I(x & mask(t2.bits().min(64)) as u64), x => x }
            }
            Tok::Id(op @ ("sub" | "add" | "xor")) => {
                while !c.is_p(b'(') { c.next(); }
                c.expect(b'(');
                let t = self.ty(c); let a = self.cst(c, &t); c.expect(b',');
                let t2 = self.ty(c); let b = self.cst(c, &t2); c.expect(b')');
                match (a, b) { (Val::I(x), Val::I(y)) => Val::I((match op { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), _ => x ^ y }) & mask(t.bits()) as u64), _ => panic!() }
            }
            Tok::Global(g) => Val::I(self.sym_addr(g)),
            Tok::CStr(s) => Val::Agg(Rc::new(unescape(s).into_iter().map(|b| Val::I(b as u64)).collect())),
            Tok::P(b'[') => self.cst_list(c, b']'),
            Tok::P(b'{') => self.cst_list(c, b'}'),
            Tok::P(b'<') => if c.eat_p(b'{') { let r = self.cst_list(c, b'}'); c.expect(b'>'); r } else { self.cst_list(c, b'>') },
            x => panic!("IR parse: constant expected, got {:?} in {:?}", x, &c.t[..c.t.len().min(60)]),
        }
    }
    fn cst_list(&self, c: &mut Cur, end: u8) -> Val {
        let mut v = vec![];
        if c.eat_p(end) { return Val::Agg(Rc::new(v)); }
        loop { let t = self.ty(c); v.push(self.cst(c, &t)); if c.eat_p(b',') { continue; } c.expect(end); return Val::Agg(Rc::new(v)); }
    }
    pub fn emit(v: &Val, ty: &Ty, out: &mut [u8]) {
        match (v, ty) {
            (Val::Agg(a), Ty::Vect(_, t)) if t.bits() == 1 => { for (i, x) in a.iter().enumerate() { if let Val::I(1) = x { out[i / 8] |= 1 << (i % 8); } } }
            (Val::Agg(a), _) => { for (i, x) in a.iter().enumerate() { let f = ty.field(i); let o = ty.field_off(i) as usize; let n = f.size() as usize; Self::emit(x, f, &mut out[o..o + n]); } }
            (Val::I(x), _) => { let n = out.len().min(8); out[..n].copy_from_slice(&x.to_le_bytes()[..n]); }
            (Val::Big(x), _) => { let n = out.len().min(16); out[..n].copy_from_slice(&x.to_le_bytes()[..n]); }
            _ => {}
        }
    }
    pub fn global_init(&self, i: usize) -> Vec<u8> {
        let g = &self.globals[i];
        let mut out = vec![0u8; g.size as usize];
        if g.external { return out; }
        let toks = lex(g.body);
        let mut c = Cur { t: &toks, i: 0 };
        let ty = self.ty(&mut c);
        let v = self.cst(&mut c, &ty);
        Self::emit(&v, &ty, &mut out);
        out
    }
    pub fn func(&self, i: usize) -> &'static Func {
        if let Some(f) = self.compiled.borrow()[i] { return f; }
        let f: &'static Func = Box::leak(Box::new(translate(self, i)));
        self.compiled.borrow_mut()[i] = Some(f);
        f
    }
    pub fn compiled_fns(&self) -> Vec<&'static Func> { self.compiled.borrow().iter().filter_map(|x| *x).collect() }
    /// (file, line, function) of a DILocation
    pub fn loc(&self, id: u32) -> Option<(String, u32, String)> {
        let l = self.meta.get(&id)?;
        let line = field(l, "line: ")?.parse().ok()?;
        let scope = field(l, "scope: !")?.parse().ok()?;
        let (file, f) = self.scope(scope)?;
        Some((file, line, f))
    }
    pub fn inlined_at(&self, id: u32) -> Option<u32> { field(self.meta.get(&id)?, "inlinedAt: !")?.parse().ok() }
    fn scope(&self, mut id: u32) -> Option<(String, String)> {
        let mut file = None;
        for _ in 0..50 {
            let l = self.meta.get(&id)?;
            if file.is_none() { if let Some(f) = field(l, "file: !").and_then(|x| x.parse::<u32>().ok()) { if let Some(fl) = self.meta.get(&f) { file = qfield(fl, "filename: \"").map(|s| { match qfield(fl, "directory: \"") { Some(d) if !s.starts_with('/') => format!("{}/{}", d, s), _ => s.to_string() } }); } } }
            if l.contains("DISubprogram(") {
                let name = qfield(l, "name: \"").unwrap_or("?").to_string();
                // enclosing scope names
                let mut path = vec![];
                let mut s = field(l, "scope: !").and_then(|x| x.parse::<u32>().ok());
                for _ in 0..20 { if let Some(k) = s { if let Some(ml) = self.meta.get(&k) { if let Some(n) = qfield(ml, "name: \"") { path.push(n); } s = field(ml, "scope: !").and_then(|x| x.parse().ok()); continue; } } break; }
                path.reverse();
                path.push(&name);
                return Some((file.unwrap_or_default(), path.join("::")));
            }
            id = field(l, "scope: !")?.parse().ok()?;
        }
        None
    }
}
fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> { let p = l.find(k)? + k.len(); let r = &l[p..]; let e = r.find(|c: char| c == ',' || c == ')').unwrap_or(r.len()); Some(&r[..e]) }
fn qfield<'a>(l: &'a str, k: &str) -> Option<&'a str> { let p = l.find(k)? + k.len(); let r = &l[p..]; Some(&r[..r.find('"')?]) }
fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }
fn float_const(s: &str, w: u16) -> Val {
    let f: f64 = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse().unwrap() };
    if w == 32 { Val::I((f as f32).to_bits() as u64) } else { Val::I(f.to_bits()) }
}
fn num(t: &Tok) -> i128 { if let Tok::Num(s) = t { s.parse().unwrap() } else { panic!("number expected, got {:?}", t) } }
/// "@name rest" / "%name rest" -> (name, rest)
fn lex_head(l: &'static str) -> (&'static str, &'static str) {
    let b = l.as_bytes();
    if b[1] == b'"' { let e = l[2..].find('"').unwrap() + 2; (&l[2..e], &l[e + 1..]) }
    else { let mut i = 1; while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1; } (&l[1..i], &l[i..]) }
}

#[derive(Clone, Debug)]
pub enum Op { R(u32), C(Val) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, Bit, None, SiToFp, UiToFp, FpToUi, FpToSi, FpExt, FpTrunc }
#[derive(Debug)]
pub struct Edge { pub to: u32, pub moves: Vec<(u32, Op)> }
#[derive(Clone, Debug)]
pub enum Callee { Fn(usize), Ext(&'static str, u32), Ind(Op) }
#[derive(Debug)]
pub struct CallI { pub dst: u32, pub callee: Callee, pub args: Vec<Op>, pub argw: Vec<u16>, pub ret: Ty, pub invoke: Option<(u32, u32)> }
#[derive(Debug)]
pub enum Inst {
    Bin { op: Bop, w: u16, dst: u32, a: Op, b: Op },
    FBin { op: u8, w: u16, dst: u32, a: Op, b: Op },
    FCmp { pred: &'static str, w: u16, dst: u32, a: Op, b: Op },
    ICmp { p: Pred, w: u16, dst: u32, a: Op, b: Op },
    Cast { k: CastK, from: Ty, to: Ty, dst: u32, a: Op },
    Load { dst: u32, ty: Ty, w: u16, n: u8, ptr: Op },
    Store { ty: Ty, n: u8, val: Op, ptr: Op },
    Gep { dst: u32, base: Op, off: i64, terms: Vec<(Op, u16, i64)> },
    Alloca { dst: u32, off: u64 },
    Select { dst: u32, ty: Ty, c: Op, a: Op, b: Op, vec: bool },
    ExtractV { dst: u32, a: Op, idx: Vec<usize> },
    InsertV { dst: u32, a: Op, v: Op, idx: Vec<usize> },
    ExtractE { dst: u32, a: Op, i: Op },
    InsertE { dst: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, mask: Vec<u32>, n: usize },
    Call(Box<CallI>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { v: Op, w: u16, cases: Vec<(u64, u32)>, def: u32 },
    Ret(Option<Op>),
    Unreachable,
    Copy { dst: u32, a: Op },
    Rmw { dst: u32, op: &'static str, w: u16, ptr: Op, v: Op },
    CmpX { dst: u32, w: u16, ptr: Op, cmp: Op, new: Op },
    LandingPad { dst: u32 },
    Resume(Op),
    Nop,
}
pub struct Func {
    pub idx: usize,
    pub name: &'static str,
    pub nparams: usize,
    pub nregs: usize,
    pub code: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub edges: Vec<Edge>,
    pub frame: u64,
    pub hit: Vec<Cell<bool>>,
    pub entered: Cell<u64>,
}

struct Tr<'m> { m: &'m Module, regs: HashMap<String, u32>, labels: HashMap<String, u32>, edges: Vec<(u32, u32)>, eidx: HashMap<(u32, u32), u32> }
impl<'m> Tr<'m> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.regs.len() as u32; self.regs.insert(n.to_string(), r); r }
    fn op(&mut self, c: &mut Cur, ty: &Ty) -> Op {
        if let Some(Tok::Local(n)) = c.peek() { let n = *n; c.i += 1; return Op::R(self.reg(n)); }
        Op::C(self.m.cst(c, ty))
    }
    fn tyop(&mut self, c: &mut Cur) -> (Ty, Op) { let t = self.m.ty(c); c.skip_val_attrs(); let o = self.op(c, &t); (t, o) }
    fn label(&mut self, c: &mut Cur) -> u32 {
        if !c.eat_id("label") { panic!("label expected {:?}", c.peek()); }
        if let Tok::Local(n) = c.next() { *self.labels.get(n).unwrap_or_else(|| panic!("label {}", n)) } else { panic!("label name") }
    }
    fn edge(&mut self, from: u32, to: u32) -> u32 {
        if let Some(&e) = self.eidx.get(&(from, to)) { return e; }
        let e = self.edges.len() as u32; self.edges.push((from, to)); self.eidx.insert((from, to), e); e
    }
}

fn is_label(l: &str) -> Option<&str> {
    let b = l.as_bytes();
    if b[0] == b' ' || b[0] == b'\t' { return None; }
    if b[0] == b'"' { let e = l[1..].find('"')? + 1; if b.get(e + 1) == Some(&b':') { return Some(&l[1..e]); } return None; }
    let p = l.find(':')?;
    if l[..p].bytes().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')) { Some(&l[..p]) } else { None }
}

pub fn translate(m: &Module, idx: usize) -> Func {
    let ft = &m.fns[idx];
    let mut tr = Tr { m, regs: HashMap::new(), labels: HashMap::new(), edges: vec![], eidx: HashMap::new() };
    // parameters
    let toks = lex(ft.head);
    let mut c = Cur { t: &toks, i: 0 };
    while !matches!(c.peek(), Some(Tok::Global(g)) if *g == ft.name) { c.next(); }
    c.next();
    c.expect(b'(');
    let mut nparams = 0;
    let mut unnamed = 0;
    if !c.eat_p(b')') {
        loop {
            if c.eat_id("...") { c.expect(b')'); break; }
            let _t = m.ty(&mut c);
            // attributes up to the name, ',' or ')'
            loop {
                match c.peek() {
                    Some(Tok::Local(n)) => { let n = *n; tr.reg(n); if n.bytes().all(|x| x.is_ascii_digit()) { unnamed += 1; } c.i += 1; break; }
                    Some(Tok::P(b',')) | Some(Tok::P(b')')) => { let n = unnamed.to_string(); unnamed += 1; tr.reg(&n); break; }
                    Some(Tok::P(b'(')) => c.skip_balanced(),
                    _ => { c.i += 1; }
                }
            }
            nparams += 1;
            if c.eat_p(b',') { continue; }
            c.expect(b')');
            break;
        }
    }
    // group lines to instructions per block
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    for l in &ft.body {
        if let Some(n) = is_label(l) { blocks.push((n.to_string(), vec![])); continue; }
        if blocks.is_empty() { blocks.push((unnamed.to_string(), vec![])); }
        let t = l.trim_start();
        if t.starts_with("; ") || t.starts_with("#dbg") { continue; }
        let cur = &mut blocks.last_mut().unwrap().1;
        let cont = t.starts_with("to label") || t.starts_with("catch ") || t == "cleanup" || t.starts_with("cleanup,") || t.starts_with("filter ") || t.starts_with(']') || (cur.last().map_or(false, |x: &String| { (x.starts_with("switch ") || x.contains(" switch ")) && x.contains('[') && !x.contains("\n ]") && x.trim_start().starts_with("switch") }) && t.starts_with('i') && !t.contains(" = "));
        if cont { let k = cur.last_mut().unwrap(); k.push_str(if t.starts_with(']') { "\n " } else { " " }); k.push_str(t); }
        else { cur.push(t.to_string()); }
    }
    for (i, (n, _)) in blocks.iter().enumerate() { tr.labels.insert(n.clone(), i as u32); }
    let mut code: Vec<Inst> = vec![];
    let mut dbg: Vec<u32> = vec![];
    let mut start: Vec<u32> = vec![];
    let mut phis: Vec<Vec<(u32, Vec<(Op, u32)>)>> = vec![vec![]; blocks.len()];
    let mut frame = 0u64;
    for bi in 0..blocks.len() {
        start.push(code.len() as u32);
        let lines = std::mem::take(&mut blocks[bi].1);
        for l in &lines {
            let toks = lex(l);
            // debug id
            let mut d = 0;
            for (k, t) in toks.iter().enumerate() { if let Tok::Meta("dbg") = t { if let Some(Tok::Meta(n)) = toks.get(k + 1) { d = n.parse().unwrap_or(0); } } }
            let mut c = Cur { t: &toks, i: 0 };
            let mut dst = u32::MAX;
            if let (Some(Tok::Local(n)), Some(Tok::P(b'='))) = (c.peek(), c.peek_at(1)) { let n = *n; dst = tr.reg(n); c.i += 2; }
            let opn = match c.next() { Tok::Id(s) => s, x => panic!("opcode {:?} in {}", x, l) };
            let inst = match opn {
                "phi" => {
                    while !c.starts_type() { c.next(); }
                    let t = m.ty(&mut c);
                    let mut v = vec![];
                    loop {
                        c.expect(b'[');
                        let o = tr.op(&mut c, &t);
                        c.expect(b',');
                        let lb = if let Tok::Local(n) = c.next() { tr.labels[n] } else { panic!() };
                        c.expect(b']');
                        v.push((o, lb));
                        if !(c.is_p(b',') && matches!(c.peek_at(1), Some(Tok::P(b'[')))) { break; }
                        c.next();
                    }
                    phis[bi].push((dst, v));
                    continue;
                }
                "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                    while !c.starts_type() { c.next(); }
                    let t = m.ty(&mut c);
                    let a = tr.op(&mut c, &t);
                    c.expect(b',');
                    let b = tr.op(&mut c, &t);
                    let op = match opn { "add" => Bop::Add, "sub" => Bop::Sub, "mul" => Bop::Mul, "udiv" => Bop::UDiv, "urem" => Bop::URem, "sdiv" => Bop::SDiv, "srem" => Bop::SRem, "shl" => Bop::Shl, "lshr" => Bop::LShr, "ashr" => Bop::AShr, "and" => Bop::And, "or" => Bop::Or, _ => Bop::Xor };
                    Inst::Bin { op, w: t.bits(), dst, a, b }
                }
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    while !c.starts_type() { c.next(); }
                    let t = m.ty(&mut c);
                    let a = tr.op(&mut c, &t);
                    c.expect(b',');
                    let b = tr.op(&mut c, &t);
                    Inst::FBin { op: opn.as_bytes()[1], w: t.bits(), dst, a, b }
                }
                "fcmp" => {
                    let mut pr = ""; while !c.starts_type() { if let Tok::Id(s) = c.next() { pr = s; } }
                    let t = m.ty(&mut c); let a = tr.op(&mut c, &t); c.expect(b','); let b = tr.op(&mut c, &t);
                    Inst::FCmp { pred: leak(pr), w: t.bits(), dst, a, b }
                }
                "icmp" => {
                    let mut p = None;
                    while !c.starts_type() {
                        if let Tok::Id(s) = c.next() { p = match s { "eq" => Some(Pred::Eq), "ne" => Some(Pred::Ne), "ult" => Some(Pred::Ult), "ule" => Some(Pred::Ule), "ugt" => Some(Pred::Ugt), "uge" => Some(Pred::Uge), "slt" => Some(Pred::Slt), "sle" => Some(Pred::Sle), "sgt" => Some(Pred::Sgt), "sge" => Some(Pred::Sge), _ => p }; }
                    }
                    let t = m.ty(&mut c);
                    let a = tr.op(&mut c, &t);
                    c.expect(b',');
                    let b = tr.op(&mut c, &t);
                    Inst::ICmp { p: p.unwrap(), w: t.bits(), dst, a, b }
                }
                "trunc" | "zext" | "sext" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "addrspacecast" | "sitofp" | "uitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                    while !c.starts_type() { c.next(); }
                    let (t, a) = tr.tyop(&mut c);
                    if !c.eat_id("to") { panic!("cast: {}", l); }
                    let t2 = m.ty(&mut c);
                    let k = match opn { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "bitcast" => CastK::Bit, "sitofp" => CastK::SiToFp, "uitofp" => CastK::UiToFp, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "fpext" => CastK::FpExt, "fptrunc" => CastK::FpTrunc,
                        _ => if t2.bits() < t.bits() { CastK::Trunc } else if t2.bits() > t.bits() { CastK::ZExt } else { CastK::None } };
                    Inst::Cast { k, from: t, to: t2, dst, a }
                }
                "load" => {
                    while !c.starts_type() { c.next(); }
                    let t = m.ty(&mut c);
                    c.expect(b',');
                    let (_, p) = tr.tyop(&mut c);
                    let (w, n) = match &t { Ty::Int(w) => (*w, t.store_size() as u8), Ty::Ptr => (64, 8), Ty::Float(w) => (*w, (*w / 8) as u8), _ => (0, 0) };
                    Inst::Load { dst, ty: t, w, n, ptr: p }
                }
                "store" => {
                    while !c.starts_type() { c.next(); }
                    let (t, v) = tr.tyop(&mut c);
                    c.expect(b',');
                    let (_, p) = tr.tyop(&mut c);
                    let n = match &t { Ty::Int(_) | Ty::Ptr | Ty::Float(_) => t.store_size() as u8, _ => 0 };
                    Inst::Store { ty: t, n, val: v, ptr: p }
                }
                "getelementptr" => {
                    while !c.starts_type() { let x = c.next(); if x == Tok::P(b'(') { c.i -= 1; c.skip_balanced(); } }
                    let st = m.ty(&mut c);
                    c.expect(b',');
                    let (_, base) = tr.tyop(&mut c);
                    let mut off = 0i64;
                    let mut terms = vec![];
                    let mut cur = st.clone();
                    let mut first = true;
                    while c.is_p(b',') && !matches!(c.peek_at(1), Some(Tok::Meta(_))) {
                        c.next();
                        let (it, v) = tr.tyop(&mut c);
                        let scale = if first { st.size() as i64 } else if matches!(cur, Ty::Arr(..) | Ty::Vect(..)) { cur.field(0).size() as i64 } else { 0 };
                        match v {
                            Op::C(Val::I(x)) => { let k = sext(x as u128, it.bits()) as i64; if scale != 0 || first { off += k * scale; if !first { cur = cur.field(0).clone(); } } else { off += cur.field_off(k as usize) as i64; cur = cur.field(k as usize).clone(); } }
                            o => { terms.push((o, it.bits(), scale)); if !first { cur = cur.field(0).clone(); } }
                        }
                        first = false;
                    }
                    Inst::Gep { dst, base, off, terms }
                }
                "alloca" => {
                    while !c.starts_type() { c.next(); }
                    let t = m.ty(&mut c);
                    let mut n = 1u64;
                    let mut al = 16;
                    while c.eat_p(b',') {
                        if c.eat_id("align") { al = num(&c.next()) as u64; continue; }
                        if c.starts_type() { let (_, o) = tr.tyop(&mut c); if let Op::C(Val::I(k)) = o { n = k; } else { panic!("dynamic alloca in {}", ft.name); } continue; }
                        break;
                    }
                    frame = (frame + al - 1) / al * al;
                    let off = frame;
                    frame += (t.size() * n).max(1);
                    Inst::Alloca { dst, off }
                }
                "select" => {
                    while !c.starts_type() { c.next(); }
                    let (ct, cv) = tr.tyop(&mut c);
                    c.expect(b',');
                    let (t, a) = tr.tyop(&mut c);
                    c.expect(b',');
                    let (_, b) = tr.tyop(&mut c);
                    Inst::Select { dst, ty: t, c: cv, a, b, vec: matches!(ct, Ty::Vect(..)) }
                }
                "extractvalue" => { let (_, a) = tr.tyop(&mut c); let mut ix = vec![]; while c.is_p(b',') && matches!(c.peek_at(1), Some(Tok::Num(_))) { c.next(); ix.push(num(&c.next()) as usize); } Inst::ExtractV { dst, a, idx: ix } }
                "insertvalue" => { let (_, a) = tr.tyop(&mut c); c.expect(b','); let (_, v) = tr.tyop(&mut c); let mut ix = vec![]; while c.is_p(b',') && matches!(c.peek_at(1), Some(Tok::Num(_))) { c.next(); ix.push(num(&c.next()) as usize); } Inst::InsertV { dst, a, v, idx: ix } }
                "extractelement" => { let (_, a) = tr.tyop(&mut c); c.expect(b','); let (_, i) = tr.tyop(&mut c); Inst::ExtractE { dst, a, i } }
                "insertelement" => { let (_, a) = tr.tyop(&mut c); c.expect(b','); let (_, v) = tr.tyop(&mut c); c.expect(b','); let (_, i) = tr.tyop(&mut c); Inst::InsertE { dst, a, v, i } }
                "shufflevector" => {
                    let (t, a) = tr.tyop(&mut c); c.expect(b','); let (_, b) = tr.tyop(&mut c); c.expect(b',');
                    let (mt, mk) = tr.tyop(&mut c);
                    let mask = if let Op::C(Val::Agg(v)) = mk { v.iter().map(|x| if let Val::I(k) = x { *k as u32 } else { 0 }).collect() } else { panic!() };
                    let _ = mt;
                    Inst::Shuffle { dst, a, b, mask, n: t.nfields() }
                }
                "freeze" => { let (_, a) = tr.tyop(&mut c); Inst::Copy { dst, a } }
                "fence" => Inst::Nop,
                "tail" | "musttail" | "notail" | "call" | "invoke" => {
                    let invoke = opn == "invoke";
                    if opn != "call" && !invoke { c.next(); }
                    // calling convention and return attributes
                    c.skip_attrs();
                    let ret = m.ty(&mut c);
                    if c.is_p(b'(') { c.skip_balanced(); }
                    if c.is_id("asm") { Inst::Nop }
                    else {
                        let callee = match c.next() {
                            Tok::Global(g) => {
                                let g = m.aliases.get(g).copied().unwrap_or(g);
                                if let Some(&i) = m.fidx.get(g) { Callee::Fn(i) } else { Callee::Ext(leak(g), m.decls.get(g).map_or(0, |x| *x as u32)) }
                            }
                            Tok::Local(n) => Callee::Ind(Op::R(tr.reg(n))),
                            Tok::Id("inttoptr") => { c.i -= 1; let v = m.cst(&mut c, &Ty::Ptr); Callee::Ind(Op::C(v)) }
                            x => panic!("callee {:?} in {}", x, l),
                        };
                        c.expect(b'(');
                        let mut args = vec![];
                        let mut argw = vec![];
                        if !c.eat_p(b')') {
                            loop {
                                let t = m.ty(&mut c);
                                if t == Ty::Meta { // metadata operand: skip to , or )
                                    let mut dpt = 0;
                                    loop { match c.peek() { Some(Tok::P(b'(')) => { dpt += 1; c.i += 1; } Some(Tok::P(b')')) if dpt > 0 => { dpt -= 1; c.i += 1; } Some(Tok::P(b',')) | Some(Tok::P(b')')) if dpt == 0 => break, None => break, _ => c.i += 1 } }
                                } else {
                                    c.skip_val_attrs();
                                    let o = tr.op(&mut c, &t);
                                    argw.push(t.bits());
                                    args.push(o);
                                }
                                if c.eat_p(b',') { continue; }
                                c.expect(b')');
                                break;
                            }
                        }
                        let mut inv = None;
                        if invoke {
                            while !c.is_id("to") { c.next(); }
                            c.next();
                            let n = tr.label(&mut c);
                            if !c.eat_id("unwind") { panic!("unwind"); }
                            let u = tr.label(&mut c);
                            inv = Some((tr.edge(bi as u32, n), tr.edge(bi as u32, u)));
                        }
                        Inst::Call(Box::new(CallI { dst, callee, args, argw, ret, invoke: inv }))
                    }
                }
                "br" => {
                    if c.is_id("label") { let t = tr.label(&mut c); Inst::Br(tr.edge(bi as u32, t)) }
                    else {
                        let (_, cv) = tr.tyop(&mut c);
                        c.expect(b',');
                        let a = tr.label(&mut c);
                        c.expect(b',');
                        let b = tr.label(&mut c);
                        let (ea, eb) = (tr.edge(bi as u32, a), tr.edge(bi as u32, b));
                        Inst::CondBr(cv, ea, eb)
                    }
                }
                "switch" => {
                    let (t, v) = tr.tyop(&mut c);
                    c.expect(b',');
                    let dl = tr.label(&mut c);
                    let def = tr.edge(bi as u32, dl);
                    c.expect(b'[');
                    let mut cases = vec![];
                    while !c.eat_p(b']') {
                        let ct = m.ty(&mut c);
                        let k = if let Val::I(x) = m.cst(&mut c, &ct) { x } else { panic!() };
                        c.expect(b',');
                        let lb = tr.label(&mut c);
                        cases.push((k, tr.edge(bi as u32, lb)));
                    }
                    Inst::Switch { v, w: t.bits(), cases, def }
                }
                "ret" => { if c.is_id("void") { Inst::Ret(None) } else { let (_, a) = tr.tyop(&mut c); Inst::Ret(Some(a)) } }
                "unreachable" => Inst::Unreachable,
                "atomicrmw" => {
                    let mut op = ""; 
                    while !c.starts_type() { if let Tok::Id(s) = c.next() { if s != "volatile" { op = s; } } }
                    let (_, p) = tr.tyop(&mut c);
                    c.expect(b',');
                    let (t, v) = tr.tyop(&mut c);
                    Inst::Rmw { dst, op: leak(op), w: t.bits(), ptr: p, v }
                }
                "cmpxchg" => {
                    while !c.starts_type() { c.next(); }
                    let (_, p) = tr.tyop(&mut c);
                    c.expect(b',');
                    let (t, a) = tr.tyop(&mut c);
                    c.expect(b',');
                    let (_, b) = tr.tyop(&mut c);
                    Inst::CmpX { dst, w: t.bits(), ptr: p, cmp: a, new: b }
                }
                "landingpad" => Inst::LandingPad { dst },
                "resume" => { let (_, a) = tr.tyop(&mut c); Inst::Resume(a) }
                x => panic!("unsupported instruction {} in {}: {}", x, ft.name, l),
            };
            code.push(inst);
            dbg.push(d);
        }
    }
    let edges = tr.edges.clone();
    let edges: Vec<Edge> = edges.iter().map(|&(f, t)| Edge {
        to: start[t as usize],
        moves: phis[t as usize].iter().map(|(d, v)| (*d, v.iter().find(|(_, p)| *p == f).unwrap_or_else(|| panic!("phi edge in {}", ft.name)).0.clone())).collect(),
    }).collect();
    let n = code.len();
    Func { idx, name: ft.name, nparams, nregs: tr.regs.len(), code, dbg, edges, frame, hit: vec![Cell::new(false); n], entered: Cell::new(0) }
}
