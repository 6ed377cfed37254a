//! Reference model of the class file encoding (JVMS chapter 4): constants as values, pools of constants, structures as token lists.
#![allow(dead_code)]
use crate::rt::*;
use crate::spec;
use coffer::prelude::*;
use coffer::read_from;
use once_cell::sync::OnceCell;
use std::sync::Arc;
use wtf_8::Wtf8Str;

pub type B = Vec<u8>;
pub type Name = Cow<'static, Wtf8Str>;

/// A constant with everything it refers to. Strings are modified UTF-8.
#[derive(Clone, Debug, PartialEq)]
pub enum Ent {
    Utf(B), Int(u32), Float(u32), Long(u64), Double(u64), Class(B), Str(B), Module(B), Package(B),
    Field(B, B, B), Method(B, B, B), IMethod(B, B, B), NT(B, B), MH(u8, Box<Ent>), MT(B),
    Dyn(Box<Bsm>, B, B), Indy(Box<Bsm>, B, B), None,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Bsm { pub handle: Ent, pub args: Vec<Ent> }

// ---- building a pool ----
pub struct Pool { pub b: B, pub next: u32, pub bsm: Vec<(u16, Vec<u16>)>, bsm_ent: Vec<Bsm>, ents: Vec<(Ent, u16)>, pub dedup: bool }
pub fn be2(x: u16) -> [u8; 2] { x.to_be_bytes() }
impl Pool {
    pub fn new() -> Self { Pool { b: Vec::new(), next: 1, bsm: Vec::new(), bsm_ent: Vec::new(), ents: Vec::new(), dedup: false } }
    fn put(&mut self, tag: u8, d: &[u8]) -> u16 {
        let i = self.next as u16;
        self.b.push(tag);
        self.b.extend_from_slice(d);
        self.next += if tag == 5 || tag == 6 { 2 } else { 1 };
        i
    }
    pub fn utf(&mut self, s: &[u8]) -> u16 { let mut d = be2(s.len() as u16).to_vec(); d.extend_from_slice(s); self.put(1, &d) }
    pub fn put_ref(&mut self, tag: u8, r: &[u16]) -> u16 { let mut d = Vec::new(); for x in r { d.extend_from_slice(&be2(*x)) } self.put(tag, &d) }
    pub fn put_mh(&mut self, k: u8, i: u16) -> u16 { self.put(15, &[k, (i >> 8) as u8, i as u8]) }
    fn put2(&mut self, tag: u8, a: u16, b: u16) -> u16 { let mut d = be2(a).to_vec(); d.extend_from_slice(&be2(b)); self.put(tag, &d) }
    fn nt(&mut self, n: &B, d: &B) -> u16 { let (a, b) = (self.utf(n), self.utf(d)); self.put2(12, a, b) }
    fn mem(&mut self, tag: u8, o: &B, n: &B, d: &B) -> u16 { let c = self.add(&Ent::Class(o.clone())); let x = self.nt(n, d); self.put2(tag, c, x) }
    fn bsm(&mut self, b: &Bsm) -> u16 {
        let h = self.add(&b.handle);
        let slot = self.bsm.len();
        self.bsm.push((h, Vec::new()));
        let a = b.args.iter().map(|x| self.add(x)).collect();
        self.bsm[slot].1 = a;
        slot as u16
    }
    pub fn add(&mut self, e: &Ent) -> u16 {
        match e {
            Ent::None => 0,
            Ent::Utf(s) => self.utf(s), Ent::Int(x) => self.put(3, &x.to_be_bytes()), Ent::Float(x) => self.put(4, &x.to_be_bytes()), Ent::Long(x) => self.put(5, &x.to_be_bytes()), Ent::Double(x) => self.put(6, &x.to_be_bytes()),
            Ent::Class(s) => { let i = self.utf(s); self.put(7, &be2(i)) } Ent::Str(s) => { let i = self.utf(s); self.put(8, &be2(i)) } Ent::Module(s) => { let i = self.utf(s); self.put(19, &be2(i)) } Ent::Package(s) => { let i = self.utf(s); self.put(20, &be2(i)) }
            Ent::Field(o, n, d) => self.mem(9, o, n, d), Ent::Method(o, n, d) => self.mem(10, o, n, d), Ent::IMethod(o, n, d) => self.mem(11, o, n, d), Ent::NT(n, d) => self.nt(n, d),
            Ent::MH(k, m) => { let i = self.add(m); let mut d = vec![*k]; d.extend_from_slice(&be2(i)); self.put(15, &d) }
            Ent::MT(s) => { let i = self.utf(s); self.put(16, &be2(i)) }
            Ent::Dyn(b, n, d) => { let k = self.bsm(b); let x = self.nt(n, d); self.put2(17, k, x) }
            Ent::Indy(b, n, d) => { let k = self.bsm(b); let x = self.nt(n, d); self.put2(18, k, x) }
        }
    }
    /// constant_pool_count and the entries
    pub fn bytes(&self) -> B { let mut v = be2(self.next as u16).to_vec(); v.extend_from_slice(&self.b); v }
}

// ---- tokens ----
#[derive(Clone, Debug)]
pub enum T { B(B), R(Ent), L4(Vec<T>), Any(Vec<Vec<T>>) }
#[derive(Clone, Default)]
pub struct Tk(pub Vec<T>);
impl Tk {
    pub fn new() -> Self { Tk(Vec::new()) }
    pub fn raw(mut self, b: &[u8]) -> Self { if let Some(T::B(v)) = self.0.last_mut() { v.extend_from_slice(b) } else { self.0.push(T::B(b.to_vec())) } self }
    pub fn u1(self, x: u8) -> Self { self.raw(&[x]) }
    pub fn u2(self, x: u16) -> Self { self.raw(&be2(x)) }
    pub fn u4(self, x: u32) -> Self { self.raw(&x.to_be_bytes()) }
    pub fn r(mut self, e: Ent) -> Self { self.0.push(T::R(e)); self }
    pub fn utf(self, s: &[u8]) -> Self { self.r(Ent::Utf(s.to_vec())) }
    pub fn cat(mut self, o: Tk) -> Self { for t in o.0 { match t { T::B(b) => self = self.raw(&b), t => self.0.push(t) } } self }
    pub fn attr(self, name: &str, body: Tk) -> Self { let mut s = self.utf(name.as_bytes()); s.0.push(T::L4(body.0)); s }
    /// the groups, in any order
    pub fn any(mut self, g: Vec<Tk>) -> Self { if g.len() == 1 { return self.cat(g.into_iter().next().unwrap()) } self.0.push(T::Any(g.into_iter().map(|t| t.0).collect())); self }
}
pub fn emit(t: &[T], p: &mut Pool) -> B {
    let mut o = Vec::new();
    for x in t {
        match x {
            T::B(b) => o.extend_from_slice(b),
            T::R(e) => o.extend_from_slice(&be2(p.add(e))),
            T::L4(v) => { let b = emit(v, p); o.extend_from_slice(&(b.len() as u32).to_be_bytes()); o.extend_from_slice(&b) }
            T::Any(g) => for v in g { o.extend_from_slice(&emit(v, p)) },
        }
    }
    o
}

// ---- parsing a pool ----
#[derive(Clone, Debug)]
pub struct Raw { pub tag: u8, pub d: B }
#[derive(Clone, Debug, Default)]
pub struct Pp { pub e: Vec<Option<Raw>>, pub bsm: Vec<(u16, Vec<u16>)>, pub bsmv: Vec<Bsm> }
pub fn g2(b: &[u8], i: usize) -> O<u16> { if i + 2 > b.len() { return None } Some(((b[i] as u16) << 8) | b[i + 1] as u16) }
pub fn g4(b: &[u8], i: usize) -> O<u32> { if i + 4 > b.len() { return None } Some(((g2(b, i)? as u32) << 16) | g2(b, i + 2)? as u32) }
pub type O<T> = Option<T>;
/// Parses a constant pool whose structure is well-formed; returns it and the number of bytes.
pub fn parse_pool(b: &[u8]) -> O<(Pp, usize)> {
    let n = g2(b, 0)? as usize;
    let mut i = 2;
    let mut p = Pp { e: vec![None], ..Pp::default() };
    while p.e.len() < n {
        let tag = *b.get(i)?;
        let l = match tag { 1 => 2 + g2(b, i + 1)? as usize, 3 | 4 | 9 | 10 | 11 | 12 | 17 | 18 => 4, 5 | 6 => 8, 7 | 8 | 16 | 19 | 20 => 2, 15 => 3, _ => return None };
        if i + 1 + l > b.len() { return None }
        let s = if tag == 1 { i + 3 } else { i + 1 };
        p.e.push(Some(Raw { tag, d: b[s..i + 1 + l].to_vec() }));
        if tag == 5 || tag == 6 { p.e.push(None) }
        i += 1 + l;
    }
    if p.e.len() > n && n > 0 { return None }
    Some((p, i))
}
/// A possibly symbolic index made concrete, if it is below `n`.
fn small(i: u16, n: usize) -> O<usize> { if i as usize >= n { return None } Some(concretize(i as u64) as usize) }
impl Pp {
    fn get(&self, i: u16, tag: u8) -> O<&B> { let i = small(i, self.e.len())?; match self.e.get(i) { Some(Some(r)) if r.tag == tag => Some(&r.d), _ => None } }
    pub fn utf(&self, i: u16) -> O<B> { Some(self.get(i, 1)?.clone()) }
    fn ind(&self, i: u16, tag: u8) -> O<B> { self.utf(g2(self.get(i, tag)?, 0)?) }
    fn two(&self, d: &B) -> O<(u16, u16)> { Some((g2(d, 0)?, g2(d, 2)?)) }
    fn nt(&self, i: u16) -> O<(B, B)> { let (a, b) = self.two(self.get(i, 12)?)?; Some((self.utf(a)?, self.utf(b)?)) }
    fn mem(&self, d: &B) -> O<(B, B, B)> { let (a, b) = self.two(d)?; let (n, t) = self.nt(b)?; Some((self.ind(a, 7)?, n, t)) }
    fn bsm(&self, i: u16) -> O<Box<Bsm>> { if !self.bsmv.is_empty() { return Some(Box::new(self.bsmv[small(i, self.bsmv.len())?].clone())) } let (h, a) = self.bsm.get(i as usize)?; let mut args = Vec::new(); for x in a { args.push(self.resolve(*x)?) } Some(Box::new(Bsm { handle: self.resolve(*h)?, args })) }
    /// As `resolve`, for references that may be symbolic.
    pub fn resolve_lazy(&self, i: u16) -> O<Ent> { self.resolve(i) }
    /// The constant at an index, if its descriptor is of the kind that it needs.
    pub fn resolve(&self, i: u16) -> O<Ent> {
        let e = self.resolve_any(i)?;
        let m = |d: &B| d.first() == Some(&b'(');
        match &e { Ent::Field(_, _, d) | Ent::Dyn(_, _, d) if m(d) => None, Ent::Method(_, _, d) | Ent::IMethod(_, _, d) | Ent::Indy(_, _, d) if !m(d) => None, _ => Some(e) }
    }
    fn resolve_any(&self, i: u16) -> O<Ent> {
        if i == 0 { return Some(Ent::None) }
        let r = self.e.get(small(i, self.e.len())?)?.as_ref()?;
        Some(match r.tag {
            1 => Ent::Utf(r.d.clone()), 3 => Ent::Int(g4(&r.d, 0)?), 4 => Ent::Float(g4(&r.d, 0)?),
            5 => Ent::Long(((g4(&r.d, 0)? as u64) << 32) | g4(&r.d, 4)? as u64), 6 => Ent::Double(((g4(&r.d, 0)? as u64) << 32) | g4(&r.d, 4)? as u64),
            7 => Ent::Class(self.ind(i, 7)?), 8 => Ent::Str(self.ind(i, 8)?), 19 => Ent::Module(self.ind(i, 19)?), 20 => Ent::Package(self.ind(i, 20)?), 16 => Ent::MT(self.ind(i, 16)?),
            9 => { let (o, n, d) = self.mem(&r.d)?; Ent::Field(o, n, d) } 10 => { let (o, n, d) = self.mem(&r.d)?; Ent::Method(o, n, d) } 11 => { let (o, n, d) = self.mem(&r.d)?; Ent::IMethod(o, n, d) }
            12 => { let (n, d) = self.nt(i)?; Ent::NT(n, d) }
            15 => { let m = ((r.d[1] as u16) << 8) | r.d[2] as u16; let m = small(m, self.e.len())? as u16; match self.e.get(m as usize)? { Some(x) if x.tag >= 9 && x.tag <= 11 => Ent::MH(r.d[0], Box::new(self.resolve(m)?)), _ => return None } }
            17 => { let (b, x) = self.two(&r.d)?; let (n, d) = self.nt(x)?; Ent::Dyn(self.bsm(b)?, n, d) }
            18 => { let (b, x) = self.two(&r.d)?; let (n, d) = self.nt(x)?; Ent::Indy(self.bsm(b)?, n, d) }
            _ => return None,
        })
    }
}
fn beq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
pub fn eq_ent(a: &Ent, b: &Ent) -> bool {
    match (a, b) {
        (Ent::None, Ent::None) => true,
        (Ent::Utf(x), Ent::Utf(y)) | (Ent::Class(x), Ent::Class(y)) | (Ent::Str(x), Ent::Str(y)) | (Ent::Module(x), Ent::Module(y)) | (Ent::Package(x), Ent::Package(y)) | (Ent::MT(x), Ent::MT(y)) => beq(x, y),
        (Ent::Int(x), Ent::Int(y)) | (Ent::Float(x), Ent::Float(y)) => x == y,
        (Ent::Long(x), Ent::Long(y)) | (Ent::Double(x), Ent::Double(y)) => x == y,
        (Ent::Field(a, b, c), Ent::Field(x, y, z)) | (Ent::Method(a, b, c), Ent::Method(x, y, z)) | (Ent::IMethod(a, b, c), Ent::IMethod(x, y, z)) => beq(a, x) & beq(b, y) & beq(c, z),
        (Ent::NT(a, b), Ent::NT(x, y)) => beq(a, x) & beq(b, y),
        (Ent::MH(k, m), Ent::MH(l, n)) => (k == l) & eq_ent(m, n),
        (Ent::Dyn(b, n, d), Ent::Dyn(x, y, z)) | (Ent::Indy(b, n, d), Ent::Indy(x, y, z)) => beq(n, y) & beq(d, z) & eq_bsm(b, x),
        _ => false,
    }
}
pub fn eq_bsm(a: &Bsm, b: &Bsm) -> bool { if a.args.len() != b.args.len() { return false } let mut r = eq_ent(&a.handle, &b.handle); for i in 0..a.args.len() { r &= eq_ent(&a.args[i], &b.args[i]) } r }
/// Number of bytes the tokens occupy.
pub fn size(t: &[T]) -> usize { let mut n = 0; for x in t { n += match x { T::B(b) => b.len(), T::R(_) => 2, T::L4(v) => 4 + size(v), T::Any(g) => { let mut k = 0; for v in g { k += size(v) } k } } } n }
/// Do the bytes encode the tokens? `i` is advanced past them.
pub fn matches(t: &[T], b: &[u8], i: &mut usize, p: &Pp) -> bool {
    let mut r = true;
    for x in t {
        match x {
            T::B(v) => { if *i + v.len() > b.len() { return false } r &= beq(v, &b[*i..*i + v.len()]); *i += v.len() }
            T::R(e) => { let k = match g2(b, *i) { Some(k) => k, None => return false }; *i += 2; match p.resolve(concretize(k as u64) as u16) { Some(y) => r &= eq_ent(e, &y), None => return false } }
            T::L4(v) => { let l = match g4(b, *i) { Some(l) => l as usize, None => return false }; *i += 4; r &= l == size(v); r &= matches(v, b, i, p) }
            T::Any(g) => {
                let s = *i;
                let mut hit = false;
                for perm in perms(g.len()) { let mut j = s; let mut ok = true; for k in perm { ok &= matches(&g[k], b, &mut j, p) } hit |= ok }
                for v in g { *i += size(v) }
                r &= hit;
            }
        }
    }
    r
}
fn perms(n: usize) -> Vec<Vec<usize>> { match n { 0 => vec![vec![]], 1 => vec![vec![0]], 2 => vec![vec![0, 1], vec![1, 0]], _ => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]] } }

// ---- constant pool stand-ins for structures outside a class ----
/// Reads from a real constant pool; code offsets become the labels with the same number.
pub struct Cpr(pub MapCp);
impl ConstantPoolReader for Cpr {
    fn read_raw(&mut self, i: u16) -> O<RawConstantEntry> { self.0.read_raw(i) }
    fn resolve_later(&mut self, i: u16, b: Arc<OnceCell<BootstrapMethod>>) { self.0.resolve_later(i, b) }
    fn bootstrap_methods(&mut self, b: &[BootstrapMethod]) -> coffer::Result<()> { self.0.bootstrap_methods(b) }
    fn get_label(&mut self, i: u32) -> Label { Label(i) }
}
/// Writes to a real constant pool and remembers the bootstrap methods.
pub struct Cpw(pub VecCp, pub Vec<BootstrapMethod>);
impl ConstantPoolWriter for Cpw {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 { self.0.insert_raw(v) }
    fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 { let k = self.0.insert_bsm(b.clone()); if k as usize == self.1.len() { self.1.push(b) } k }
    fn label(&mut self, l: &Label) -> u16 { l.0 as u16 }
}
pub fn reader(p: &Pool) -> Cpr { let b = p.bytes(); match MapCp::read_from(&mut &b[..]) { Ok(c) => Cpr(c), Err(_) => { check(false, "the constant pool is read"); unreachable!() } } }
pub fn writer() -> Cpw { Cpw(VecCp::new(), Vec::new()) }
/// The pool a writer built.
pub fn pool_of(w: &Cpw) -> Pp {
    let mut b = Vec::new();
    if w.0.write_to(&mut b).is_err() { check(false, "the constant pool is written") }
    let (mut p, n) = match parse_pool(&b) { Some(x) => x, None => { check(false, "the written constant pool is well-formed"); unreachable!() } };
    check(n == b.len(), "the written constant pool ends where its count says");
    p.bsmv = w.1.iter().map(e_bsm).collect();
    p
}

/// Reading what the tokens describe gives `v`, and consumes exactly them.
pub fn reads<V: ConstantPoolReadWrite + PartialEq>(v: &V, t: &Tk, l: &str) {
    let mut p = Pool::new();
    p.add(&Ent::Long(7)); // a wide entry shifts every later index
    let mut b = emit(&t.0, &mut p);
    let n = b.len();
    b.push(0xAB);
    let mut cp = reader(&p);
    let mut r = &b[..];
    match <V as ConstantPoolReadWrite>::read_from(&mut cp, &mut r) { Ok(x) => { check(x == *v, l); check(b.len() - r.len() == n, "reading consumes exactly the structure") } Err(_) => check(false, "a well-formed structure is read") }
    observe(n as u64);
}
/// Writing `v` gives what the tokens describe.
pub fn writes<V: ConstantPoolReadWrite>(v: &V, t: &Tk, l: &str) {
    let mut w = writer();
    let mut b = Vec::new();
    if v.write_to(&mut w, &mut b).is_err() { check(false, "a representable structure is written"); return }
    let p = pool_of(&w);
    let mut i = 0;
    check(matches(&t.0, &b, &mut i, &p), l);
    check(i == b.len(), "nothing but the structure is written");
    observe(b.len() as u64);
}
pub fn both<V: ConstantPoolReadWrite + PartialEq>(v: &V, t: &Tk, l: &str) { if flip() { reads(v, t, l) } else { writes(v, t, l) } }

// ---- symbolic names: every name of a harness has its own length, so that distinct names never need comparing ----
pub struct G { pub n: usize, /** shorter lists */ pub small: bool }
impl G {
    pub fn new() -> Self { G { n: 0, small: false } }
    pub fn small() -> Self { G { n: 0, small: true } }
    fn len(&mut self) -> usize { self.n += 1; self.n }
    /// ASCII identifier with one symbolic character
    pub fn ascii(&mut self) -> Name { let n = self.len(); let c = u8(); assume(c >= 0x21 && c < 0x7F && c != b'.' && c != b';' && c != b'[' && c != b'/' && c != b'<' && c != b'>' && c != b':'); let mut v = vec![b'n'; n]; v[n / 2] = c; own(unsafe { wtf_8::Wtf8String::from_bytes_unchecked(v) }) }
    /// any code point followed by filler
    pub fn any(&mut self) -> Name { let n = 4 * self.len(); let c = crate::wtf::cp(); let mut v = spec::enc(&[c]); while v.len() < n + 2 { v.push(b'x') } own(unsafe { wtf_8::Wtf8String::from_bytes_unchecked(v) }) }
    pub fn name(&mut self) -> Name { let n = self.len(); own(unsafe { wtf_8::Wtf8String::from_bytes_unchecked(vec![b'q'; n]) }) }
    pub fn ty(&mut self) -> Type { match pick(4) { 0 => Type::Int, 1 => Type::Ref(self.ascii()), 2 => Type::ArrayRef(2, Box::new(Type::Long)), _ => Type::Boolean } }
    pub fn rty(&mut self) -> Type { Type::Ref(self.ascii()) }
    pub fn mty(&mut self) -> Type { match pick(2) { 0 => Type::Method { parameters: vec![], ret: None }, _ => Type::Method { parameters: vec![self.rty(), Type::Double], ret: Some(Box::new(Type::ArrayRef(1, Box::new(Type::Byte)))) } } }
    pub fn names(&mut self, k: usize) -> Vec<Name> { (0..k).map(|_| self.ascii()).collect() }
}
pub fn own(s: wtf_8::Wtf8String) -> Name { Cow::Owned(s) }
/// Modified UTF-8 of a name.
pub fn mu(s: &Wtf8Str) -> B {
    let b = s.as_bytes();
    let mut ascii = true;
    for c in b { ascii &= *c != 0 && *c < 128 }
    if ascii { return b.to_vec() }
    match spec::wtf8_decode(b) { Some(c) => spec::mutf8_encode(&spec::utf16(&c)), None => { check(false, "strings are well-formed"); unreachable!() } }
}
pub fn du(t: &Type) -> B { let mut o = Vec::new(); crate::desc::print(t, &mut o); mu(unsafe { Wtf8Str::from_bytes_unchecked(&o) }) }
pub fn opt(n: &O<Name>, f: impl Fn(B) -> Ent) -> Ent { match n { Some(n) => f(mu(n)), None => Ent::None } }

// ---- constants ----
pub fn e_member(m: &MemberRef) -> Ent { let (o, n, d) = (mu(&m.owner), mu(&m.name), du(&m.descriptor)); if let Type::Method { .. } = m.descriptor { if m.itfs { Ent::IMethod(o, n, d) } else { Ent::Method(o, n, d) } } else { Ent::Field(o, n, d) } }
pub fn e_handle(h: &MethodHandle) -> Ent { Ent::MH(h.kind as u8, Box::new(e_member(&h.member))) }
pub fn e_const(c: &Constant) -> Ent {
    match c {
        Constant::I32(x) => Ent::Int(*x as u32), Constant::F32(x) => Ent::Float(x.0.to_bits()), Constant::I64(x) => Ent::Long(*x as u64), Constant::F64(x) => Ent::Double(x.0.to_bits()),
        Constant::String(s) => Ent::Str(mu(s)), Constant::Class(s) => Ent::Class(mu(s)), Constant::Member(m) => e_member(m), Constant::MethodType(t) => Ent::MT(du(t)), Constant::MethodHandle(h) => e_handle(h),
    }
}
pub fn e_ord(c: &OrDynamic<Constant>) -> Ent { match c { OrDynamic::Static(c) => e_const(c), OrDynamic::Dynamic(d) => e_dyn(d) } }
pub fn e_bsm(b: &BootstrapMethod) -> Bsm { Bsm { handle: e_handle(&b.handle), args: b.arguments.iter().map(e_ord).collect() } }
pub fn e_dyn(d: &Dynamic) -> Ent { let b = Box::new(e_bsm(d.get_bsm())); let (n, t) = (mu(&d.name), du(&d.descriptor)); if let Type::Method { .. } = d.descriptor { Ent::Indy(b, n, t) } else { Ent::Dyn(b, n, t) } }
pub fn s_member(g: &mut G, method: bool) -> MemberRef { let (owner, name) = (g.ascii(), g.ascii()); MemberRef { owner, name, descriptor: if method { g.mty() } else { g.ty() }, itfs: if method { flip() } else { false } } }
pub fn s_handle(g: &mut G) -> MethodHandle {
    let kinds = [MethodHandleKind::GetField, MethodHandleKind::GetStatic, MethodHandleKind::PutField, MethodHandleKind::PutStatic, MethodHandleKind::InvokeVirtual, MethodHandleKind::InvokeStatic, MethodHandleKind::InvokeSpecial, MethodHandleKind::NewInvokeSpecial, MethodHandleKind::InvokeInterface];
    let k = pick(9);
    MethodHandle { kind: kinds[k], member: s_member(g, k >= 4) }
}
pub fn f32s() -> coffer::total_floats::TotalF32 { coffer::total_floats::TotalF32(f32::from_bits(u32())) }
pub fn f64s() -> coffer::total_floats::TotalF64 { coffer::total_floats::TotalF64(f64::from_bits(u64())) }
pub fn s_const(g: &mut G) -> Constant {
    match pick(10) { 0 => Constant::I32(i32()), 1 => Constant::F32(f32s()), 2 => Constant::I64(i64()), 3 => Constant::F64(f64s()), 4 => Constant::String(g.any()), 5 => Constant::Class(g.ascii()), 6 => Constant::Member(s_member(g, true)), 7 => Constant::Member(s_member(g, false)), 8 => Constant::MethodType(g.mty()), _ => Constant::MethodHandle(s_handle(g)) }
}
pub fn rd<V: ReadWrite>(b: &[u8]) -> coffer::Result<V> { let mut r = b; read_from!(&mut r) }
