//! Whole class files (JVMS 4.1).
use crate::anno::t_vec;
use crate::attrs::*;
use crate::cf::*;
use crate::harnesses;
use crate::insn::code_attr;
use crate::rt::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use coffer::version::{JavaVersion, MajorVersion};

pub const MAGIC: [u8; 4] = [0xca, 0xfe, 0xba, 0xbe];
/// A class file from its parts; `t` is what follows the pool.
pub fn file(minor: u16, major: u16, t: &Tk, p: &mut Pool) -> B {
    let body = emit(&t.0, p);
    let mut b = MAGIC.to_vec();
    b.extend_from_slice(&be2(minor));
    b.extend_from_slice(&be2(major));
    b.extend_from_slice(&p.bytes());
    b.extend_from_slice(&body);
    b
}
pub fn read(b: &[u8]) -> coffer::Result<Class> { let mut r = b; read_from!(&mut r) }
pub fn write(c: &Class) -> coffer::Result<B> { let mut b = Vec::new(); write_to!(c, &mut b)?; Ok(b) }

fn s_field(g: &mut G, k: usize) -> (Field, Tk) {
    let (name, ty, f) = (g.ascii(), if k == 0 { Type::Int } else { g.ty() }, u16() & 0x50df);
    let mut t = Tk::new().u2(f).utf(&mu(&name)).utf(&du(&ty));
    let mut v = Vec::new();
    if k == 2 { let (a, n, b) = { let k = pick(4); s_field_attr(g, k) }; v.push(a); t = t.u2(1).attr(n, b) } else { t = t.u2(0) }
    (Field { access: FieldFlags::from_bits_truncate(f), name, descriptor: ty, attrs: v }, t)
}
fn s_method(g: &mut G, k: usize) -> (Method, Tk) {
    let (name, ty, f) = (g.ascii(), if k == 0 { Type::Method { parameters: vec![], ret: None } } else { g.mty() }, u16() & 0x1dff);
    let mut t = Tk::new().u2(f).utf(&mu(&name)).utf(&du(&ty));
    let mut v = Vec::new();
    match k {
        2 => { let (a, n, b) = { let k = pick(4); s_method_attr(g, k) }; v.push(a); t = t.u2(1).attr(n, b) }
        3 => {
            let (s, l, x) = (u16(), u16(), i8());
            assume(x >= 6);
            let b = [0x10, x as u8, 0xac];
            let mut c = Code::default();
            c.max_stack = s;
            c.max_locals = l;
            c.code = vec![Instruction::Push(OrDynamic::Static(Constant::I32(x as i32))), Instruction::Return(Some(LocalType::Int))];
            v.push(MethodAttribute::Code(c));
            t = t.u2(1).attr("Code", code_attr(&b, s, l).u2(0).u2(0));
        }
        _ => t = t.u2(0),
    }
    (Method { access: MethodFlags::from_bits_truncate(f), name, descriptor: ty, attributes: v }, t)
}
/// A class with what its file says after the pool.
pub fn s_class(g: &mut G) -> (Class, Tk) {
    let f = u16() & 0xf631;
    let name = g.ascii();
    let k = pick(4);
    let super_name = if k == 0 && flip() { None } else { Some(g.ascii()) };
    let n = if k == 0 { pick(3) } else { 0 };
    let interfaces = g.names(n);
    let mut t = Tk::new().u2(f).cat(cls(&name)).r(opt(&super_name, Ent::Class)).cat(t_vec(&interfaces, cls));
    let nf = if k == 1 { pick(param(0) + 1) } else { (k == 2) as usize };
    t = t.u2(nf as u16);
    let mut fields = Vec::new();
    for i in 0..nf { let j = if k == 1 && i == 0 { pick(3) } else { 0 }; let (x, y) = s_field(g, j); fields.push(x); t = t.cat(y) }
    let nm = if k == 2 { pick(param(0) + 1) } else { (k == 3) as usize };
    t = t.u2(nm as u16);
    let mut methods = Vec::new();
    for i in 0..nm { let j = if k == 2 && i == 0 { pick(4) } else { 0 }; let (x, y) = s_method(g, j); methods.push(x); t = t.cat(y) }
    let na = if k == 3 { pick(param(0) + 1) } else { (k == 1) as usize };
    t = t.u2(na as u16);
    let mut attributes = Vec::new();
    for i in 0..na { let j = if k == 3 && i == 0 { pick(10) } else { 2 }; let (x, y, z) = s_class_attr(g, j); attributes.push(x); t = t.attr(y, z) }
    (Class { version: JavaVersion { minor: 0, major: MajorVersion::J8 }, access: ClassFlags::from_bits_truncate(f), name, super_name, interfaces, fields, methods, attributes }, t)
}
pub fn same(a: &Class, b: &Class) {
    check(a.access == b.access, "access flags");
    check(a.name == b.name, "name");
    check(a.super_name == b.super_name, "superclass");
    check(a.interfaces == b.interfaces, "interfaces");
    check(a.fields == b.fields, "fields");
    check(a.methods == b.methods, "methods");
    check(a.attributes == b.attributes, "attributes");
}
/// Where the parts of a class file are.
pub struct Walk { pub minor: u16, pub major: u16, pub pool: Pp, pub body: usize, /** name and contents of the class attributes */ pub attrs: Vec<(B, usize, usize)>, /** the same for the methods */ pub methods: Vec<Vec<(B, usize, usize)>>, pub attrs_at: usize }
fn walk_attrs(b: &[u8], i: &mut usize, p: &Pp) -> O<Vec<(B, usize, usize)>> {
    let n = g2(b, *i)?;
    *i += 2;
    let mut v = Vec::new();
    for _ in 0..n { let name = p.utf(g2(b, *i)?)?; let l = g4(b, *i + 2)? as usize; *i += 6; if l > b.len() - *i { return None } v.push((name, *i, *i + l)); *i += l }
    Some(v)
}
/// Takes a class file apart that was just written; None: it is not well-formed.
pub fn walk(b: &[u8]) -> O<Walk> {
    if b.len() < 10 || b[..4] != MAGIC { return None }
    let (minor, major) = (g2(b, 4)?, g2(b, 6)?);
    let (mut pool, n) = parse_pool(&b[8..])?;
    let body = 8 + n;
    let mut i = body + 6;
    i += 2 + 2 * g2(b, i)? as usize;
    let mut methods = Vec::new();
    for k in 0..2 { let n = g2(b, i)?; i += 2; for _ in 0..n { i += 6; let a = walk_attrs(b, &mut i, &pool)?; if k == 1 { methods.push(a) } } }
    let attrs_at = i;
    let attrs = walk_attrs(b, &mut i, &pool)?;
    if i != b.len() { return None }
    let mut tables = 0;
    for (n, s, e) in &attrs {
        if &n[..] == b"BootstrapMethods" {
            tables += 1;
            let k = g2(b, *s)?;
            let mut j = s + 2;
            for _ in 0..k { let (h, m) = (g2(b, j)?, g2(b, j + 2)?); j += 4; let mut a = Vec::new(); for _ in 0..m { a.push(g2(b, j)?); j += 2 } pool.bsm.push((h, a)) }
            if j != *e { return None }
        }
    }
    if tables > 1 { return None }
    Some(Walk { minor, major, pool, body, attrs, methods, attrs_at })
}

harnesses! {
    fn h_class_read() {
        let mut g = G::new();
        let (c, t) = s_class(&mut g);
        let (minor, major) = (u16(), u16());
        assume(major >= 45 && major <= 59);
        let mut p = Pool::new();
        let mut b = file(minor, major, &t, &mut p);
        b.push(0x5a);
        let mut r = &b[..];
        let x: Class = match read_from!(&mut r) { Ok(x) => x, Err(_) => { check(false, "a well-formed class is read"); return } };
        check(r.len() == 1, "reading consumes exactly the class");
        check(x.version.minor == minor && x.version.major as u16 == major, "version");
        same(&x, &c);
        observe(b.len() as u64);
        cover("read");
    }
    fn h_class_write() {
        let mut g = G::new();
        let (mut c, t) = s_class(&mut g);
        c.version = JavaVersion { minor: u16(), major: [MajorVersion::J1, MajorVersion::J9, MajorVersion::J15][pick(3)] };
        let b = match write(&c) { Ok(b) => b, Err(_) => { check(false, "a class is written"); return } };
        let w = match walk(&b) { Some(w) => w, None => { check(false, "the written class is well-formed"); return } };
        check(w.minor == c.version.minor && w.major == c.version.major as u16, "version");
        let mut i = w.body;
        check(matches(&t.0, &b, &mut i, &w.pool), "the written class has the same contents");
        check(i == b.len(), "the written class ends with its last attribute");
        observe(b.len() as u64);
        cover("written");
    }
    // a file that is cut short
    fn h_class_cut() {
        let mut g = G::new();
        let (_, t) = s_class(&mut g);
        let mut p = Pool::new();
        let b = file(0, 52, &t, &mut p);
        let k = pick(b.len());
        check(read(&b[..k]).is_err(), "a class that is cut short is refused");
        cover("cut");
    }
    fn h_class_head() {
        let m = bytes(8);
        let mut b = m.clone();
        let mut p = Pool::new();
        let t = emit(&Tk::new().u2(0).r(Ent::Class(b"a".to_vec())).u2(0).u2(0).u2(0).u2(0).u2(0).0, &mut p);
        b.extend_from_slice(&p.bytes());
        b.extend_from_slice(&t);
        let major = ((m[6] as u16) << 8) | m[7] as u16;
        let magic = (m[0] == 0xca) & (m[1] == 0xfe) & (m[2] == 0xba) & (m[3] == 0xbe);
        match read(&b) { Ok(c) => { cover("read"); check(magic, "a wrong magic number is refused"); check(c.version.major as u16 == major && c.version.minor == ((m[4] as u16) << 8) | m[5] as u16, "version"); check(c.super_name.is_none() && c.interfaces.is_empty() && c.fields.is_empty() && c.methods.is_empty() && c.attributes.is_empty(), "an empty class") } Err(_) => { cover("refused"); check(!magic || major < 45 || major > 59, "a class with a known version is read") } }
    }
    // references of the class, its fields and methods to entries of any kind
    fn h_class_refs() {
        let i = u16();
        let mut p = Pool::new();
        p.utf(b"n"); p.put_ref(7, &[1]); p.put_ref(8, &[1]); p.utf(b"()V"); p.utf(b"J"); p.put_ref(12, &[1, 5]); p.add(&Ent::Double(1)); p.put_ref(19, &[1]); p.put_ref(20, &[1]); p.put_ref(7, &[2]); p.put_ref(9, &[2, 6]);
        let utf = i == 1 || i == 4 || i == 5;
        let x = be2(i);
        let (h, l) = (x[0], x[1]);
        let k = pick(7);
        let (body, want): (B, bool) = match k {
            0 => (vec![0, 0, h, l, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0], i == 2),
            1 => (vec![0, 0, 0, 2, h, l, 0, 0, 0, 0, 0, 0, 0, 0], i == 2 || i == 0),
            2 => (vec![0, 0, 0, 2, 0, 0, 0, 1, h, l, 0, 0, 0, 0, 0, 0], i == 2),
            3 => (vec![0, 0, 0, 2, 0, 0, 0, 0, 0, 1, 0, 0, h, l, 0, 5, 0, 0, 0, 0, 0, 0], utf),
            4 => (vec![0, 0, 0, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, h, l, 0, 0, 0, 0, 0, 0], i == 5),
            5 => (vec![0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, h, l, 0, 4, 0, 0, 0, 0], utf),
            _ => (vec![0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, h, l, 0, 0, 0, 0], i == 4),
        };
        if (k == 4 && i == 4) || (k == 6 && i == 5) { return } // the descriptor of a method for a field and the reverse: not valid, but no harm
        let mut b = MAGIC.to_vec();
        b.extend_from_slice(&[0, 0, 0, 52]);
        b.extend_from_slice(&p.bytes());
        b.extend_from_slice(&body);
        match read(&b) { Ok(_) => { cover("resolves"); check(want, "a reference to an entry of another kind is refused") } Err(_) => { cover("refused"); check(!want, "a reference to an entry of the right kind is read") } }
    }
    // counts that promise more than there is
    fn h_class_counts() {
        let n = u16();
        let k = pick(5);
        let mut p = Pool::new();
        p.utf(b"n"); p.put_ref(7, &[1]); p.utf(b"()V"); p.utf(b"J");
        let x = be2(n);
        let one = |at: usize, unit: &[u8]| { let mut v = vec![0, 0, 0, 2, 0, 0]; for i in 0..4 { if i == at { v.extend_from_slice(&x); v.extend_from_slice(unit) } else { v.extend_from_slice(&[0, 0]) } } v };
        let body = match k { 0 => one(0, &[0, 2]), 1 => one(1, &[0, 0, 0, 1, 0, 4, 0, 0]), 2 => one(2, &[0, 0, 0, 1, 0, 3, 0, 0]), 3 => one(3, &[0, 1, 0, 0, 0, 1, 9]), _ => one(9, &[]) };
        let mut b = MAGIC.to_vec();
        b.extend_from_slice(&[0, 0, 0, 52]);
        b.extend_from_slice(&p.bytes());
        b.extend_from_slice(&body);
        let mut r = &b[..];
        let c: coffer::Result<Class> = read_from!(&mut r);
        match c {
            Ok(c) => { cover("read"); let m = [c.interfaces.len(), c.fields.len(), c.methods.len(), c.attributes.len(), 0][k]; check(k == 4 || m == n as usize, "as many elements as the count says"); check(n == 1 || k != 3 || r.len() == 7, "only the elements are consumed") }
            Err(_) => { cover("refused"); check(k != 4 && n != 1, "a class with the right counts is read") }
        }
    }
}
