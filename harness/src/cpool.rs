//! The constant pool (JVMS 4.4).
use crate::cf::*;
use crate::harnesses;
use crate::rt::*;
use coffer::prelude::*;
use coffer::total_floats::{TotalF32, TotalF64};

/// One raw entry of any kind: its bytes after the tag, and what reading it must give.
fn s_raw(g: &mut G) -> (u8, B, RawConstantEntry) {
    let two = |f: fn(u16, u16) -> RawConstantEntry| { let (a, b) = (u16(), u16()); let mut v = be2(a).to_vec(); v.extend_from_slice(&be2(b)); (v, f(a, b)) };
    let one = |f: fn(u16) -> RawConstantEntry| { let a = u16(); (be2(a).to_vec(), f(a)) };
    use RawConstantEntry as R;
    let (t, (b, e)) = match pick(17) {
        0 => { let s = g.any(); let m = mu(&s); let mut v = be2(m.len() as u16).to_vec(); v.extend_from_slice(&m); (1, (v, R::WTF8(s))) }
        1 => { let x = i32(); (3, (x.to_be_bytes().to_vec(), R::Int(x))) } 2 => { let x = u32(); (4, (x.to_be_bytes().to_vec(), R::Float(TotalF32(f32::from_bits(x))))) } 3 => { let x = i64(); (5, (x.to_be_bytes().to_vec(), R::Long(x))) } 4 => { let x = u64(); (6, (x.to_be_bytes().to_vec(), R::Double(TotalF64(f64::from_bits(x))))) }
        5 => (7, one(R::Class)), 6 => (8, one(R::String)), 7 => (9, two(R::Field)), 8 => (10, two(R::Method)), 9 => (11, two(R::InterfaceMethod)), 10 => (12, two(R::NameAndType)),
        11 => { let (a, b) = (u8(), u16()); (15, (vec![a, (b >> 8) as u8, b as u8], R::MethodHandle(a, b))) }
        12 => (16, one(R::MethodType)), 13 => (17, two(R::Dynamic)), 14 => (18, two(R::InvokeDynamic)), 15 => (19, one(R::Module)), _ => (20, one(R::Package)),
    };
    (t, b, e)
}
fn wide(t: u8) -> bool { t == 5 || t == 6 }
/// Bit-exact equality of raw entries.
fn same(a: &RawConstantEntry, b: &RawConstantEntry) -> bool {
    use RawConstantEntry as R;
    match (a, b) {
        (R::WTF8(x), R::WTF8(y)) => { let (x, y) = (x.as_bytes(), y.as_bytes()); if x.len() != y.len() { return false } let mut r = true; for i in 0..x.len() { r &= x[i] == y[i] } r }
        (R::Int(x), R::Int(y)) => x == y, (R::Float(x), R::Float(y)) => x.0.to_bits() == y.0.to_bits(), (R::Long(x), R::Long(y)) => x == y, (R::Double(x), R::Double(y)) => x.0.to_bits() == y.0.to_bits(),
        (R::Class(x), R::Class(y)) | (R::String(x), R::String(y)) | (R::MethodType(x), R::MethodType(y)) | (R::Module(x), R::Module(y)) | (R::Package(x), R::Package(y)) => x == y,
        (R::Field(a, b), R::Field(x, y)) | (R::Method(a, b), R::Method(x, y)) | (R::InterfaceMethod(a, b), R::InterfaceMethod(x, y)) | (R::NameAndType(a, b), R::NameAndType(x, y)) | (R::Dynamic(a, b), R::Dynamic(x, y)) | (R::InvokeDynamic(a, b), R::InvokeDynamic(x, y)) => (a == x) & (b == y),
        (R::MethodHandle(a, b), R::MethodHandle(x, y)) => (a == x) & (b == y),
        _ => false,
    }
}
fn bytes_of(e: &[(u8, B, RawConstantEntry)], count: u16) -> B { let mut v = be2(count).to_vec(); for (t, b, _) in e { v.push(*t); v.extend_from_slice(b) } v }
fn slots(e: &[(u8, B, RawConstantEntry)]) -> u16 { let mut n = 1; for (t, ..) in e { n += if wide(*t) { 2 } else { 1 } } n }

/// A pool whose references are symbolic: 1 name, 2 field descriptor, 3 method descriptor, 4-5 a long, 6.. the entry under test
fn linked() -> (B, Pp, u16) {
    let mut p = Pool::new();
    p.utf(b"n");
    p.utf(b"J");
    p.utf(b"()V");
    p.add(&Ent::Long(1));
    p.put_ref(7, &[1]); // 6: class
    p.put_ref(12, &[1, 2]); // 7: field name and type
    p.put_ref(12, &[1, 3]); // 8: method name and type
    p.put_ref(9, &[6, 7]); // 9: field
    let t = [7u8, 8, 9, 10, 11, 12, 15, 16, 19, 20][pick(10)];
    let (a, b) = (u16(), u16());
    let i = p.next as u16;
    match t { 15 => { let k = u8(); p.put_mh(k, b) } 7 | 8 | 16 | 19 | 20 => p.put_ref(t, &[a]), _ => p.put_ref(t, &[a, b]) };
    let v = p.bytes();
    let q = parse_pool(&v).unwrap().0;
    (v, q, i)
}
fn du_ok(e: &B) -> bool { e.len() == 1 && e[0] == b'J' || e.len() == 3 }

harnesses! {
    // every entry is found under its index, and nothing else is
    fn h_cp_read() {
        let mut g = G::new();
        let n = pick(param(0) + 1);
        let e: Vec<_> = (0..n).map(|_| s_raw(&mut g)).collect();
        let mut v = bytes_of(&e, slots(&e));
        let len = v.len();
        v.push(1);
        let mut r = &v[..];
        let mut cp = match MapCp::read_from(&mut r) { Ok(c) => c, Err(_) => { check(false, "a well-formed pool is read"); return } };
        check(v.len() - r.len() == len, "reading consumes exactly the pool");
        let idx = u16();
        let got = cp.read_raw(idx);
        let mut at = 1;
        let mut want = None;
        for (t, _, x) in &e { if idx == at { want = Some(x) } at += if wide(*t) { 2 } else { 1 } }
        match (got, want) { (Some(a), Some(b)) => { cover("entry"); check(same(&a, b), "the entry under an index") } (None, None) => cover("no entry"), (Some(_), None) => check(false, "nothing under an index that is not that of an entry"), (None, Some(_)) => check(false, "an entry is found under its index") }
    }
    // any tag, any contents, cut anywhere
    fn h_cp_tag() {
        let t = u8();
        let n = pick(10);
        let d = bytes(n);
        let mut v = vec![0, 2, t];
        v.extend_from_slice(&d);
        let need = if t == 1 { if n < 2 { 99 } else { 2 + (d[0] as usize) * 256 + d[1] as usize } } else if t == 3 || t == 4 || (t >= 9 && t <= 12) || t == 17 || t == 18 { 4 } else if t == 5 || t == 6 { 8 } else if t == 7 || t == 8 || t == 16 || t == 19 || t == 20 { 2 } else if t == 15 { 3 } else { 99999 };
        let mut r = &v[..];
        match MapCp::read_from(&mut r) {
            Ok(_) => { cover("read"); check(need <= n, "only complete entries with known tags are read"); check(r.len() == n - need, "an entry takes its own bytes") }
            Err(_) => { cover("refused"); check(need > n || t == 1, "a complete entry with a known tag is read") }
        }
    }
    // a pool cut short is an error
    fn h_cp_cut() {
        let mut g = G::new();
        let e: Vec<_> = (0..2).map(|_| s_raw(&mut g)).collect();
        let v = bytes_of(&e, slots(&e));
        let k = pick(v.len());
        check(MapCp::read_from(&mut &v[..k]).is_err(), "a pool that is cut short is refused");
        cover("cut");
    }
    // references: of any value, to any kind of entry
    fn h_cp_link() {
        let (v, q, i) = linked();
        let mut cp = match MapCp::read_from(&mut &v[..]) { Ok(c) => Cpr(c), Err(_) => { check(false, "a pool with any references is read"); return } };
        let want = q.resolve_lazy(i);
        let k = pick(6);
        let wf = match &want { Some(Ent::Field(_, _, d)) | Some(Ent::Method(_, _, d)) | Some(Ent::IMethod(_, _, d)) => du_ok(d), _ => false };
        match k {
            0 => { let w = match &want { Some(Ent::Class(n)) => Some(n.clone()), _ => None }; match (cp.read_class(i), w) { (Some(a), Some(b)) => { cover("ok"); check(mu(&a) == b, "class name") } (None, None) => cover("none"), _ => check(false, "a class is found exactly when the entry is one") } }
            1 => { match (cp.read_member(i), wf) { (Some(a), true) => { let (o, n, d, t) = match &want { Some(Ent::Field(o, n, d)) => (o, n, d, 9), Some(Ent::Method(o, n, d)) => (o, n, d, 10), Some(Ent::IMethod(o, n, d)) => (o, n, d, 11), _ => unreachable!() }; check(mu(&a.owner) == *o && mu(&a.name) == *n && du(&a.descriptor) == *d && a.itfs == (t == 11), "member"); cover("ok") } (None, false) => cover("none"), _ => check(false, "a member is found exactly when the entry is one") } }
            2 => { let w = match &want { Some(Ent::NT(n, d)) if du_ok(d) => Some((n, d)), _ => None }; match (cp.read_nameandtype(i), w) { (Some((a, t)), Some((n, d))) => { check(mu(&a) == *n && du(&t) == *d, "name and type"); cover("ok") } (None, None) => cover("none"), _ => check(false, "a name and type is found exactly when the entry is one") } }
            3 => { let w = match &want { Some(Ent::MH(k, m)) if *k >= 1 && *k <= 9 => match &**m { Ent::Field(_, _, d) | Ent::Method(_, _, d) | Ent::IMethod(_, _, d) if du_ok(d) => true, _ => false }, _ => false }; match (cp.read_method_handle(i), w) { (Some(h), true) => { check(eq_ent(&e_handle(&h), want.as_ref().unwrap()), "method handle"); cover("ok") } (None, false) => cover("none"), _ => check(false, "a method handle is found exactly when the entry is one") } }
            4 => { let w = match &want { Some(Ent::Str(n)) => (8, n), Some(Ent::Module(n)) => (19, n), Some(Ent::Package(n)) => (20, n), Some(Ent::Class(n)) => (7, n), _ => { for t in [7, 8, 19, 20] { check(cp.read_indirect_str(t, i).is_none(), "no string where there is none") } cover("none"); return } }; for t in [7, 8, 19, 20] { match cp.read_indirect_str(t, i) { Some(s) => check(t == w.0 && mu(&s) == *w.1, "indirect string"), None => check(t != w.0, "an indirect string is found") } } cover("ok") }
            _ => { check(cp.read_int(i).is_none() && cp.read_long(i).is_none() && cp.read_float(i).is_none() && cp.read_double(i).is_none() && cp.read_wtf8(i).is_none(), "no number or string where there is none"); 
                let c = cp.read_constant(i);
                let is = match &want { Some(Ent::Class(_)) | Some(Ent::Str(_)) => true, Some(Ent::MT(d)) => du_ok(d), Some(Ent::MH(k, m)) => *k >= 1 && *k <= 9 && match &**m { Ent::Field(_, _, d) | Ent::Method(_, _, d) | Ent::IMethod(_, _, d) => du_ok(d), _ => false }, _ => wf };
                match c { Some(c) => { check(is, "a constant is found only where there is one"); if let Some(w) = &want { check(eq_ent(&e_const(&c), w), "the constant under an index") } cover("ok") } None => { check(!is, "a constant is found where there is one"); cover("none") } } }
        }
    }
    // numbers and strings, and the second slot of wide ones
    fn h_cp_simple() {
        let mut g = G::new();
        let s = g.any();
        let (a, b, c, d) = (u32(), u32(), u64(), u64());
        let mut p = Pool::new();
        p.add(&Ent::Long(c)); p.add(&Ent::Utf(mu(&s))); p.add(&Ent::Double(d)); p.add(&Ent::Int(a)); p.add(&Ent::Float(b));
        let mut cp = reader(&p);
        let i = u16();
        check(cp.read_long(i) == if i == 1 { Some(c as i64) } else { None }, "long");
        check(cp.read_wtf8(i).map(|x| mu(&x)) == if i == 3 { Some(mu(&s)) } else { None }, "string");
        check(cp.read_double(i).map(|x| x.to_bits()) == if i == 4 { Some(d) } else { None }, "double");
        check(cp.read_int(i) == if i == 6 { Some(a as i32) } else { None }, "int");
        check(cp.read_float(i).map(|x| x.to_bits()) == if i == 7 { Some(b) } else { None }, "float");
        cover("simple");
    }
    // insertion: one index per distinct entry, which a reader finds there
    fn h_cp_write() {
        let mut g = G::new();
        let n = param(0);
        let mut e: Vec<(RawConstantEntry, u16)> = Vec::new();
        let mut w = VecCp::new();
        let k0 = pick(17);
        for j in 0..n {
            // the same kind again, or any
            let x = if j > 0 && flip() { kind(&mut g, k0) } else if j == 0 { kind(&mut g, k0) } else { kind(&mut g, [3, 1, 5][pick(3)]) };
            let i = w.insert_raw(x.clone());
            for (y, k) in &e { check(same(&x, y) == (i == *k), "equal entries and only they share an index") }
            e.push((x, i));
        }
        let mut b = Vec::new();
        if w.write_to(&mut b).is_err() { check(false, "a pool is written"); return }
        let (p, m) = match parse_pool(&b) { Some(x) => x, None => { check(false, "the written pool is well-formed"); return } };
        check(m == b.len(), "the written pool ends where its count says");
        for (x, i) in &e { match p.e.get(concretize(*i as u64) as usize) { Some(Some(r)) => check(raw_eq(r, x), "a reader finds the entry under its index"), _ => check(false, "there is an entry under every index handed out") } }
        cover("written");
    }
    // insertion of constants with everything they refer to
    fn h_cp_insert() {
        let mut g = G::new();
        let mut w = writer();
        if flip() { w.insert_long(3); }
        let c = s_const(&mut g);
        let want = e_const(&c);
        let i = match (&c, flip()) {
            (Constant::Class(s), true) => w.insert_class(s.clone()), (Constant::Member(m), true) => w.insert_member(m.clone()), (Constant::MethodHandle(h), true) => w.insert_method_handle(h.clone()), (Constant::I32(x), true) => w.insert_int(*x), (Constant::I64(x), true) => w.insert_long(*x),
            (Constant::F32(x), true) => w.insert_float(x.0), (Constant::F64(x), true) => w.insert_double(x.0), (Constant::String(s), true) => w.insert_indirect_str(8, s.clone()), (_, true) => return, (_, false) => w.insert_constant(c.clone()),
        };
        let n = { let mut b = Vec::new(); w.0.write_to(&mut b).ok(); b.len() };
        check(w.insert_constant(c.clone()) == i, "inserting again gives the same index");
        let p = pool_of(&w);
        let mut b = Vec::new();
        w.0.write_to(&mut b).ok();
        check(b.len() == n, "inserting again adds nothing");
        match p.resolve(i) { Some(e) => check(eq_ent(&e, &want), "the constant under its index"), None => check(false, "an inserted constant resolves") }
        cover("inserted");
    }
    fn h_cp_insert_misc() {
        let mut g = G::new();
        let mut w = writer();
        let s = g.any();
        let (i, want) = match pick(5) { 0 => (w.insert_package(s.clone()), Ent::Package(mu(&s))), 1 => (w.insert_indirect_str(19, s.clone()), Ent::Module(mu(&s))), 2 => (w.insert_indirect_str(20, s.clone()), Ent::Package(mu(&s))), 3 => (w.insert_wtf8(s.clone()), Ent::Utf(mu(&s))), _ => { let t = g.any(); (w.insert_nameandtype(s.clone(), t.clone()), Ent::NT(mu(&s), mu(&t))) } };
        match pool_of(&w).resolve(i) { Some(e) => check(eq_ent(&e, &want), "the entry under its index"), None => check(false, "an inserted entry resolves") }
        cover("inserted");
    }
    // the last slots of a pool
    fn h_cp_full() {
        let mut w = VecCp::new();
        for i in 0..65531 { let j = w.insert_raw(RawConstantEntry::Int(i)); if j as i32 != i + 1 { check(false, "indices count up") } }
        let k = pick(4); // slots left when the last entry comes
        for i in 65531..65534 - k as i32 { let j = w.insert_raw(RawConstantEntry::Int(i)); check(j as i32 == i + 1, "indices count up") }
        let wide = flip();
        let x = if wide { RawConstantEntry::Long(-9) } else { RawConstantEntry::Class(77) };
        let fits = k >= if wide { 2 } else { 1 };
        let i = w.insert_raw(x.clone());
        let again = w.insert_raw(RawConstantEntry::Int(5));
        check(again == 6, "entries are shared in a full pool too");
        let mut b = Vec::new();
        match w.write_to(&mut b) {
            Ok(()) => { cover("fits"); check(fits, "a pool that is too large is refused"); check(i as usize == 65535 - k, "index of the last entry"); check(g2(&b, 0) == Some((65535 - k + if wide { 2 } else { 1 }) as u16), "count of a full pool"); check(b.len() == 2 + 5 * (65534 - k) + if wide { 9 } else { 3 }, "all entries of a full pool are written") }
            Err(_) => { cover("refused"); check(!fits, "a pool that fits is written") }
        }
    }
}
fn kind(g: &mut G, k: usize) -> RawConstantEntry {
    use RawConstantEntry as R;
    match k {
        0 => { let c = u8(); assume(c > 0 && c < 128); R::WTF8(own(unsafe { wtf_8::Wtf8String::from_bytes_unchecked(vec![b'a', c]) })) } 1 => R::Int(i32()), 2 => R::Float(TotalF32(f32::from_bits(u32()))), 3 => R::Long(i64()), 4 => R::Double(TotalF64(f64::from_bits(u64()))),
        5 => R::Class(u16()), 6 => R::String(u16()), 7 => R::Field(u16(), u16()), 8 => R::Method(u16(), u16()), 9 => R::InterfaceMethod(u16(), u16()), 10 => R::NameAndType(u16(), u16()), 11 => R::MethodHandle(u8(), u16()), 12 => R::MethodType(u16()), 13 => R::Dynamic(u16(), u16()), 14 => R::InvokeDynamic(u16(), u16()), 15 => R::Module(u16()), _ => { let _ = g; R::Package(u16()) }
    }
}
fn raw_eq(r: &Raw, e: &RawConstantEntry) -> bool {
    use RawConstantEntry as R;
    let d = &r.d;
    let two = |t: u8, a: u16, b: u16| r.tag == t && (g2(d, 0) == Some(a)) & (g2(d, 2) == Some(b));
    let one = |t: u8, a: u16| r.tag == t && g2(d, 0) == Some(a);
    let n4 = |t: u8, a: u32| r.tag == t && g4(d, 0) == Some(a);
    let n8 = |t: u8, a: u64| r.tag == t && (g4(d, 0) == Some((a >> 32) as u32)) & (g4(d, 4) == Some(a as u32));
    match e {
        R::WTF8(s) => r.tag == 1 && *d == mu(s), R::Int(x) => n4(3, *x as u32), R::Float(x) => n4(4, x.0.to_bits()), R::Long(x) => n8(5, *x as u64), R::Double(x) => n8(6, x.0.to_bits()),
        R::Class(a) => one(7, *a), R::String(a) => one(8, *a), R::MethodType(a) => one(16, *a), R::Module(a) => one(19, *a), R::Package(a) => one(20, *a),
        R::Field(a, b) => two(9, *a, *b), R::Method(a, b) => two(10, *a, *b), R::InterfaceMethod(a, b) => two(11, *a, *b), R::NameAndType(a, b) => two(12, *a, *b), R::Dynamic(a, b) => two(17, *a, *b), R::InvokeDynamic(a, b) => two(18, *a, *b),
        R::MethodHandle(k, i) => r.tag == 15 && (d[0] == *k) & (g2(&d[1..], 0) == Some(*i)),
    }
}
