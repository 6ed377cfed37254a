//! Attributes: modules, inner classes and the like; framing by length; unknown names (JVMS 4.7).
use crate::anno::t_vec;
use crate::cf::*;
use crate::harnesses;
use crate::rt::*;
use coffer::prelude::*;
use std::str::FromStr;

pub fn cls(n: &Name) -> Tk { Tk::new().r(Ent::Class(mu(n))) }
fn modl(n: &Name) -> Tk { Tk::new().r(Ent::Module(mu(n))) }
fn pkg(n: &Name) -> Tk { Tk::new().r(Ent::Package(mu(n))) }
fn outf(n: &O<Name>) -> Tk { Tk::new().r(opt(n, Ent::Utf)) }
fn empty() -> Name { own(wtf_8::Wtf8String::new()) }
/// Absent, a name, or the empty text (which is not the same as absent).
fn some(g: &mut G) -> O<Name> { match pick(if g.small { 2 } else { 3 }) { 0 => None, 1 => Some(g.ascii()), _ => Some(empty()) } }
/// Up to `max` different names, one name twice, or six names.
fn list(g: &mut G, max: usize) -> Vec<Name> { let n = pick(if g.small { max + 1 } else { max + 3 }); if n <= max { g.names(n) } else if n == max + 1 { let a = g.ascii(); vec![a.clone(), a] } else { (0..6).map(|_| g.name()).collect() } }

/// A module declaration with what it encodes to.
pub fn s_module(g: &mut G) -> (Module, Tk) {
    let name = g.ascii();
    let f = u16() & 0x9020;
    // one part of the declaration is varied at a time, the others are small
    let k = pick(6);
    let version = if k == 0 { if flip() { None } else { Some(empty()) } } else { Some(g.ascii()) };
    let nreq = if k == 1 { pick(3) } else { 1 };
    let requires: Vec<Require> = (0..nreq).map(|_| Require { module: g.ascii(), flags: RequireFlags::from_bits_truncate(u16() & 0x9060), version: if k == 1 { some(g) } else { None } }).collect();
    let nex = if k == 2 { pick(3) } else { (k == 5) as usize };
    let exports: Vec<Export> = (0..nex).map(|i| Export { package: g.ascii(), flags: ExOpFlags::from_bits_truncate(u16() & 0x9000), to: if i == 0 { list(g, 2) } else { vec![] } }).collect();
    let nop = if k == 3 { pick(3) } else { (k == 4) as usize };
    let opens: Vec<Open> = (0..nop).map(|i| Open { package: g.ascii(), flags: ExOpFlags::from_bits_truncate(u16() & 0x9000), to: if i == 0 { list(g, 2) } else { vec![] } }).collect();
    let uses = if k == 4 { list(g, 2) } else { vec![] };
    let npr = if k == 5 { pick(3) } else { 1 };
    let provides: Vec<Provide> = (0..npr).map(|i| Provide { class: g.ascii(), with: if i == 0 { list(g, 2) } else { vec![] } }).collect();
    let t = modl(&name).u2(f).cat(outf(&version))
        .cat(t_vec(&requires, |r| modl(&r.module).u2(r.flags.bits()).cat(outf(&r.version))))
        .cat(t_vec(&exports, |e| pkg(&e.package).u2(e.flags.bits()).cat(t_vec(&e.to, modl))))
        .cat(t_vec(&opens, |e| pkg(&e.package).u2(e.flags.bits()).cat(t_vec(&e.to, modl))))
        .cat(t_vec(&uses, cls))
        .cat(t_vec(&provides, |p| cls(&p.class).cat(t_vec(&p.with, cls))));
    (Module { name, flags: ModuleFlags::from_bits_truncate(f), version, requires, exports, opens, uses, provides }, t)
}
/// A class attribute without nested structure, with its name and what it encodes to.
pub fn s_class_attr(g: &mut G, k: usize) -> (ClassAttribute, &'static str, Tk) {
    match k {
        0 => { let n = g.any(); let t = Tk::new().utf(&mu(&n)); (ClassAttribute::SourceFile(n), "SourceFile", t) }
        1 => { let n = if flip() { g.any() } else { own(wtf_8::Wtf8String::new()) }; let t = Tk::new().raw(&mu(&n)); (ClassAttribute::SourceDebugExtension(SourceDebugExtension(n)), "SourceDebugExtension", t) }
        2 => { let n = g.ascii(); let t = cls(&n); (ClassAttribute::NestHost(n), "NestHost", t) }
        3 => { let v = list(g, 2); let t = t_vec(&v, cls); (ClassAttribute::NestMembers(v), "NestMembers", t) }
        4 => { let n = g.ascii(); let t = cls(&n); (ClassAttribute::ModuleMainClass(n), "ModuleMainClass", t) }
        5 => { let v = list(g, 2); let t = t_vec(&v, pkg); (ClassAttribute::ModulePackages(v), "ModulePackages", t) }
        6 => { let n = g.ascii(); let m = if flip() { let x = g.ascii(); Some((x, if flip() { g.mty() } else { g.ty() })) } else { None }; let t = cls(&n).r(match &m { Some((x, d)) => Ent::NT(mu(x), du(d)), None => Ent::None }); (ClassAttribute::EnclosingMethod(n, m), "EnclosingMethod", t) }
        7 => (ClassAttribute::Synthetic, "Synthetic", Tk::new()),
        8 => (ClassAttribute::Deprecated, "Deprecated", Tk::new()),
        _ => { let s = "<T:Lx/Y;>Lp/Q<TT;>;Lr/S;"; (ClassAttribute::Signature(ClassSignature::from_str(s).unwrap()), "Signature", Tk::new().utf(s.as_bytes())) }
    }
}
pub fn s_field_attr(g: &mut G, k: usize) -> (FieldAttribute, &'static str, Tk) {
    match k {
        0 => (FieldAttribute::Deprecated, "Deprecated", Tk::new()), 1 => (FieldAttribute::Synthetic, "Synthetic", Tk::new()),
        2 => { let s = "Lp/Q<[TT;*>;"; (FieldAttribute::Signature(FieldSignature::from_str(s).unwrap()), "Signature", Tk::new().utf(s.as_bytes())) }
        _ => { let c = match pick(5) { 0 => Constant::I32(i32()), 1 => Constant::F32(f32s()), 2 => Constant::I64(i64()), 3 => Constant::F64(f64s()), _ => Constant::String(g.any()) }; let t = Tk::new().r(e_const(&c)); (FieldAttribute::ConstantValue(c), "ConstantValue", t) }
    }
}
pub fn s_method_attr(g: &mut G, k: usize) -> (MethodAttribute, &'static str, Tk) {
    match k {
        0 => (MethodAttribute::Deprecated, "Deprecated", Tk::new()), 1 => (MethodAttribute::Synthetic, "Synthetic", Tk::new()),
        2 => { let s = "<T:Lx/Y;>(TT;[I)V^TT;"; (MethodAttribute::Signature(MethodSignature::from_str(s).unwrap()), "Signature", Tk::new().utf(s.as_bytes())) }
        _ => { let v = list(g, 3); let t = t_vec(&v, cls); (MethodAttribute::Exceptions(v), "Exceptions", t) }
    }
}
/// Parameter names and flags can only be read; gives the attribute, too.
fn s_params(g: &mut G) -> (Vec<(O<Name>, u16)>, Tk) {
    let n = pick(4);
    let v: Vec<(O<Name>, u16)> = (0..n).map(|_| (some(g), u16() & 0x9010)).collect();
    let mut t = Tk::new().u1(n as u8);
    for (a, f) in &v { t = t.cat(outf(a)).u2(*f) }
    (v, Tk::new().attr("MethodParameters", t))
}

/// Pool with an entry of every kind: 1-2 a long, 3 utf8, 4 class, 5 string, 6 module, 7 package, 8 name and type, 9 utf8 (a descriptor), 10 name and type that is none, 11 int, 12 utf8 attribute name, 13 float, 14-15 double, 16 utf8 (no signature)
fn mixed(name: &str) -> Pool {
    let mut p = Pool::new();
    p.add(&Ent::Long(5)); p.utf(b"p/N"); p.put_ref(7, &[3]); p.put_ref(8, &[3]); p.put_ref(19, &[3]); p.put_ref(20, &[3]);
    p.put_ref(12, &[3, 9]); p.utf(b"()J"); p.put_ref(12, &[3, 3]); p.add(&Ent::Int(4)); p.utf(name.as_bytes()); p.add(&Ent::Float(0)); p.add(&Ent::Double(0)); p.utf(b"Lx;");
    p
}
const AT: u16 = 12;
fn framed(len: u32, body: &[u8]) -> B { let mut b = be2(AT).to_vec(); b.extend_from_slice(&len.to_be_bytes()); b.extend_from_slice(body); b }
type Got = coffer::Result<(bool, usize)>;
/// Reads an attribute of a class, field or method: is it a raw one, and how many bytes remain?
fn take(place: usize, cp: &mut Cpr, b: &[u8]) -> Got {
    let mut r = b;
    let raw = match place { 0 => matches!(<ClassAttribute as ConstantPoolReadWrite>::read_from(cp, &mut r)?, ClassAttribute::Raw(_)), 1 => matches!(<FieldAttribute as ConstantPoolReadWrite>::read_from(cp, &mut r)?, FieldAttribute::Raw(_)), _ => matches!(<MethodAttribute as ConstantPoolReadWrite>::read_from(cp, &mut r)?, MethodAttribute::Raw(_)) };
    Ok((raw, r.len()))
}
fn raw_of(place: usize, cp: &mut Cpr, r: &mut &[u8]) -> O<RawAttribute> {
    match place { 0 => match <ClassAttribute as ConstantPoolReadWrite>::read_from(cp, r) { Ok(ClassAttribute::Raw(x)) => Some(x), _ => None }, 1 => match <FieldAttribute as ConstantPoolReadWrite>::read_from(cp, r) { Ok(FieldAttribute::Raw(x)) => Some(x), _ => None }, _ => match <MethodAttribute as ConstantPoolReadWrite>::read_from(cp, r) { Ok(MethodAttribute::Raw(x)) => Some(x), _ => None } }
}
const CLASS: [&str; 17] = ["Signature", "Synthetic", "Deprecated", "SourceFile", "InnerClasses", "EnclosingMethod", "SourceDebugExtension", "BootstrapMethods", "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];
const FIELD: [&str; 8] = ["Deprecated", "Synthetic", "Signature", "ConstantValue", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];
const METHOD: [&str; 13] = ["Code", "Deprecated", "Synthetic", "Signature", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations", "Exceptions", "AnnotationDefault", "MethodParameters"];
fn known(place: usize) -> &'static [&'static str] { match place { 0 => &CLASS, 1 => &FIELD, _ => &METHOD } }
const RVA: [&str; 4] = ["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];
/// A well-formed body for an attribute, with references into `mixed`.
fn sample(name: &str) -> B {
    match name {
        "Signature" => vec![0, 16], "Synthetic" | "Deprecated" => vec![], "SourceFile" => vec![0, 3], "InnerClasses" => vec![0, 1, 0, 4, 0, 0, 0, 3, 0, 1], "EnclosingMethod" => vec![0, 4, 0, 8],
        "BootstrapMethods" => vec![0, 0], "Module" => vec![0, 6, 0, 0, 0, 0, 0, 1, 0, 6, 0, 0, 0, 3, 0, 0, 0, 1, 0, 7, 0, 0, 0, 1, 0, 6, 0, 0, 0, 0], "ModulePackages" => vec![0, 1, 0, 7], "ModuleMainClass" | "NestHost" => vec![0, 4], "NestMembers" | "Exceptions" => vec![0, 2, 0, 4, 0, 4],
        "ConstantValue" => vec![0, 11], "AnnotationDefault" => vec![b'I', 0, 11], "MethodParameters" => vec![2, 0, 3, 0, 16, 0, 0, 0, 16],
        "Code" => vec![0, 1, 0, 1, 0, 0, 0, 1, 0xb1, 0, 0, 0, 0],
        "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => vec![2, 0, 1, 0, 16, 0, 0, 0, 0],
        n if n == RVA[0] || n == RVA[1] => vec![0, 1, 0, 16, 0, 1, 0, 3, b's', 0, 3],
        _ => unreachable!(),
    }
}

harnesses! {
    // C18: contents of class attributes
    fn h_attr_module() { let mut g = G::new(); let (m, t) = s_module(&mut g); both(&ClassAttribute::Module(m), &Tk::new().attr("Module", t), "module declaration"); cover("module") }
    fn h_attr_inner() {
        let mut g = G::new();
        let n = pick(param(0) + 1);
        let v: Vec<InnerClass> = (0..n).map(|_| InnerClass { inner_fqname: g.ascii(), outer_fqname: some(&mut g), inner_name: some(&mut g), inner_access: InnerClassFlags::from_bits_truncate(u16() & 0x761f) }).collect();
        let t = t_vec(&v, |i| cls(&i.inner_fqname).r(opt(&i.outer_fqname, Ent::Class)).cat(outf(&i.inner_name)).u2(i.inner_access.bits()));
        both(&ClassAttribute::InnerClasses(v), &Tk::new().attr("InnerClasses", t), "inner classes");
        cover("inner");
    }
    fn h_attr_class() { let mut g = G::new(); let k = pick(10); let (a, n, t) = s_class_attr(&mut g, k); both(&a, &Tk::new().attr(n, t), "class attribute"); cover("class") }
    fn h_attr_field() { let mut g = G::new(); let k = pick(4); let (a, n, t) = s_field_attr(&mut g, k); both(&a, &Tk::new().attr(n, t), "field attribute"); cover("field") }
    fn h_attr_method() { let mut g = G::new(); let k = pick(4); let (a, n, t) = s_method_attr(&mut g, k); both(&a, &Tk::new().attr(n, t), "method attribute"); cover("method") }
    // names of parameters: read, and written back the same
    fn h_attr_params() {
        let mut g = G::new();
        let (v, t) = s_params(&mut g);
        let mut p = Pool::new();
        let b = emit(&t.0, &mut p);
        match <MethodAttribute as ConstantPoolReadWrite>::read_from(&mut reader(&p), &mut &b[..]) {
            Ok(a) => { match &a { MethodAttribute::MethodParameters(x) => check(x.len() == v.len(), "number of parameters"), _ => check(false, "parameters are recognised") } writes(&a, &t, "parameters are written back") }
            Err(_) => check(false, "parameters are read"),
        }
        cover("params");
    }
    // any reference, to any kind of entry
    fn h_attr_refs() {
        let k = pick(17);
        let (place, name, pre, post): (usize, &str, &[u8], &[u8]) = [
            (0, "SourceFile", &[][..], &[][..]), (0, "NestHost", &[], &[]), (0, "NestMembers", &[0, 1], &[]), (0, "ModuleMainClass", &[], &[]), (0, "ModulePackages", &[0, 1], &[]), (0, "EnclosingMethod", &[], &[0, 0]), (0, "EnclosingMethod", &[0, 4], &[]), (0, "InnerClasses", &[0, 1], &[0, 0, 0, 0, 0, 0]), (0, "InnerClasses", &[0, 1, 0, 4], &[0, 0, 0, 0]),
            (0, "InnerClasses", &[0, 1, 0, 4, 0, 0], &[0, 0]), (0, "Module", &[], &[0; 14]), (0, "Module", &[0, 6, 0, 0], &[0; 10]), (0, "Module", &[0, 6, 0, 0, 0, 0, 0, 0, 0, 1], &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0]), (2, "Exceptions", &[0, 1], &[]), (2, "MethodParameters", &[1], &[0, 0]), (1, "ConstantValue", &[], &[]), (1, "Signature", &[], &[])][k];
        let i = u16();
        let mut b = pre.to_vec();
        b.extend_from_slice(&be2(i));
        b.extend_from_slice(post);
        let utf = i == 3 || i == 9 || i == AT || i == 16;
        let want = match k {
            0 => utf, 1 | 2 | 3 | 5 | 7 | 13 => i == 4, 4 | 12 => i == 7, 6 => i == 0 || i == 8, 8 => i == 0 || i == 4, 9 | 11 | 14 => i == 0 || utf, 10 => i == 6,
            15 => i == 1 || i == 5 || i == 11 || i == 13 || i == 14, _ => i == 16,
        };
        if k == 15 && i == 4 { return } // a class is no constant value, but reading one is no harm
        let a = framed(b.len() as u32, &b);
        match take(place, &mut reader(&mixed(name)), &a) { Ok((raw, left)) => { cover("resolves"); check(want, "a reference to an entry of another kind is refused"); check(!raw && left == 0, "the attribute is recognised and consumed") } Err(_) => { cover("refused"); check(!want, "a reference to an entry of the right kind is read") } }
    }
    // C15: the stated length against the contents
    fn h_attr_len() {
        let place = pick(3);
        let names = known(place);
        let k = pick(names.len());
        let name = names[k];
        if name == "SourceDebugExtension" || name == RVA[2] || name == RVA[3] { return }
        let mut b = if place == 2 && name == "Signature" { vec![0, 9] } else { sample(name) };
        let n = b.len();
        b.extend_from_slice(&[0, 3]);
        let len = u32();
        let a = framed(len, &b);
        match take(place, &mut reader(&mixed(name)), &a) { Ok((raw, left)) => { cover("exact"); check(len as usize == n, "a length that is not that of the contents is refused"); check(!raw && left == 2, "exactly the attribute is consumed") } Err(_) => { cover("refused"); check(len as usize != n, "an attribute of its length is read") } }
    }
    // type annotations, too
    fn h_attr_len_type() {
        let place = pick(3);
        let name = RVA[2 + pick(2)];
        let mut b = vec![0, 1, [0x00, 0x13, 0x01][place]];
        if place != 1 { b.push(7) }
        b.extend_from_slice(&[1, 3, 0, 0, 16, 0, 0]);
        let n = b.len();
        b.extend_from_slice(&[0, 3]);
        let len = u32();
        match take(place, &mut reader(&mixed(name)), &framed(len, &b)) { Ok((raw, left)) => { cover("exact"); check(len as usize == n, "a length that is not that of the contents is refused"); check(!raw && left == 2, "exactly the attribute is consumed") } Err(_) => { cover("refused"); check(len as usize != n, "an attribute of its length is read") } }
    }
    // the number of elements against the length
    fn h_attr_count() {
        let (place, name, unit, at): (usize, &str, &[u8], usize) = [(0, "NestMembers", &[0, 4][..], 2), (0, "InnerClasses", &[0, 4, 0, 0, 0, 0, 0, 9], 2), (0, "ModulePackages", &[0, 7], 2), (2, "Exceptions", &[0, 4], 2), (2, "MethodParameters", &[0, 0, 0, 16], 1), (1, "RuntimeVisibleAnnotations", &[0, 16, 0, 0], 2)][pick(6)];
        let have = pick(3);
        let (len, count) = (u32(), if at == 1 { u8() as u16 } else { u16() });
        let mut b = if at == 1 { vec![count as u8] } else { be2(count).to_vec() };
        for _ in 0..have { b.extend_from_slice(unit) }
        let full = b.len();
        b.extend_from_slice(unit);
        let want = at as u64 + unit.len() as u64 * count as u64;
        match take(place, &mut reader(&mixed(name)), &framed(len, &b)) { Ok((raw, left)) => { cover("exact"); check(len as u64 == want, "a count that does not fit the length is refused"); check(!raw && left as u64 == b.len() as u64 - want, "exactly the attribute is consumed") } Err(_) => { cover("refused"); let _ = full; check(len as u64 != want || want > b.len() as u64, "an attribute whose count fits its length is read") } }
    }
    // text of any length
    fn h_attr_debug() {
        let n = pick(4);
        let mut b = vec![b'a'; n];
        let c = u8();
        assume(c > 0 && c < 128);
        if n > 0 { b[n - 1] = c }
        let len = u32();
        let a = framed(len, &b);
        let mut r = &a[..];
        match <ClassAttribute as ConstantPoolReadWrite>::read_from(&mut reader(&mixed("SourceDebugExtension")), &mut r) { Ok(ClassAttribute::SourceDebugExtension(s)) => { cover("exact"); check(len as usize <= n, "text that is cut short is refused"); check(s.0.as_bytes() == &b[..len as usize] && r.len() == n - len as usize, "text of the stated length") } Ok(_) => check(false, "a debug extension is recognised"), Err(_) => { cover("refused"); check(len as usize > n, "text of the stated length is read") } }
    }
    // a name that differs anywhere from all known ones is unknown, and kept
    fn h_attr_name() {
        let place = pick(3);
        let names = known(place);
        let name = names[pick(names.len())];
        let mut v = name.as_bytes().to_vec();
        let c = u8();
        assume(c > 0 && c < 128);
        let how = pick(4);
        let at = match how { 0 => { v.push(c); v.len() - 1 } 1 => { v.insert(0, c); 0 } 2 => { let m = v.len() / 2; v[m] = c; m } _ => { let m = v.len() - 1; v[m] = c; m } };
        let changed = how < 2 || c != name.as_bytes()[at];
        let d = bytes(2);
        let mut p = mixed("x");
        let i = p.utf(&v);
        let mut b = be2(i).to_vec();
        b.extend_from_slice(&[0, 0, 0, 2, d[0], d[1], 9]);
        let mut r = &b[..];
        match raw_of(place, &mut reader(&p), &mut r) { Some(x) => { cover("unknown"); check(changed, "a known name is recognised"); check(mu(&x.name) == v && x.inner[..] == d[..] && r.len() == 1, "an unknown attribute keeps its name and contents") } None => { cover("known"); check(!changed, "an unknown attribute is kept") } }
    }
    // known names in the wrong place are unknown
    fn h_attr_place() {
        let place = pick(3);
        let name = ["Code", "ConstantValue", "Exceptions", "SourceFile", "InnerClasses", "MethodParameters", "AnnotationDefault", "NestHost", "BootstrapMethods", "LineNumberTable", "StackMapTable", "LocalVariableTable", "RuntimeVisibleParameterAnnotations", "PermittedSubclasses", "Record", ""][pick(16)];
        if known(place).contains(&name) { return }
        let n = pick(param(0) + 1);
        let d = bytes(n);
        let mut p = mixed(name);
        p.utf(b"");
        let mut b = be2(if name.is_empty() { p.next as u16 - 1 } else { AT }).to_vec();
        b.extend_from_slice(&(n as u32).to_be_bytes());
        b.extend_from_slice(&d);
        b.push(1);
        let mut r = &b[..];
        match raw_of(place, &mut reader(&p), &mut r) { Some(x) => { check(mu(&x.name) == name.as_bytes() && x.inner[..] == d[..] && r.len() == 1, "an attribute in another place keeps its name and contents") } None => check(false, "an attribute in another place is kept") }
        cover("kept");
    }
    // unknown attributes: any name, any contents, any stated length
    fn h_attr_raw() {
        let mut g = G::new();
        let n = pick(param(0) + 1);
        let d = bytes(n);
        let len = u32();
        let nm = g.any();
        let place = pick(3);
        let mut p = Pool::new();
        let i = p.utf(&mu(&nm));
        let mut b = be2(i).to_vec();
        b.extend_from_slice(&len.to_be_bytes());
        b.extend_from_slice(&d);
        let mut r = &b[..];
        match raw_of(place, &mut reader(&p), &mut r) { Some(x) => { cover("read"); check(len as usize <= n, "contents that are cut short are refused"); check(x.name == nm && x.inner[..] == d[..len as usize] && r.len() == n - len as usize, "exactly the stated contents are kept") } None => { cover("refused"); check(len as usize > n, "an unknown attribute is read") } }
    }
    fn h_attr_raw_write() {
        let mut g = G::new();
        let n = pick(param(0) + 1);
        let d = bytes(n);
        let nm = g.any();
        let raw = RawAttribute::new(nm.clone(), d.clone());
        let t = { let mut t = Tk::new().utf(&mu(&nm)); t.0.push(T::L4(Tk::new().raw(&d).0)); t };
        match pick(3) { 0 => writes(&ClassAttribute::Raw(raw), &t, "unknown class attribute"), 1 => writes(&FieldAttribute::Raw(raw), &t, "unknown field attribute"), _ => writes(&MethodAttribute::Raw(raw), &t, "unknown method attribute") }
        cover("written");
    }
    // an attribute name that is no string
    fn h_attr_name_ref() {
        let i = u16();
        let place = pick(3);
        let mut b = be2(i).to_vec();
        b.extend_from_slice(&[0, 0, 0, 0]);
        let utf = i == 3 || i == 9 || i == AT || i == 16;
        match take(place, &mut reader(&mixed("x")), &b) { Ok((raw, left)) => { cover("read"); check(utf && raw && left == 0, "the name of an attribute is a string") } Err(_) => { cover("refused"); check(!utf, "an attribute with a name is read") } }
    }
    // attributes keep their order among each other
    fn h_attr_order() {
        let mut g = G::new();
        let n = pick(param(0) + 1);
        let mut t = Vec::new();
        match pick(2) {
            0 => {
                let mut v = Vec::new();
                for _ in 0..n { if flip() { let k = pick(4); let (a, nm, b) = s_field_attr(&mut g, k); v.push(a); t.push(Tk::new().attr(nm, b)) } else { let nm = g.ascii(); let d = bytes(1); t.push({ let mut t = Tk::new().utf(&mu(&nm)); t.0.push(T::L4(Tk::new().raw(&d).0)); t }); v.push(FieldAttribute::Raw(RawAttribute::new(nm, d))) } }
                let (name, ty, f) = (g.ascii(), g.ty(), u16() & 0x50df);
                let mut k = Tk::new().u2(f).utf(&mu(&name)).utf(&du(&ty)).u2(n as u16);
                for a in t { k = k.cat(a) }
                both(&Field { access: FieldFlags::from_bits_truncate(f), name, descriptor: ty, attrs: v }, &k, "field")
            }
            _ => {
                let mut v = Vec::new();
                for _ in 0..n { if flip() { let k = pick(4); let (a, nm, b) = s_method_attr(&mut g, k); v.push(a); t.push(Tk::new().attr(nm, b)) } else { let nm = g.ascii(); let d = bytes(1); t.push({ let mut t = Tk::new().utf(&mu(&nm)); t.0.push(T::L4(Tk::new().raw(&d).0)); t }); v.push(MethodAttribute::Raw(RawAttribute::new(nm, d))) } }
                let (name, ty, f) = (g.ascii(), g.mty(), u16() & 0x1dff);
                let mut k = Tk::new().u2(f).utf(&mu(&name)).utf(&du(&ty)).u2(n as u16);
                for a in t { k = k.cat(a) }
                both(&Method { access: MethodFlags::from_bits_truncate(f), name, descriptor: ty, attributes: v }, &k, "method")
            }
        }
        cover("order");
    }
}
