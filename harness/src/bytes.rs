//! Arbitrary bytes: reading never panics and never asks for more memory than the input justifies; what is accepted survives writing and reading.
use crate::cf::*;
use crate::class::{same, MAGIC};
use crate::harnesses;
use crate::rt::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use std::str::FromStr;

/// The most that one allocation may take for inputs of the sizes below.
const LIMIT: u64 = 1 << 20;
/// Entries: 1 utf A, 2 class, 3 utf I, 4 utf ()V, 5/6 name and type, 7 field, 8 method, 9 handle, 10 int, 11 long, 13 string, 14 method type, 15 dynamic, 16 module, 17 package, 18 the name, 19 utf (empty), 20 float, 21 double
fn pool(name: &str) -> Pool {
    let mut p = Pool::new();
    p.utf(b"A"); p.put_ref(7, &[1]); p.utf(b"I"); p.utf(b"()V"); p.put_ref(12, &[1, 3]); p.put_ref(12, &[1, 4]); p.put_ref(9, &[2, 5]); p.put_ref(10, &[2, 6]); p.put_mh(6, 8);
    p.add(&Ent::Int(1)); p.add(&Ent::Long(1)); p.put_ref(8, &[1]); p.put_ref(16, &[4]); p.put_ref(17, &[0, 5]); p.put_ref(19, &[1]); p.put_ref(20, &[1]);
    p.utf(name.as_bytes());
    p.utf(b""); p.add(&Ent::Float(0x7FC0_0001)); p.add(&Ent::Double(0xFFF8_0000_0000_0001));
    p
}
fn head() -> B { let mut b = MAGIC.to_vec(); b.extend_from_slice(&[0, 0, 0, 52]); b }
/// All bootstrap methods are one table, wherever the attribute stands.
fn one_table(mut c: Class, strip: bool) -> Class {
    let mut t = Vec::new();
    let mut v = Vec::new();
    for a in std::mem::take(&mut c.attributes) { match a { ClassAttribute::BootstrapMethods(b) => t.extend(b), a => v.push(a) } }
    v.push(ClassAttribute::BootstrapMethods(t));
    c.attributes = v;
    // code with a stack map (which is not kept) may have labels that nothing else uses
    for m in &mut c.methods { for a in &mut m.attributes { if let MethodAttribute::Code(k) = a { if strip { k.code.retain(|i| !matches!(i, Instruction::Label(_))) } } } }
    c
}
/// Reads a class from the bytes; with `again`, what is accepted is written and read once more.
fn class(b: &[u8], again: bool) { class_(b, again, false) }
fn class_in((b, strip): (B, bool), again: bool) { class_(&b, again, strip) }
fn class_(b: &[u8], again: bool, strip: bool) {
    if !again { alloc_limit(LIMIT) }
    match rd::<Class>(b) {
        Ok(c) => {
            cover("accepted");
            observe(c.attributes.len() as u64);
            if again {
                let mut o = Vec::new();
                if c.write_to(&mut o).is_err() { check(false, "a class that was read is written"); return }
                match rd::<Class>(&o) { Ok(d) => same(&one_table(d, strip), &one_table(c, strip)), Err(_) => check(false, "a class that was written is read") }
            }
        }
        Err(_) => { cover("refused"); observe(0) }
    }
}
/// Constant pool and whatever follows: any bytes.
fn g_pool() -> B { let mut b = head(); b.extend_from_slice(&bytes(pick(param(0) + 1))); b }
/// Any bytes after a pool.
fn g_body(least: usize) -> B { let mut b = head(); b.extend_from_slice(&pool("Synthetic").bytes()); let n = least + pick(param(0) + 1); b.extend_from_slice(&bytes(n)); b }
const CLASS: [&str; 17] = ["Signature", "Synthetic", "Deprecated", "SourceFile", "InnerClasses", "EnclosingMethod", "SourceDebugExtension", "BootstrapMethods", "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];
const FIELD: [&str; 8] = ["Signature", "Synthetic", "Deprecated", "ConstantValue", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];
const METHOD: [&str; 13] = ["Code", "Exceptions", "Signature", "Synthetic", "Deprecated", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations", "AnnotationDefault", "MethodParameters"];
const CODE: [&str; 7] = ["LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "Other"];
/// Which of the names are tried: the visible and invisible kinds share their code.
fn at(p: usize, names: &[&str]) -> usize { let k = pick(names.len()); assume(p < 9 && (names[k].len() < 9 || &names[k][..9] != "RuntimeIn")); k }
fn attr(b: &mut B, n: usize) { b.extend_from_slice(&[0, 1, 0, 18]); b.extend_from_slice(&(n as u32).to_be_bytes()); b.extend_from_slice(&bytes(n)) }
/// One attribute with any contents in a class, field, method or code.
fn g_attr(place: usize) -> (B, bool) {
    let names: &[&str] = match place { 0 => &CLASS, 1 => &FIELD, 2 => &METHOD, _ => &CODE };
    let k = at(place, names);
    let most = if names[k].ends_with("Table") && k < 3 && place == 3 { param(1) } else { param(0) };
    let n = pick(most + 1);
    let mut p = pool(names[k]);
    if place == 3 { p.utf(b"Code"); }
    let mut b = head();
    b.extend_from_slice(&p.bytes());
    b.extend_from_slice(&[0, 1, 0, 2, 0, 0, 0, 0]);
    match place {
        0 => { b.extend_from_slice(&[0, 0, 0, 0]); attr(&mut b, n) }
        1 => { b.extend_from_slice(&[0, 1, 0, 0, 0, 1, 0, 3]); attr(&mut b, n); b.extend_from_slice(&[0, 0, 0, 0]) }
        2 => { b.extend_from_slice(&[0, 0, 0, 1, 0, 0, 0, 1, 0, 4]); attr(&mut b, n); b.extend_from_slice(&[0, 0]) }
        _ => { b.extend_from_slice(&[0, 0, 0, 1, 0, 0, 0, 1, 0, 4, 0, 1, 0, 23]); b.extend_from_slice(&(20 + n as u32).to_be_bytes()); b.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 2, 0, 0xb1, 0, 0]); attr(&mut b, n); b.extend_from_slice(&[0, 0]) }
    }
    (b, names[k] == "StackMapTable")
}
/// The parts of code that follow the instructions: any bytes.
fn g_code() -> B {
    let mut p = pool("LineNumberTable");
    p.utf(b"Code");
    let mut b = head();
    b.extend_from_slice(&p.bytes());
    b.extend_from_slice(&[0, 1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 4, 0, 1, 0, 23]);
    let n = 4 + pick(param(0) + 1);
    b.extend_from_slice(&(10 + n as u32).to_be_bytes());
    b.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 2, 0, 0xb1]);
    b.extend_from_slice(&bytes(n));
    b.extend_from_slice(&[0, 0]);
    b
}
/// Any instructions.
fn g_insns() -> B {
    let mut p = pool("x");
    p.utf(b"Code");
    let mut b = head();
    b.extend_from_slice(&p.bytes());
    b.extend_from_slice(&[0, 1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 4, 0, 1, 0, 23]);
    let mut c = Vec::new();
    // one instruction of any kind, or a switch; with a count of its own the entries are zero
    match pick(5) {
        0 => { let op = u8(); assume(op != 0xaa && op != 0xab && op != 0xc4); let op = concretize(op as u64) as u8; c.push(op); c.extend_from_slice(&bytes(if op <= 0xc9 { crate::insn::fixed(op) - 1 } else { 0 })) }
        1 => { c.push(0xc4); let op = u8(); c.push(op); c.extend_from_slice(&bytes(if op == 0x84 { 4 } else { 2 })) }
        2 => { c.extend_from_slice(&[0xab, 0, 0, 0]); let k = pick(param(0) + 1); c.extend_from_slice(&bytes(4)); c.extend_from_slice(&(k as u32).to_be_bytes()); c.extend_from_slice(&bytes(8 * k)) }
        3 => { c.extend_from_slice(&[0xaa, 0, 0, 0]); let k = pick(param(0) + 1); c.extend_from_slice(&bytes(4)); let lo = i32(); assume(lo <= i32::MAX - 8); c.extend_from_slice(&lo.to_be_bytes()); c.extend_from_slice(&(lo + k as i32).to_be_bytes()); c.extend_from_slice(&bytes(4 * k + 4)) }
        _ => { let k = pick(2); c.extend_from_slice(&[0xaa + k as u8, 0, 0, 0]); c.extend_from_slice(&bytes(12 - 4 * k)); c.extend_from_slice(&[0; 8]) }
    }
    c.push(0xb1);
    b.extend_from_slice(&(12 + c.len() as u32).to_be_bytes());
    b.extend_from_slice(&[0, 1, 0, 1]);
    b.extend_from_slice(&(c.len() as u32).to_be_bytes());
    b.extend_from_slice(&c);
    b.extend_from_slice(&[0, 0, 0, 0, 0, 0]);
    b
}
/// A constant of any kind with any references, used by an instruction or as an argument of a bootstrap method.
fn g_const() -> B {
    let mut p = pool("BootstrapMethods");
    p.utf(b"Code");
    let x = match pick(11) { 0 => p.put_ref(7, &[u16()]), 1 => p.put_ref(8, &[u16()]), 2 => p.put_ref(9, &[2, u16()]), 3 => p.put_ref(10, &[2, u16()]), 4 => p.put_ref(11, &[2, u16()]), 5 => p.put_ref(16, &[u16()]), 6 => p.put_ref(17, &[u16(), 5 + pick(2) as u16]), 7 => p.put_ref(18, &[u16(), 5 + pick(2) as u16]), 8 => { let i = p.put_ref(11, &[2, 5 + pick(2) as u16]); let k = u8(); p.put_mh(k, i) } 9 => p.put_mh(u8(), u16()), _ => p.put_ref(9 + pick(3) as u8, &[u16(), 6]) };
    let mut b = head();
    b.extend_from_slice(&p.bytes());
    b.extend_from_slice(&[0, 1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 4, 0, 1, 0, 23]);
    let (h, l) = ((x >> 8) as u8, x as u8);
    let c: B = match pick(9) { 0 => vec![0x12, l], 1 => vec![0x13, h, l], 2 => vec![0x14, h, l], 3 => vec![0xb2, h, l], 4 => vec![0xb6 + pick(3) as u8, h, l], 5 => vec![0xb9, h, l, 1, 0], 6 => vec![0xba, h, l, 0, 0], 7 => vec![[0xbb, 0xbd, 0xc0][pick(3)], h, l], _ => vec![0] };
    let arg = c.len() == 1;
    b.extend_from_slice(&(12 + c.len() as u32).to_be_bytes());
    b.extend_from_slice(&[0, 1, 0, 1]);
    b.extend_from_slice(&(c.len() as u32).to_be_bytes());
    b.extend_from_slice(&c);
    b.extend_from_slice(&[0, 0, 0, 0, 0, 1, 0, 18, 0, 0, 0]);
    if arg { b.extend_from_slice(&[8, 0, 1, 0, 9, 0, 1, h, l]) } else { b.extend_from_slice(&[6, 0, 1, 0, 9, 0, 0]) }
    b
}
fn text(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n { let c = u32(); assume(c < 0x110000 && !(c >= 0xD800 && c < 0xE000)); match char::from_u32(c) { Some(c) => s.push(c), None => assume(false) } }
    s
}

harnesses! {
    fn h_any_pool() { class(&g_pool(), false) }
    fn h_any_body() { class(&g_body(10), false) }
    fn h_any_class_attr() { class_in(g_attr(0), false) }
    fn h_any_field_attr() { class_in(g_attr(1), false) }
    fn h_any_method_attr() { class_in(g_attr(2), false) }
    fn h_any_code_attr() { class_in(g_attr(3), false) }
    fn h_any_code() { class(&g_code(), false) }
    fn h_any_const() { class(&g_const(), false) }
    fn h_again_const() { class(&g_const(), true) }
    fn h_any_insns() { class(&g_insns(), false) }
    fn h_again_insns() { class(&g_insns(), true) }
    fn h_any_value() {
        alloc_limit(LIMIT);
        let mut cp = reader(&pool("x"));
        // up to param(1) arrays around the value, each with a count of its own
        let depth = pick(param(1) + 1);
        let mut b = Vec::new();
        for _ in 0..depth { b.push(b'['); b.extend_from_slice(&u16().to_be_bytes()) }
        b.extend_from_slice(&bytes(pick(param(0) + 1)));
        let ok = <AnnotationValue as ConstantPoolReadWrite>::read_from(&mut cp, &mut &b[..]).is_ok();
        cover(if ok { "accepted" } else { "refused" });
        observe(ok as u64);
    }
    fn h_any_text() {
        alloc_limit(LIMIT);
        // what a parser may have read before the interesting part
        let pre = ["", "L", "[", "(", "<", "T", "Lp<", "LA;", "<T:"][pick(9)];
        let s = String::from(pre) + &text(pick(param(0) + 1));
        let ok = match pick(7) { 0 => parse_type(&wtf_8::Wtf8String::from(s.clone())).is_ok(), 1 => ClassSignature::from_str(&s).is_ok(), 2 => FieldSignature::from_str(&s).is_ok(), 3 => MethodSignature::from_str(&s).is_ok(), 4 => RefTypeSignature::from_str(&s).is_ok(), 5 => TypeSignature::from_str(&s).is_ok(), _ => ClassTypeSignature::from_str(&s).is_ok() };
        cover(if ok { "accepted" } else { "refused" });
        observe(ok as u64);
    }
    fn h_any_frame() {
        alloc_limit(LIMIT);
        let mut cp = reader(&pool("x"));
        let mut b = vec![255u8];
        b.extend_from_slice(&bytes(pick(param(0) + 1)));
        let ok = <RawFrame as ConstantPoolReadWrite>::read_from(&mut cp, &mut &b[..]).is_ok();
        cover(if ok { "accepted" } else { "refused" });
        observe(ok as u64);
    }
    fn h_again_body() { class(&g_body(14), true) }
    fn h_again_class_attr() { class_in(g_attr(0), true) }
    fn h_again_field_attr() { class_in(g_attr(1), true) }
    fn h_again_method_attr() { class_in(g_attr(2), true) }
    fn h_again_code_attr() { class_in(g_attr(3), true) }
    fn h_again_code() { class(&g_code(), true) }
}
