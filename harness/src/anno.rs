//! Annotations and type annotations (JVMS 4.7.16 - 4.7.22).
use crate::cf::*;
use crate::harnesses;
use crate::rt::*;
use coffer::annotation::*;
use coffer::prelude::*;
use std::collections::HashMap;

type Map = HashMap<Name, AnnotationValue>;
pub fn t_value(v: &AnnotationValue) -> Tk {
    let k = Tk::new();
    match v {
        AnnotationValue::Byte(x) => k.u1(b'B').r(Ent::Int(*x as i32 as u32)), AnnotationValue::Char(x) => k.u1(b'C').r(Ent::Int(*x as u32)), AnnotationValue::Double(x) => k.u1(b'D').r(Ent::Double(x.0.to_bits())), AnnotationValue::Float(x) => k.u1(b'F').r(Ent::Float(x.0.to_bits())),
        AnnotationValue::Int(x) => k.u1(b'I').r(Ent::Int(*x as u32)), AnnotationValue::Long(x) => k.u1(b'J').r(Ent::Long(*x as u64)), AnnotationValue::Short(x) => k.u1(b'S').r(Ent::Int(*x as i32 as u32)), AnnotationValue::Boolean(x) => k.u1(b'Z').r(Ent::Int(*x as u32)),
        AnnotationValue::String(s) => k.u1(b's').utf(&mu(s)), AnnotationValue::Enum(t, n) => k.u1(b'e').utf(&du(t)).utf(&mu(n)), AnnotationValue::Class(t) => k.u1(b'c').utf(&match t { Some(t) => du(t), None => b"V".to_vec() }),
        AnnotationValue::Annotation(a) => k.u1(b'@').cat(t_anno(a)),
        AnnotationValue::Array(v) => { let mut k = k.u1(b'[').u2(v.len() as u16); for x in v { k = k.cat(t_value(x)) } k }
    }
}
pub fn t_pairs(m: &Map) -> Tk { Tk::new().u2(m.len() as u16).any(m.iter().map(|(n, v)| Tk::new().utf(&mu(n)).cat(t_value(v))).collect()) }
pub fn t_anno(a: &Annotation) -> Tk { Tk::new().utf(&du(&a.annotation_type)).cat(t_pairs(&a.element_values)) }
pub fn t_vec<X>(v: &[X], f: impl Fn(&X) -> Tk) -> Tk { let mut k = Tk::new().u2(v.len() as u16); for x in v { k = k.cat(f(x)) } k }
pub fn t_path(p: &[TypePath]) -> Tk { let mut k = Tk::new().u1(p.len() as u8); for x in p { let (a, b) = match x { TypePath::Array(b) => (0, *b), TypePath::Nested(b) => (1, *b), TypePath::TypeBound(b) => (2, *b), TypePath::TypeArgument(b) => (3, *b) }; k = k.u1(a).u1(b) } k }

pub fn s_value(g: &mut G, depth: usize) -> AnnotationValue {
    match pick(if depth == 0 { 11 } else { 13 }) {
        0 => AnnotationValue::Byte(i8()), 1 => AnnotationValue::Char(u16()), 2 => AnnotationValue::Double(f64s()), 3 => AnnotationValue::Float(f32s()), 4 => AnnotationValue::Int(i32()), 5 => AnnotationValue::Long(i64()), 6 => AnnotationValue::Short(i16()),
        7 => AnnotationValue::Boolean(flip()), 8 => AnnotationValue::String(g.any()), 9 => AnnotationValue::Enum(g.rty(), g.ascii()), 10 => AnnotationValue::Class(match pick(3) { 0 => None, 1 => Some(g.ty()), _ => Some(Type::Short) }),
        11 => AnnotationValue::Annotation(s_anno(g, depth - 1, 1)),
        _ => { let n = pick(3); AnnotationValue::Array((0..n).map(|_| s_value(g, depth - 1)).collect()) }
    }
}
pub fn s_small(g: &mut G) -> AnnotationValue { match pick(3) { 0 => AnnotationValue::Int(i32()), 1 => AnnotationValue::String(g.ascii()), _ => AnnotationValue::Array(vec![AnnotationValue::Byte(i8())]) } }
pub fn s_map(g: &mut G, depth: usize, n: usize) -> Map { let mut m = HashMap::new(); for i in 0..n { let k = g.ascii(); let v = if i == 0 { s_value(g, depth) } else { s_small(g) }; m.insert(k, v); } m }
pub fn s_anno(g: &mut G, depth: usize, max: usize) -> Annotation { let n = pick(max + 1); let t = g.rty(); Annotation { annotation_type: t, element_values: s_map(g, depth, n) } }
pub fn s_path() -> Vec<TypePath> { let n = pick(3); (0..n).map(|i| if i > 0 { TypePath::TypeArgument(u8()) } else { match pick(4) { 0 => TypePath::Array(u8()), 1 => TypePath::Nested(u8()), 2 => TypePath::TypeBound(u8()), _ => TypePath::TypeArgument(u8()) } }).collect() }
fn s_ct() -> (ClassTypeAnnotationTarget, Tk) {
    let k = Tk::new();
    match pick(3) { 0 => { let a = u8(); (ClassTypeAnnotationTarget::GenericTypeParameter(a), k.u1(0).u1(a)) } 1 => { let a = u16(); (ClassTypeAnnotationTarget::ExtendsImplementsClause(a), k.u1(0x10).u2(a)) } _ => { let (a, b) = (u8(), u8()); (ClassTypeAnnotationTarget::GenericTypeParameterBound(a, b), k.u1(0x11).u1(a).u1(b)) } }
}
fn s_mt() -> (MethodTypeAnnotationTarget, Tk) {
    let k = Tk::new();
    match pick(6) {
        0 => { let a = u8(); (MethodTypeAnnotationTarget::GenericTypeParameter(a), k.u1(1).u1(a)) } 1 => { let (a, b) = (u8(), u8()); (MethodTypeAnnotationTarget::GenericTypeParameterBound(a, b), k.u1(0x12).u1(a).u1(b)) } 2 => (MethodTypeAnnotationTarget::Return, k.u1(0x14)), 3 => (MethodTypeAnnotationTarget::Reciever, k.u1(0x15)),
        4 => { let a = u8(); (MethodTypeAnnotationTarget::FormalParameter(a), k.u1(0x16).u1(a)) } _ => { let a = u16(); (MethodTypeAnnotationTarget::Throws(a), k.u1(0x17).u2(a)) }
    }
}
fn small_anno(g: &mut G) -> (Type, Map) { let n = pick(2); let t = g.rty(); let mut m = HashMap::new(); if n == 1 { let k = g.ascii(); let v = s_small(g); m.insert(k, v); } (t, m) }

harnesses! {
    // one element value of every kind
    fn h_anno_value() { let mut g = G::new(); let v = s_value(&mut g, param(0)); both(&v, &t_value(&v), "element value"); cover("value") }
    // numbers that do not fit the element's type are refused
    fn h_anno_narrow() {
        let tag = u8();
        let x = i32();
        let mut p = Pool::new();
        let i = p.add(&Ent::Int(x as u32));
        let b = [tag, (i >> 8) as u8, i as u8];
        let mut cp = reader(&p);
        let want = if tag == b'B' { if x >= -128 && x <= 127 { Some(AnnotationValue::Byte(x as i8)) } else { None } } else if tag == b'C' { if x >= 0 && x <= 65535 { Some(AnnotationValue::Char(x as u16)) } else { None } } else if tag == b'S' { if x >= -32768 && x <= 32767 { Some(AnnotationValue::Short(x as i16)) } else { None } }
            else if tag == b'Z' { if x == 0 { Some(AnnotationValue::Boolean(false)) } else if x == 1 { Some(AnnotationValue::Boolean(true)) } else { None } } else if tag == b'I' { Some(AnnotationValue::Int(x)) } else if tag == b'[' { Some(AnnotationValue::Array(vec![])) } else { None };
        if tag == b'[' { return } // the two bytes would be a count
        match (<AnnotationValue as ConstantPoolReadWrite>::read_from(&mut cp, &mut &b[..]), want) { (Ok(a), Some(w)) => { cover("fits"); check(a == w, "element value from an integer constant") } (Err(_), None) => cover("refused"), (Ok(_), None) => check(false, "an element value that is not of its type is refused"), (Err(_), Some(_)) => check(false, "a well-formed element value is read") }
    }
    // annotations as a class, field or method carries them
    fn h_anno_list() {
        let mut g = G::new();
        let n = pick(3);
        let v: Vec<Annotation> = (0..n).map(|i| { let t = g.rty(); let m = if i == 0 { let k = pick(param(0) + 1); let mut m = HashMap::new(); for _ in 0..k { let a = g.ascii(); let b = s_small(&mut g); m.insert(a, b); } m } else { HashMap::new() }; Annotation { annotation_type: t, element_values: m } }).collect();
        let t = t_vec(&v, t_anno);
        match pick(6) {
            0 => both(&ClassAttribute::RuntimeVisibleAnnotations(v), &Tk::new().attr("RuntimeVisibleAnnotations", t), "class annotations"), 1 => both(&ClassAttribute::RuntimeInvisibleAnnotations(v), &Tk::new().attr("RuntimeInvisibleAnnotations", t), "class annotations"),
            2 => both(&FieldAttribute::RuntimeVisibleAnnotations(v), &Tk::new().attr("RuntimeVisibleAnnotations", t), "field annotations"), 3 => both(&FieldAttribute::RuntimeInvisibleAnnotations(v), &Tk::new().attr("RuntimeInvisibleAnnotations", t), "field annotations"),
            4 => both(&MethodAttribute::RuntimeVisibleAnnotations(v), &Tk::new().attr("RuntimeVisibleAnnotations", t), "method annotations"), _ => both(&MethodAttribute::RuntimeInvisibleAnnotations(v), &Tk::new().attr("RuntimeInvisibleAnnotations", t), "method annotations"),
        }
        cover("list");
    }
    fn h_anno_default() { let mut g = G::new(); let v = s_value(&mut g, 1); let t = Tk::new().attr("AnnotationDefault", t_value(&v)); both(&MethodAttribute::AnnotationDefault(v), &t, "annotation default"); cover("default") }
    fn h_anno_type() {
        let mut g = G::new();
        let path = s_path();
        let k = pick(6);
        let vis = k % 2 == 0;
        let name = if vis { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" };
        match k / 2 {
            0 => { let (target, tt) = s_ct(); let (ty, m) = small_anno(&mut g); let t = Tk::new().attr(name, Tk::new().u2(1).cat(tt).cat(t_path(&path)).utf(&du(&ty)).cat(t_pairs(&m))); let v = vec![ClassTypeAnnotation { target, type_path: path, annotation_type: ty, element_values: m }]; both(&if vis { ClassAttribute::RuntimeVisibleTypeAnnotations(v) } else { ClassAttribute::RuntimeInvisibleTypeAnnotations(v) }, &t, "class type annotation") }
            1 => { let (target, tt) = s_mt(); let (ty, m) = small_anno(&mut g); let t = Tk::new().attr(name, Tk::new().u2(1).cat(tt).cat(t_path(&path)).utf(&du(&ty)).cat(t_pairs(&m))); let v = vec![MethodTypeAnnotation { target, type_path: path, annotation_type: ty, element_values: m }]; both(&if vis { MethodAttribute::RuntimeVisibleTypeAnnotations(v) } else { MethodAttribute::RuntimeInvisibleTypeAnnotations(v) }, &t, "method type annotation") }
            _ => { let (ty, m) = small_anno(&mut g); let t = Tk::new().attr(name, Tk::new().u2(1).u1(0x13).cat(t_path(&path)).utf(&du(&ty)).cat(t_pairs(&m))); let v = vec![FieldTypeAnnotation { target_type: FieldTarget::Field, type_path: path, annotation_type: ty, element_values: m }]; both(&if vis { FieldAttribute::RuntimeVisibleTypeAnnotations(v) } else { FieldAttribute::RuntimeInvisibleTypeAnnotations(v) }, &t, "field type annotation") }
        }
        cover("type");
    }
    // targets: every tag byte, for every place
    fn h_anno_target() {
        let b = bytes(3);
        let (t, x, y) = (b[0], b[1], ((b[1] as u16) << 8) | b[2] as u16);
        match pick(4) {
            0 => { let want = if t == 0 { Some(ClassTypeAnnotationTarget::GenericTypeParameter(x)) } else if t == 0x10 { Some(ClassTypeAnnotationTarget::ExtendsImplementsClause(y)) } else if t == 0x11 { Some(ClassTypeAnnotationTarget::GenericTypeParameterBound(x, b[2])) } else { None }; check(rd::<ClassTypeAnnotationTarget>(&b).ok() == want, "class targets") }
            1 => { let want = if t == 1 { Some(MethodTypeAnnotationTarget::GenericTypeParameter(x)) } else if t == 0x12 { Some(MethodTypeAnnotationTarget::GenericTypeParameterBound(x, b[2])) } else if t == 0x14 { Some(MethodTypeAnnotationTarget::Return) } else if t == 0x15 { Some(MethodTypeAnnotationTarget::Reciever) } else if t == 0x16 { Some(MethodTypeAnnotationTarget::FormalParameter(x)) } else if t == 0x17 { Some(MethodTypeAnnotationTarget::Throws(y)) } else { None }; check(rd::<MethodTypeAnnotationTarget>(&b).ok() == want, "method targets") }
            2 => check(rd::<FieldTarget>(&b).is_ok() == (t == 0x13), "field targets"),
            _ => { let want = if t == 0 { Some(TypePath::Array(x)) } else if t == 1 { Some(TypePath::Nested(x)) } else if t == 2 { Some(TypePath::TypeBound(x)) } else if t == 3 { Some(TypePath::TypeArgument(x)) } else { None }; check(rd::<TypePath>(&b).ok() == want, "type paths") }
        }
        cover("target");
    }
    // parameter annotations: read, then written back the same
    fn h_anno_param() {
        let mut g = G::new();
        let n = pick(3);
        let mut body = Tk::new().u1(n as u8);
        let mut lists = Vec::new();
        for i in 0..n { let k = pick(2); let v: Vec<Annotation> = (0..k).map(|_| Annotation { annotation_type: g.rty(), element_values: if i == 0 { let mut m = HashMap::new(); m.insert(g.ascii(), AnnotationValue::Int(i32())); m } else { HashMap::new() } }).collect(); body = body.cat(t_vec(&v, t_anno)); lists.push(v) }
        let vis = flip();
        let t = Tk::new().attr(if vis { "RuntimeVisibleParameterAnnotations" } else { "RuntimeInvisibleParameterAnnotations" }, body);
        let mut p = Pool::new();
        let b = emit(&t.0, &mut p);
        match <MethodAttribute as ConstantPoolReadWrite>::read_from(&mut reader(&p), &mut &b[..]) {
            Ok(a) => {
                match &a { MethodAttribute::RuntimeVisibleParameterAnnotations(v) => { check(vis, "visibility kept"); check(v.len() == n, "number of parameters"); for i in 0..n { check(v.len() <= i || **v[i] == lists[i][..], "parameter annotations") } } MethodAttribute::RuntimeInvisibleParameterAnnotations(v) => { check(!vis, "visibility kept"); check(v.len() == n, "number of parameters"); for i in 0..n { check(v.len() <= i || **v[i] == lists[i][..], "parameter annotations") } } _ => check(false, "parameter annotations are recognised") }
                writes(&a, &t, "parameter annotations are written back")
            }
            Err(_) => check(false, "parameter annotations are read"),
        }
        cover("param");
    }
}
