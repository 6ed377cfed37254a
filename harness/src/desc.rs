//! Descriptors (JVMS 4.3).
use crate::harnesses;
use crate::rt::*;
use crate::spec;
use crate::wtf::mk;
use coffer::prelude::{parse_type, write_type, Type};
use wtf_8::{Wtf8Str, Wtf8String};
use std::borrow::Cow;

/// Reference grammar over code points. Class names are non-empty runs without `;` in well-formed descriptors; the reader may
/// be lenient about what a class name contains, so names are any text up to the first `;`.
pub fn parse(c: &[u32]) -> Option<Type> {
    let mut i = 0;
    let t = if c.first() == Some(&('(' as u32)) {
        i = 1;
        let mut p = Vec::new();
        while *c.get(i)? != ')' as u32 { p.push(field(c, &mut i)?) }
        i += 1;
        if c.get(i) == Some(&('V' as u32)) { i += 1; Type::Method { parameters: p, ret: None } } else { Type::Method { parameters: p, ret: Some(Box::new(field(c, &mut i)?)) } }
    } else { field(c, &mut i)? };
    if i == c.len() { Some(t) } else { None }
}
fn field(c: &[u32], i: &mut usize) -> Option<Type> {
    let mut dims = 0u32;
    while *c.get(*i)? == '[' as u32 { dims += 1; *i += 1 }
    let x = c[*i];
    *i += 1;
    let b = if x == 66 { Type::Byte } else if x == 67 { Type::Char } else if x == 68 { Type::Double } else if x == 70 { Type::Float } else if x == 73 { Type::Int } else if x == 74 { Type::Long } else if x == 83 { Type::Short } else if x == 90 { Type::Boolean }
        else if x == 76 {
            let s = *i;
            while *c.get(*i)? != ';' as u32 { *i += 1 }
            let n = mk(&c[s..*i]);
            *i += 1;
            Type::Ref(Cow::Owned(n))
        } else { return None };
    if dims == 0 { Some(b) } else if dims <= 255 { Some(Type::ArrayRef(dims as u8, Box::new(b))) } else { None }
}
/// Structural printer of the reference.
pub fn print(t: &Type, o: &mut Vec<u8>) {
    match t {
        Type::Byte => o.push(b'B'), Type::Char => o.push(b'C'), Type::Double => o.push(b'D'), Type::Float => o.push(b'F'), Type::Int => o.push(b'I'), Type::Long => o.push(b'J'), Type::Boolean => o.push(b'Z'), Type::Short => o.push(b'S'),
        Type::Ref(n) => { o.push(b'L'); o.extend_from_slice(n.as_bytes()); o.push(b';') }
        Type::ArrayRef(d, t) => { for _ in 0..*d { o.push(b'[') } print(t, o) }
        Type::Method { parameters, ret } => { o.push(b'('); for p in parameters { print(p, o) } o.push(b')'); match ret { Some(r) => print(r, o), None => o.push(b'V') } }
    }
}
/// A symbolic class name of `n` code points without `;`.
pub fn sym_name(n: usize) -> Wtf8String {
    let mut v: Vec<u32> = Vec::new();
    for _ in 0..n { let c = crate::wtf::cp(); assume(c != ';' as u32); if let Some(&p) = v.last() { assume(!(spec::is_lead(p) && spec::is_trail(c))) } v.push(c) }
    mk(&v)
}
pub fn sym_field(depth: usize) -> Type {
    match pick(if depth == 0 { 9 } else { 10 }) {
        0 => Type::Byte, 1 => Type::Char, 2 => Type::Double, 3 => Type::Float, 4 => Type::Int, 5 => Type::Long, 6 => Type::Boolean, 7 => Type::Short,
        8 => Type::Ref(Cow::Owned(sym_name(1))),
        _ => { let d = concretize_dim(); let mut t = sym_field(depth - 1); while let Type::ArrayRef(_, x) = t { t = *x } Type::ArrayRef(d, Box::new(t)) }
    }
}
fn concretize_dim() -> u8 { [1, 2, 255][pick(3)] }

harnesses! {
    // parsing accepts exactly the descriptors and yields the type they denote
    fn h_desc_parse() {
        let n = pick(param(0) + 1);
        let mut v: Vec<u32> = Vec::new();
        for _ in 0..n { v.push(u8() as u32); assume(*v.last().unwrap() < 128) }
        let s = mk(&v);
        match (parse_type(&s), parse(&v)) {
            (Ok(a), Some(b)) => {
                check(a == b, "the type the descriptor denotes");
                let mut o = Wtf8String::new();
                write_type(&a, &mut o);
                check(o == s, "writing a parsed type returns the descriptor");
                if a.is_method() { cover("method") } else { cover("field") }
                observe_bytes(o.as_bytes());
            }
            (Err(_), None) => cover("rejected"),
            (Ok(_), None) => check(false, "text that is not a descriptor is rejected"),
            (Err(_), Some(_)) => check(false, "every descriptor is accepted"),
        }
    }
    // writing a type gives its descriptor, which parses back to the type
    fn h_desc_write() {
        let t = match pick(3) {
            0 => { cover("field"); sym_field(1) }
            1 => { cover("method"); let n = pick(param(0) + 1); let mut p = Vec::new(); for _ in 0..n { p.push(sym_field(0)) } Type::Method { parameters: p, ret: None } }
            _ => Type::Method { parameters: vec![], ret: Some(Box::new(sym_field(1))) },
        };
        let mut want = Vec::new();
        print(&t, &mut want);
        let s: Wtf8String = (&t).into();
        check(s.as_bytes() == &want[..], "descriptor of a type");
        let mut o = Wtf8String::from_string("x".to_string());
        write_type(&t, &mut o);
        check(o.as_bytes()[0] == b'x' && o.as_bytes()[1..] == want[..], "descriptor is appended");
        match parse_type(Wtf8Str::from_bytes(&want).unwrap()) { Ok(u) => check(u == t, "a written descriptor parses back to the type"), Err(_) => check(false, "a written descriptor parses") }
        if let Some(plain) = s.as_str() { check(t.to_string() == plain, "Display shows the descriptor") }
    }
    // class names of any text, including surrogates
    fn h_desc_name() {
        let n = pick(param(0) + 1);
        let name = sym_name(n);
        let mut v = vec![b'['; 2];
        v.push(b'L');
        v.extend_from_slice(name.as_bytes());
        v.push(b';');
        match parse_type(Wtf8Str::from_bytes(&v).unwrap()) {
            Ok(t) => { check(t == Type::ArrayRef(2, Box::new(Type::Ref(Cow::Owned(name.clone())))), "class name is kept"); let s: Wtf8String = (&t).into(); check(s.as_bytes() == &v[..], "class name is written back") }
            Err(_) => check(false, "any class name is accepted"),
        }
        check(parse_type(Wtf8Str::from_bytes(&v[..v.len() - 1]).unwrap()).is_err(), "a class name without its end is rejected");
        cover("name");
    }
    // the limit of 255 dimensions
    fn h_desc_dims() {
        let d = 254 + pick(4);
        let tail = [b'I', b'V', b'['][pick(3)];
        let mut v = vec![b'['; d];
        v.push(tail);
        let in_method = flip();
        if in_method { v.insert(0, b'('); v.push(b')'); v.push(b'V') }
        let r = parse_type(Wtf8Str::from_bytes(&v).unwrap());
        let ok = d <= 255 && tail == b'I';
        check(r.is_ok() == ok, "up to 255 dimensions of a type that exists");
        if let Ok(t) = r { cover("dims"); let s: Wtf8String = (&t).into(); check(s.as_bytes() == &v[..], "all dimensions are kept") } else { cover("refused") }
    }
}
