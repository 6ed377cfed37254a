//! What a Code attribute says about its instructions: exception table, line numbers, local variables, type annotations.
use crate::anno::{s_path, t_path};
use crate::cf::*;
use crate::harnesses;
use crate::insn::*;
use crate::rt::*;
use coffer::annotation::*;
use coffer::prelude::*;
use std::collections::HashMap;
use std::str::FromStr;

/// nop, bipush 5, nop, return
const CODE: [u8; 5] = [0x00, 0x10, 5, 0x00, 0xb1];
const POS: [usize; 4] = [0, 1, 3, 4];
const END: i64 = 5;
fn on(x: i64) -> bool { let mut r = x == END; for p in POS { r |= x == p as i64 } r }
fn name(s: &str) -> Name { own(wtf_8::Wtf8String::from(s.to_string())) }
fn body(catches: Tk, attrs: Vec<Tk>) -> Tk { let mut t = code_attr(&CODE, 7, 8).cat(catches).u2(attrs.len() as u16); for a in attrs { t = t.cat(a) } t }
/// Reads a Code attribute; gives it with the positions of its labels.
fn read(t: &Tk) -> O<(Code, Lm)> {
    let mut p = Pool::new();
    let mut b = emit(&t.0, &mut p);
    b.push(0x77);
    let mut r = &b[..];
    match <Code as ConstantPoolReadWrite>::read_from(&mut reader(&p), &mut r) {
        Ok(c) => {
            cover("read");
            check(r.len() == 1, "reading consumes exactly the code");
            check(c.max_stack == 7 && c.max_locals == 8, "the sizes of stack and locals");
            let v = decode_all(&CODE, &Pp { e: vec![None], ..Pp::default() }).unwrap();
            let m = same_code(&c.code, &v, CODE.len());
            observe(c.code.len() as u64);
            Some((c, m))
        }
        Err(_) => { cover("refused"); None }
    }
}
/// The line numbers of code with their positions.
fn lines(c: &[Instruction]) -> Vec<(i64, u16)> { let mut v = vec![]; let mut k = 0; for i in c { match i { Instruction::LineNumber(n) => v.push((if k < 4 { POS[k] as i64 } else { END }, *n)), Instruction::Label(_) => {} _ => k += 1 } } v }
fn t_lines(l: &[(u16, u16)]) -> Tk { let mut t = Tk::new().u2(l.len() as u16); for (p, n) in l { t = t.u2(*p).u2(*n) } Tk::new().attr("LineNumberTable", t) }
/// A local variable as the tables state it.
#[derive(Clone)]
struct Lv { start: u16, len: u16, name: Name, d: O<Type>, s: O<&'static str>, i: u16 }
fn t_vars(v: &[Lv], ty: bool) -> Tk { let mut t = Tk::new().u2(v.len() as u16); for x in v { t = t.u2(x.start).u2(x.len).utf(&mu(&x.name)).utf(&if ty { x.s.unwrap().as_bytes().to_vec() } else { du(x.d.as_ref().unwrap()) }).u2(x.i) } Tk::new().attr(if ty { "LocalVariableTypeTable" } else { "LocalVariableTable" }, t) }
fn same_var(v: &LocalVariable, w: &Lv, m: &Lm) -> bool {
    let (s, e) = (find(m, &v.start), find(m, &v.end));
    let sig = match (&v.signature, &w.s) { (None, None) => true, (Some(a), Some(b)) => a.to_string() == *b, _ => false };
    (s == w.start as i64) & (e == w.start as i64 + w.len as i64) & (v.name == w.name) & (v.index == w.i) & (v.descriptor == w.d) & sig
}
/// Any target with the positions that its labels must have; the catch target needs a table of one.
fn s_target(k: usize) -> (Tk, Vec<i64>) {
    let t = Tk::new().u1(0x40 + k as u8);
    match k {
        0 | 1 => { let n = pick(3); let mut t = t.u2(n as u16); let mut v = vec![]; for _ in 0..n { let (s, l, i) = (u16(), u16(), u16()); t = t.u2(s).u2(l).u2(i); v.extend_from_slice(&[s as i64, s as i64 + l as i64, i as i64]) } (t, v) }
        2 => { let i = u16(); (t.u2(i), vec![i as i64]) }
        3..=6 => { let p = u16(); (t.u2(p), vec![p as i64]) }
        _ => { let (p, a) = (u16(), u8()); (t.u2(p).u1(a), vec![p as i64, a as i64]) }
    }
}
fn same_target(t: &CodeTypeAnnotationTarget, k: usize, v: &[i64], m: &Lm, catches: &[Catch]) {
    use CodeTypeAnnotationTarget as T;
    let locals = |x: &Vec<LocalVarTarget>| { check(x.len() * 3 == v.len(), "as many ranges as there are"); for (i, l) in x.iter().enumerate() { check(find(m, &l.start) == v[3 * i] && find(m, &l.end) == v[3 * i + 1] && l.idx as i64 == v[3 * i + 2], "the range and slot of a variable's annotation") } };
    let at = |l: &Label| check(find(m, l) == v[0], "the position of an annotation");
    let arg = |l: &Label, a: u8| check((find(m, l) == v[0]) & (a as i64 == v[1]), "the position and argument of an annotation");
    let kind = match t {
        T::LocalVariable(x) => { locals(x); 0 } T::ResourceVariable(x) => { locals(x); 1 } T::CatchParameter(c) => { let i = v[0] as usize; check(i < catches.len() && *c == catches[i], "the exception handler of an annotation"); 2 }
        T::InstanceOf(l) => { at(l); 3 } T::Constructor(l) => { at(l); 4 } T::ConstructorRef(l) => { at(l); 5 } T::MethodRef(l) => { at(l); 6 }
        T::Cast(l, a) => { arg(l, *a); 7 } T::GenericConstructor(l, a) => { arg(l, *a); 8 } T::GenericMethod(l, a) => { arg(l, *a); 9 } T::GenericConstructorRef(l, a) => { arg(l, *a); 10 } T::GenericMethodRef(l, a) => { arg(l, *a); 11 }
    };
    check(kind == k, "the kind of target");
}
const L: [Label; 4] = [Label(40), Label(7), Label(0), Label(u32::MAX)];
fn any_label() -> Label { L[pick(4)] }
/// Code with labels at four places and jumps between them.
fn labelled() -> Vec<Instruction> {
    use Instruction as I;
    vec![I::Label(L[0]), I::NoOp, I::Label(L[1]), I::IntIncrement(u16(), 1), I::Jump(JumpCondition::IsNull, L[3]), I::Label(L[2]), I::Push(Constant::I32(i32()).into()), I::Jump(JumpCondition::Always, L[0]), I::Return(None), I::Label(L[3])]
}
/// Writes the code; the exception table and attributes must be what `f` makes of the label positions.
fn written(c: Code, f: impl Fn(&Lm) -> (Tk, Vec<Tk>)) {
    match write_code(&c) {
        Some((b, rest, p)) => {
            let m = check_written(&c.code, &b, &p);
            let (t, a) = f(&m);
            let t = t.u2(a.len() as u16).any(a);
            let mut i = 0;
            check(matches(&t.0, &rest, &mut i, &p), "the tables of the written code");
            check(i == rest.len(), "nothing else is written");
            observe(rest.len() as u64);
            cover("written");
        }
        None => check(false, "code that can be represented is written"),
    }
}
fn at(m: &Lm, l: Label) -> u16 { find(m, &l) as u16 }
fn code(code: Vec<Instruction>, catches: Vec<Catch>, attrs: Vec<CodeAttribute>) -> Code { Code { max_stack: u16(), max_locals: u16(), code, catches, attrs } }

harnesses! {
    // ---- reading ----
    fn h_meta_catch() {
        let n = 1 + pick(param(0));
        let mut t = Tk::new().u2(n as u16);
        let mut want = vec![];
        let mut ok = true;
        let mut g = G::new();
        for k in 0..n {
            let (s, e, h) = if k == 0 { (u16(), u16(), u16()) } else { (3, 4, u16()) };
            let c = if flip() { Some(g.ascii()) } else { None };
            t = t.u2(s).u2(e).u2(h).r(opt(&c, Ent::Class));
            ok &= on(s as i64) & on(e as i64) & on(h as i64);
            want.push((s as i64, e as i64, h as i64, c));
        }
        match read(&body(t, vec![])) {
            Some((c, m)) => {
                check(ok, "an exception handler outside the code is refused");
                check(c.catches.len() == n && c.attrs.is_empty(), "as many exception handlers as there are");
                for (k, w) in want.iter().enumerate() { let x = &c.catches[k]; check((find(&m, &x.start) == w.0) & (find(&m, &x.end) == w.1) & (find(&m, &x.handler) == w.2) & (x.catch == w.3), "the range, handler and type of an exception handler") }
            }
            None => check(!ok, "exception handlers are read"),
        }
    }
    // the class of an exception handler
    fn h_meta_catch_type() {
        let i = u16();
        let mut p = Pool::new();
        p.add(&Ent::Class(b"E".to_vec())); p.add(&Ent::Str(b"S".to_vec())); p.add(&Ent::Int(4));
        let t = code_attr(&CODE, 7, 8).u2(1).u2(0).u2(1).u2(3).u2(i).u2(0);
        let b = emit(&t.0, &mut p);
        match <Code as ConstantPoolReadWrite>::read_from(&mut reader(&p), &mut &b[..]) { Ok(c) => { cover("read"); check(i == 0 || i == 2, "only a class can be caught"); check(c.catches[0].catch.is_none() == (i == 0), "no class catches everything"); if let Some(n) = &c.catches[0].catch { check(n.as_bytes() == b"E", "the class that is caught") } } Err(_) => { cover("refused"); check(i != 0 && i != 2, "an exception handler is read") } }
    }
    fn h_meta_lines() {
        let n = 1 + pick(param(0));
        let mut l: Vec<(u16, u16)> = vec![];
        let mut ok = true;
        for k in 0..n { let x = (if k < 2 { u16() } else { POS[pick(4)] as u16 }, u16()); ok &= on(x.0 as i64); l.push(x) }
        let split = pick(n + 1);
        let attrs = if split == 0 || split == n { vec![t_lines(&l)] } else { vec![t_lines(&l[..split]), t_lines(&l[split..])] };
        match read(&body(Tk::new().u2(0), attrs)) {
            Some((c, _)) => {
                check(ok, "a line number outside the code is refused");
                check(c.attrs.is_empty() && c.catches.is_empty(), "nothing that is not there");
                let got = lines(&c.code);
                check(got.len() == n, "as many line numbers as there are");
                let mut want: Vec<(i64, u16)> = l.iter().map(|x| (concretize(x.0 as u64) as i64, x.1)).collect();
                want.sort_by_key(|x| x.0);
                let mut e = true;
                if got.len() == n { for k in 0..n { e &= got[k].0 == want[k].0 && got[k].1 == want[k].1 } }
                check(e, "line numbers stand where the table says, in its order");
            }
            None => { let mut lax = false; for x in &l { lax |= x.0 as i64 == END } check(!ok || lax, "line numbers are read") }
        }
    }
    fn h_meta_locals() {
        let mk = |k: usize| { let (start, len) = if k == 0 { (u16(), u16()) } else { (1, 3) }; Lv { start, len, name: name(["a", "b"][pick(2)]), d: None, s: None, i: u16() } };
        let n = param(0);
        let shape = pick(3); // one table, the other, both
        let (mut ds, mut ss) = (vec![], vec![]);
        if shape != 1 { for k in 0..1 + pick(n) { ds.push(Lv { d: Some([Type::Int, Type::Ref(name("D")), Type::ArrayRef(2, Box::new(Type::Long))][if k == 0 { pick(3) } else { 0 }].clone()), ..mk(k) }) } }
        if shape != 0 { for k in 0..1 + pick(n) { let w = if k == 0 && shape == 2 && flip() { let d: &Lv = &ds[0]; Lv { d: None, ..d.clone() } } else { mk(if shape == 2 { 1 } else { k }) }; ss.push(Lv { s: Some(["TX;", "Ljava/util/List<TY;>;"][if k == 0 { pick(2) } else { 0 }]), ..w }) } }
        let order = flip();
        let (a, b) = if order { (&ds, &ss) } else { (&ss, &ds) };
        // the same variable in both tables is one variable
        let mut want: Vec<Lv> = vec![];
        let mut ok = true;
        let mut twice = false;
        for (t, x) in a.iter().map(|x| (0, x)).chain(b.iter().map(|x| (1, x))) {
            ok &= on(x.start as i64) & on(x.start as i64 + x.len as i64);
            let mut hit = false;
            for w in want.iter_mut() { if w.name == x.name && w.start == x.start && w.len == x.len && w.i == x.i { hit = true; twice |= if x.d.is_some() { w.d.is_some() } else { w.s.is_some() }; if x.d.is_some() { w.d = x.d.clone() } else { w.s = x.s } } }
            if !hit { want.push(x.clone()) }
            let _ = t;
        }
        if twice { return } // one table must not list a variable twice
        let mut attrs = vec![];
        for t in [order, !order] { if t { if shape != 1 { attrs.push(t_vars(&ds, false)) } } else if shape != 0 { attrs.push(t_vars(&ss, true)) } }
        match read(&body(Tk::new().u2(0), attrs)) {
            Some((c, m)) => {
                check(ok, "a variable outside the code is refused");
                check(c.catches.is_empty() && c.attrs.len() == 1, "one list of variables");
                match c.attrs.first() { Some(CodeAttribute::LocalVariables(v)) => { check(v.len() == want.len(), "as many variables as there are"); if v.len() == want.len() { for k in 0..v.len() { check(same_var(&v[k], &want[k], &m), "the range, slot, name and type of a variable") } } } _ => check(false, "a list of variables") }
            }
            None => check(!ok, "variables are read"),
        }
    }
    fn h_meta_anno() {
        let k = pick(12);
        let (t, v) = s_target(k);
        let vis = flip();
        let path = s_path();
        let a = t.cat(t_path(&path)).utf(b"LA;").u2(0);
        let catches = Tk::new().u2(2).u2(0).u2(1).u2(3).u2(0).u2(1).u2(3).u2(4).u2(0);
        let mut ok = true;
        match k { 0 | 1 => for x in v.chunks(3) { ok &= on(x[0]) & on(x[1]) }, 2 => ok = v[0] < 2, _ => ok = on(v[0]) }
        match read(&body(catches, vec![Tk::new().attr(if vis { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" }, Tk::new().u2(1).cat(a))])) {
            Some((c, m)) => {
                check(ok, "an annotation outside the code is refused");
                check(c.catches.len() == 2 && c.attrs.len() == 1, "nothing that is not there");
                let l = match c.attrs.first() { Some(CodeAttribute::VisibleTypeAnnotations(l)) if vis => l, Some(CodeAttribute::InvisibleTypeAnnotations(l)) if !vis => l, _ => { check(false, "annotations stay visible or invisible"); return } };
                check(l.len() == 1, "one annotation");
                same_target(&l[0].target, k, &v, &m, &c.catches);
                check(l[0].type_path == path && l[0].element_values.is_empty() && du(&l[0].annotation_type) == b"LA;", "the path and type of an annotation");
            }
            None => check(!ok, "an annotation is read"),
        }
    }
    // target tags
    fn h_meta_target() {
        let tag = u8();
        let a = Tk::new().u1(tag).u2(0).u1(0).utf(b"LA;").u2(0);
        let known = tag >= 0x42 && tag <= 0x46;
        let b = Tk::new().u1(tag).u2(1).u1(9).u1(0).utf(b"LA;").u2(0);
        let arg = tag >= 0x47 && tag <= 0x4b;
        let locals = tag == 0x40 || tag == 0x41; // no ranges: the same bytes
        let second = flip();
        let r = read(&body(Tk::new().u2(1).u2(0).u2(1).u2(3).u2(0), vec![Tk::new().attr("RuntimeVisibleTypeAnnotations", Tk::new().u2(1).cat(if second { b } else { a }))]));
        check(r.is_some() == if second { arg } else { known || locals }, "exactly the targets inside code are accepted");
    }
    fn h_meta_raw() {
        let n = pick(param(0) + 1);
        let d = bytes(n);
        let mut g = G::new();
        let nm = g.ascii();
        let two = flip();
        let r = Tk::new().attr(std::str::from_utf8(&mu(&nm)).unwrap(), Tk::new().raw(&d));
        let mut attrs = vec![r.clone()];
        if two { attrs.insert(pick(2), t_lines(&[(1, 9)])) }
        match read(&body(Tk::new().u2(0), attrs)) {
            Some((c, _)) => { check(c.attrs.len() == 1, "one attribute"); match c.attrs.first() { Some(CodeAttribute::Raw(x)) => check(x.name == nm && x.inner[..] == d[..], "an unknown attribute keeps its name and bytes"), _ => check(false, "an unknown attribute is kept") } check(lines(&c.code).len() == two as usize, "line numbers beside it") }
            None => check(false, "an unknown attribute is read"),
        }
    }
    // ---- writing ----
    fn h_meta_w_catch() {
        let mut g = G::new();
        let n = 1 + pick(2);
        let v: Vec<Catch> = (0..n).map(|k| Catch { start: any_label(), end: if k == 0 { any_label() } else { L[1] }, handler: if k == 0 { any_label() } else { L[0] }, catch: if flip() { Some(g.ascii()) } else { None } }).collect();
        let w = v.clone();
        written(code(labelled(), v, vec![]), move |m| { let mut t = Tk::new().u2(n as u16); for c in &w { t = t.u2(at(m, c.start)).u2(at(m, c.end)).u2(at(m, c.handler)).r(opt(&c.catch, Ent::Class)) } (t, vec![]) })
    }
    fn h_meta_w_lines() {
        let mut c = labelled();
        let n = 1 + pick(2);
        let mut at_ = vec![];
        for _ in 0..n { let k = pick(c.len() + 1); let l = u16(); c.insert(k, Instruction::LineNumber(l)); }
        // position of each line number: where a label in its place would stand
        let mut probe = vec![];
        let mut id = 1000;
        for i in &c { if let Instruction::LineNumber(l) = i { probe.push(Instruction::Label(Label(id))); at_.push((Label(id), *l)); id += 1 } probe.push(i.clone()) }
        written(code(probe, vec![], vec![]), move |m| { let mut t = Tk::new().u2(n as u16); for (l, x) in &at_ { t = t.u2(at(m, *l)).u2(*x) } (Tk::new().u2(0), vec![Tk::new().attr("LineNumberTable", t)]) })
    }
    fn h_meta_w_locals() {
        let mut g = G::new();
        let n = 1 + pick(2);
        let v: Vec<LocalVariable> = (0..n).map(|k| { let k0 = pick(4); LocalVariable { start: if k == 0 { any_label() } else { L[0] }, end: if k == 0 { any_label() } else { L[3] }, name: g.ascii(), descriptor: if k0 == 1 || k0 == 3 { None } else if k == 0 { Some(g.ty()) } else { Some(Type::Int) }, signature: if k0 == 1 || k0 == 2 { Some(FieldSignature::from_str(["TX;", "Lp/Q<TY;>;"][(k == 1) as usize]).unwrap()) } else { None }, index: u16() } }).collect();
        // ranges that run backwards have no length
        let pos = |l: Label| L.iter().position(|x| *x == l).unwrap();
        let mut ok = true;
        for x in &v { ok &= pos(x.start) <= pos(x.end) }
        let c = code(labelled(), vec![], vec![CodeAttribute::LocalVariables(v.clone())]);
        if v.iter().any(|x| x.descriptor.is_none() && x.signature.is_none()) { check(write_code(&c).is_none(), "a variable without any type is refused"); cover("refused"); return }
        if !ok { check(write_code(&c).is_none(), "a range that runs backwards is refused"); cover("refused"); return }
        written(c, move |m| {
            let (mut a, mut b) = (vec![], vec![]);
            for x in &v {
                let w = Lv { start: at(m, x.start), len: at(m, x.end) - at(m, x.start), name: x.name.clone(), d: x.descriptor.clone(), s: x.signature.as_ref().map(|s| if s.to_string().len() == 3 { "TX;" } else { "Lp/Q<TY;>;" }), i: x.index };
                if w.d.is_some() { a.push(w.clone()) }
                if w.s.is_some() { b.push(w) }
            }
            let mut r = vec![];
            if !a.is_empty() { r.push(t_vars(&a, false)) }
            if !b.is_empty() { r.push(t_vars(&b, true)) }
            (Tk::new().u2(0), r)
        })
    }
    fn h_meta_w_anno() {
        use CodeTypeAnnotationTarget as T;
        let k = pick(12);
        let (l, e) = (any_label(), any_label());
        let (a, i) = (u8(), u16());
        let pos = |l: Label| L.iter().position(|x| *x == l).unwrap();
        if k < 2 { assume(pos(l) <= pos(e)) } else { assume(pos(e) == 0) }
        let catches = vec![Catch { start: L[0], end: L[1], handler: L[2], catch: None }, Catch { start: L[1], end: L[2], handler: L[0], catch: Some(name("X")) }];
        let which = pick(2);
        let vars = vec![LocalVarTarget { start: l, end: e, idx: i }, LocalVarTarget { start: L[1], end: L[1], idx: i }];
        let target = match k { 0 => T::LocalVariable(vars), 1 => T::ResourceVariable(vars), 2 => T::CatchParameter(catches[which].clone()), 3 => T::InstanceOf(l), 4 => T::Constructor(l), 5 => T::ConstructorRef(l), 6 => T::MethodRef(l), 7 => T::Cast(l, a), 8 => T::GenericConstructor(l, a), 9 => T::GenericMethod(l, a), 10 => T::GenericConstructorRef(l, a), _ => T::GenericMethodRef(l, a) };
        let path = s_path();
        let an = vec![CodeTypeAnnotation { target, type_path: path.clone(), annotation_type: Type::Ref(name("A")), element_values: HashMap::new() }];
        let vis = flip();
        written(code(labelled(), catches.clone(), vec![if vis { CodeAttribute::VisibleTypeAnnotations(an) } else { CodeAttribute::InvisibleTypeAnnotations(an) }]), move |m| {
            let mut c = Tk::new().u2(2);
            for x in &catches { c = c.u2(at(m, x.start)).u2(at(m, x.end)).u2(at(m, x.handler)).r(opt(&x.catch, Ent::Class)) }
            let t = Tk::new().u2(1).u1(0x40 + k as u8);
            let t = match k { 0 | 1 => t.u2(2).u2(at(m, l)).u2(at(m, e) - at(m, l)).u2(i).u2(at(m, L[1])).u2(0).u2(i), 2 => t.u2(which as u16), 3..=6 => t.u2(at(m, l)), _ => t.u2(at(m, l)).u1(a) };
            (c, vec![Tk::new().attr(if vis { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" }, t.cat(t_path(&path)).utf(b"LA;").u2(0))])
        })
    }
    // labels that are not in the code
    fn h_meta_w_missing() {
        let (l, m) = (Label(u32()), Label(5));
        let v = |x: Label| LocalVariable { start: m, end: x, name: name("v"), descriptor: Some(Type::Int), signature: None, index: 1 };
        let an = |t| vec![CodeAttribute::VisibleTypeAnnotations(vec![CodeTypeAnnotation { target: t, type_path: vec![], annotation_type: Type::Ref(name("A")), element_values: HashMap::new() }])];
        let catch = |a, b, c| Catch { start: a, end: b, handler: c, catch: None };
        let k = pick(8);
        let (catches, attrs) = match k { 0 => (vec![catch(l, m, m)], vec![]), 1 => (vec![catch(m, l, m)], vec![]), 2 => (vec![catch(m, m, l)], vec![]), 3 => (vec![], vec![CodeAttribute::LocalVariables(vec![v(l)])]), 4 => (vec![], an(CodeTypeAnnotationTarget::InstanceOf(l))), 5 => (vec![], an(CodeTypeAnnotationTarget::Cast(l, 0))), 6 => (vec![catch(m, m, m)], an(CodeTypeAnnotationTarget::CatchParameter(catch(m, l, m)))), _ => (vec![], an(CodeTypeAnnotationTarget::LocalVariable(vec![LocalVarTarget { start: m, end: l, idx: 0 }]))) };
        let c = code(vec![Instruction::Label(m), Instruction::NoOp], catches, attrs);
        match write_code(&c) { Some(_) => { cover("written"); check(l == m, "a label that is not in the code is refused") } None => { cover("refused"); check(l != m, "a label in the code is written") } }
    }
    fn h_meta_w_raw() {
        let n = pick(param(0) + 1);
        let d = bytes(n);
        let mut g = G::new();
        let nm = g.ascii();
        let r = RawAttribute { name: nm.clone(), inner: d.clone().into() };
        written(code(labelled(), vec![], vec![CodeAttribute::Raw(r)]), move |_| (Tk::new().u2(0), vec![Tk::new().attr(std::str::from_utf8(&mu(&nm)).unwrap(), Tk::new().raw(&d))]))
    }
    // positions behind far jumps
    fn h_meta_w_far() {
        use Instruction as I;
        let mut c = vec![I::Label(L[0]), I::Jump(JumpCondition::IntegerEquals, L[2]), I::LineNumber(u16()), I::Label(L[1]), I::NoOp];
        let ln = if let I::LineNumber(n) = c[2] { n } else { 0 };
        for _ in 0..[10, 5500][pick(2)] { c.push(I::IntIncrement(300, 300)) }
        c.push(I::Label(L[2]));
        c.push(I::Return(None));
        c.push(I::Label(L[3]));
        let i = u16();
        let catches = vec![Catch { start: L[1], end: L[2], handler: L[2], catch: None }];
        let vars = vec![LocalVariable { start: L[1], end: L[3], name: name("v"), descriptor: Some(Type::Int), signature: None, index: i }];
        written(code(c, catches, vec![CodeAttribute::LocalVariables(vars)]), move |m| (Tk::new().u2(1).u2(at(m, L[1])).u2(at(m, L[2])).u2(at(m, L[2])).u2(0), vec![t_lines(&[(at(m, L[1]), ln)]), t_vars(&[Lv { start: at(m, L[1]), len: at(m, L[3]) - at(m, L[1]), name: name("v"), d: Some(Type::Int), s: None, i }], false)]))
    }
}
