//! Dynamic constants and call sites, bootstrap methods, method handles (JVMS 4.4.8, 4.4.10, 4.7.23).
use crate::cf::*;
use crate::class::{read, walk, write, MAGIC};
use crate::harnesses;
use crate::insn::decode;
use crate::rt::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use coffer::version::JavaVersion;
use once_cell::sync::OnceCell;
use std::sync::Arc;

fn nm(s: &str) -> Name { own(wtf_8::Wtf8String::from(s.to_string())) }
fn void() -> Type { Type::Method { parameters: vec![], ret: None } }
fn handle(n: &str) -> MethodHandle { MethodHandle { kind: MethodHandleKind::InvokeStatic, member: MemberRef { owner: nm("O"), name: nm(n), descriptor: void(), itfs: false } } }
const KINDS: [MethodHandleKind; 9] = [MethodHandleKind::GetField, MethodHandleKind::GetStatic, MethodHandleKind::PutField, MethodHandleKind::PutStatic, MethodHandleKind::InvokeVirtual, MethodHandleKind::InvokeStatic, MethodHandleKind::InvokeSpecial, MethodHandleKind::NewInvokeSpecial, MethodHandleKind::InvokeInterface];

/// What a reference resolves to, or None where it does not or needs its own result. Entries of `Pp` are concrete or made so.
fn known(p: &Pp, i: u16, depth: usize) -> O<Ent> {
    if i == 0 || i as usize >= p.e.len() { return None }
    let i = concretize(i as u64) as u16;
    let r = p.e[i as usize].as_ref()?;
    if r.tag != 17 && r.tag != 18 { return p.resolve(i) }
    if depth == 0 { return None }
    let (b, x) = (g2(&r.d, 0)?, g2(&r.d, 2)?);
    let (n, d) = match p.resolve(x)? { Ent::NT(n, d) => (n, d), _ => return None };
    let b = Box::new(known_bsm(p, b, depth - 1)?);
    Some(if r.tag == 17 { Ent::Dyn(b, n, d) } else { Ent::Indy(b, n, d) })
}
fn known_bsm(p: &Pp, b: u16, depth: usize) -> O<Bsm> {
    if b as usize >= p.bsm.len() { return None }
    let (h, a) = &p.bsm[concretize(b as u64) as usize];
    let handle = match known(p, *h, 0)? { e @ Ent::MH(..) => e, _ => return None };
    let mut args = Vec::new();
    for x in a { match known(p, *x, depth)? { Ent::Indy(..) | Ent::Utf(_) | Ent::NT(..) | Ent::Module(_) | Ent::Package(_) => return None, e => args.push(e) } }
    Some(Bsm { handle, args })
}
fn dynamic(c: &Class) -> O<&Dynamic> { for m in &c.methods { for a in &m.attributes { if let MethodAttribute::Code(c) = a { match &c.code[..] { [Instruction::Push(OrDynamic::Dynamic(d)), ..] => return Some(d), [Instruction::InvokeDynamic(d), ..] => return Some(d), _ => {} } } } } None }
/// A class with one method that uses the entry `at`, and a table of bootstrap methods.
fn class_file(p: &mut Pool, at: O<(u16, bool)>, table: &[(u16, Vec<u16>)]) -> B {
    let (n, d) = (p.utf(b"m"), p.utf(b"()V"));
    let (code, bm) = (p.utf(b"Code"), p.utf(b"BootstrapMethods"));
    let this = p.add(&Ent::Class(b"C".to_vec()));
    let mut b = be2(0).to_vec();
    b.extend_from_slice(&be2(this));
    b.extend_from_slice(&[0, 0, 0, 0, 0, 0]);
    if let Some((i, site)) = at {
        let c = if site { vec![0xba, (i >> 8) as u8, i as u8, 0, 0, 0xb1] } else { vec![0x13, (i >> 8) as u8, i as u8, 0xb1] };
        b.extend_from_slice(&[0, 1, 0, 0]);
        b.extend_from_slice(&be2(n));
        b.extend_from_slice(&be2(d));
        b.extend_from_slice(&[0, 1]);
        b.extend_from_slice(&be2(code));
        b.extend_from_slice(&(12 + c.len() as u32).to_be_bytes());
        b.extend_from_slice(&[0, 2, 0, 0]);
        b.extend_from_slice(&(c.len() as u32).to_be_bytes());
        b.extend_from_slice(&c);
        b.extend_from_slice(&[0, 0, 0, 0]);
    } else { b.extend_from_slice(&[0, 0]) }
    if table.is_empty() && flip() { b.extend_from_slice(&[0, 0]) } else {
        let mut t = be2(table.len() as u16).to_vec();
        for (h, a) in table { t.extend_from_slice(&be2(*h)); t.extend_from_slice(&be2(a.len() as u16)); for x in a { t.extend_from_slice(&be2(*x)) } }
        b.extend_from_slice(&[0, 1]);
        b.extend_from_slice(&be2(bm));
        b.extend_from_slice(&(t.len() as u32).to_be_bytes());
        b.extend_from_slice(&t);
    }
    let mut v = MAGIC.to_vec();
    v.extend_from_slice(&[0, 0, 0, 55]);
    v.extend_from_slice(&p.bytes());
    v.extend_from_slice(&b);
    v
}
fn class(code: Vec<Instruction>, attributes: Vec<ClassAttribute>) -> Class {
    let mut c = Code::default();
    c.code = code;
    Class { version: JavaVersion::J8, access: ClassFlags::from_bits_truncate(0), name: nm("C"), super_name: None, interfaces: vec![], fields: vec![], methods: vec![Method { access: MethodFlags::from_bits_truncate(0), name: nm("m"), descriptor: void(), attributes: vec![MethodAttribute::Code(c)] }], attributes }
}
/// Writes the class; its instructions use `want` in order, and there are `count` bootstrap methods.
fn written(c: &Class, want: &[Ent], count: usize) {
    let b = match write(c) { Ok(b) => b, Err(_) => { check(false, "a class with dynamic constants is written"); return } };
    let w = match walk(&b) { Some(w) => w, None => { check(false, "the written class is well-formed"); return } };
    check(w.pool.bsm.len() == count, "equal bootstrap methods are stored once");
    for (h, _) in &w.pool.bsm { check(matches!(w.pool.resolve(*h), Some(Ent::MH(..))), "bootstrap methods have a method handle") }
    let s = w.methods[0][0].1;
    let n = g4(&b, s + 4).unwrap() as usize;
    let code = &b[s + 8..s + 8 + n];
    let mut i = 0;
    for e in want { match decode(code, i, &w.pool) { Some((r, l)) => { match &r.c { Some(x) => check(eq_ent(x, e), "bootstrap method, name and descriptor are kept"), None => check(false, "an instruction keeps its constant") } i += l } None => { check(false, "written references resolve"); return } } }
    check(i == n, "nothing else is in the code");
    observe(b.len() as u64);
    cover("written");
}
fn arg(g: &mut G) -> OrDynamic<Constant> { OrDynamic::Static(match pick(5) { 0 => Constant::I32(i32()), 1 => Constant::I64(i64()), 2 => Constant::String(g.ascii()), 3 => Constant::MethodType(void()), _ => Constant::MethodHandle(handle("h")) }) }

harnesses! {
    // which handles are valid
    fn h_dyn_handle() {
        let k = pick(9);
        let method = flip();
        let c = u8();
        assume(c > 0 && c < 128);
        let name = match pick(3) { 0 => { let mut v = b"<init>".to_vec(); v[5] = c; v } 1 => { let mut v = b"<clinit>".to_vec(); v[0] = c; v } _ => { let mut v = b"<clinit>".to_vec(); v[3] = c; v } };
        let special = &name[..] == b"<clinit>" || &name[..] == b"<init>";
        if k < 4 && special { return } // names of fields are not restricted
        let m = MethodHandle { kind: KINDS[k], member: MemberRef { owner: nm("O"), name: own(unsafe { wtf_8::Wtf8String::from_bytes_unchecked(name.clone()) }), descriptor: if method { void() } else { Type::Int }, itfs: flip() } };
        let ok = if k < 4 { !method } else if k == 7 { method && &name[..] == b"<init>" } else { method && !special };
        check(m.check().is_ok() == ok, "validity of a method handle");
        let mut w = writer();
        let mut b = Vec::new();
        check(ConstantPoolReadWrite::write_to(&m, &mut w, &mut b).is_ok() == ok, "only valid method handles are written");
        let mut p = Pool::new();
        let i = p.add(&e_member(&m.member));
        let b = [k as u8 + 1, (i >> 8) as u8, i as u8];
        match <MethodHandle as ConstantPoolReadWrite>::read_from(&mut reader(&p), &mut &b[..]) { Ok(x) => { cover("valid"); check(ok, "only valid method handles are read"); check(x.kind == m.kind && eq_ent(&e_handle(&x), &e_handle(&m)), "method handle") } Err(_) => { cover("invalid"); check(!ok, "a valid method handle is read") } }
    }
    // any index into the table, any handle, any argument
    fn h_dyn_read() {
        let mut p = Pool::new();
        let x = u32();
        p.add(&Ent::MH(6, Box::new(Ent::Method(b"O".to_vec(), b"h".to_vec(), b"()V".to_vec())))); // 7
        p.add(&Ent::Long(3)); // 8-9
        p.add(&Ent::Int(x)); // 10
        let nt = p.add(&Ent::NT(b"c".to_vec(), b"I".to_vec())); // 13
        let mt = p.add(&Ent::NT(b"s".to_vec(), b"()V".to_vec())); // 16
        let k = pick(2);
        let inner = p.put_ref(17, &[if k == 0 { u16() } else { 1 }, nt]); // 17: a constant for the arguments
        let site = flip();
        let at = if site { p.put_ref(18, &[if k == 0 { 0 } else { u16() }, mt]) } else { p.put_ref(17, &[if k == 0 { 0 } else { u16() }, nt]) };
        let n = pick(3);
        let mut table = Vec::new();
        for i in 0..n { let m = if i == 0 { pick(param(0) + 1) } else { 0 }; table.push((if k == 0 && i == 0 { u16() } else { 7 }, (0..m).map(|j| if j == 0 { u16() } else { [10, inner][pick(2)] }).collect::<Vec<u16>>())) }
        let b = class_file(&mut p, Some((at, site)), &table);
        // indices of what class_file adds are beyond those of the entries above
        let (mut q, _) = parse_pool(&b[8..]).unwrap();
        q.bsm = table.clone();
        let mut want = known(&q, at, 4);
        // the whole table must be in order
        for i in 0..n { if known_bsm(&q, i as u16, 4).is_none() { want = None } }
        // members are no arguments, but reading them is no harm
        for (_, a) in &table { for x in a { if *x as usize >= q.e.len() { continue } let t = &q.e[concretize(*x as u64) as usize]; if let Some(r) = t { if r.tag >= 9 && r.tag <= 11 { return } } } }
        match (read(&b), want) {
            (Ok(c), Some(e)) => { cover("read"); match dynamic(&c) { Some(d) => { check(d.bsm.get().is_some(), "the bootstrap method is there"); check(eq_ent(&e_dyn(d), &e), "bootstrap method, arguments, name and descriptor are those the indices point to") } None => check(false, "a dynamic constant is read as one") } }
            (Err(_), None) => cover("refused"), (Ok(_), None) => check(false, "a reference that does not resolve, or to itself, is refused"), (Err(_), Some(_)) => check(false, "a class whose references resolve is read"),
        }
    }
    // tables in which bootstrap methods need each other
    fn h_dyn_cycle() {
        let n = param(0);
        let mut p = Pool::new();
        let h = p.add(&Ent::MH(6, Box::new(Ent::Method(b"O".to_vec(), b"h".to_vec(), b"()V".to_vec()))));
        let nt = p.add(&Ent::NT(b"c".to_vec(), b"I".to_vec()));
        let ix: Vec<u16> = (0..n).map(|_| u16()).collect();
        // any of them may need any, the first two needs
        let mut refs = Vec::new();
        for i in 0..n { refs.push(p.put_ref(17, &[ix[i], nt])) }
        let mut table = Vec::new();
        for i in 0..n { let m = pick(if i == 0 { 3 } else { 2 }); let mut a = Vec::new(); if m > 0 { a.push(refs[i]) } if m > 1 { a.push(refs[n - 1]) } table.push((h, a)) }
        let b = class_file(&mut p, Some((refs[0], false)), &table);
        let (mut q, _) = parse_pool(&b[8..]).unwrap();
        q.bsm = table;
        let mut want = known(&q, refs[0], n + 1);
        for i in 0..n { if known_bsm(&q, i as u16, n + 1).is_none() { want = None } }
        match (read(&b), want) {
            (Ok(c), Some(e)) => { cover("read"); match dynamic(&c) { Some(d) => { check(eq_ent(&e_dyn(d), &e), "nested bootstrap methods are those the indices point to"); let s = match write(&c) { Ok(s) => s, Err(_) => { check(false, "nested bootstrap methods are written"); return } }; check(walk(&s).is_some(), "nested bootstrap methods are written well-formed") } None => check(false, "a dynamic constant is read as one") } }
            (Err(_), None) => cover("refused"), (Ok(_), None) => check(false, "bootstrap methods that need themselves are refused"), (Err(_), Some(_)) => check(false, "nested bootstrap methods are read"),
        }
    }
    // late resolution
    fn h_dyn_resolve() {
        let n = pick(3);
        let v: Vec<BootstrapMethod> = (0..n).map(|i| BootstrapMethod { handle: handle("h"), arguments: vec![OrDynamic::Static(Constant::I32(i as i32))] }).collect();
        let mut cp = MapCp::new();
        let k = pick(4);
        let ix: Vec<u16> = (0..k).map(|_| u16()).collect();
        let cells: Vec<Arc<OnceCell<BootstrapMethod>>> = (0..k).map(|_| Arc::new(OnceCell::new())).collect();
        for i in 0..k { cp.resolve_later(ix[i], cells[i].clone()) }
        let mut ok = true;
        for x in &ix { ok &= (*x as usize) < n }
        match cp.bootstrap_methods(&v) {
            Ok(()) => { cover("resolved"); check(ok, "an index outside the table is refused"); for i in 0..k { match cells[i].get() { Some(b) => check(eq_bsm(&e_bsm(b), &Bsm { handle: e_handle(&handle("h")), args: vec![Ent::Int(ix[i] as u32)] }), "the bootstrap method of an index"), None => check(false, "every reference is resolved") } } }
            Err(_) => { cover("refused"); check(!ok, "references within the table are resolved") }
        }
    }
    // writing: two uses whose bootstrap methods may be equal
    fn h_dyn_write() {
        let mut g = G::new();
        let (x, y) = (i32(), i32());
        let mk = |x: i32, h: &str| BootstrapMethod { handle: handle(h), arguments: vec![OrDynamic::Static(Constant::I32(x))] };
        let other = flip();
        let (a, b) = (mk(x, "h"), mk(y, if other { "k" } else { "h" }));
        let (n1, n2) = (g.ascii(), g.ascii());
        let d1 = Dynamic::new(a.clone(), n1, [Type::Int, Type::Long, Type::Ref(nm("R"))][pick(3)].clone());
        let site = flip();
        let d2 = Dynamic::new(b.clone(), n2, if site { void() } else { Type::Int });
        let want = [e_dyn(&d1), e_dyn(&d2)];
        let pre = pick(4);
        let z = i32();
        let attrs = match pre { 0 => vec![], 1 => vec![ClassAttribute::BootstrapMethods(vec![b.clone()])], 2 => vec![ClassAttribute::BootstrapMethods(vec![mk(z, "h"), a.clone()])], _ => vec![ClassAttribute::BootstrapMethods(vec![mk(z, "z")]), ClassAttribute::Synthetic] };
        // a table that the user gave is kept as it is; what it lacks is added once
        let mut t: Vec<(i32, bool)> = match pre { 0 => vec![], 1 => vec![(y, other)], 2 => vec![(z, false), (x, false)], _ => vec![] };
        let extra = (pre == 3) as usize;
        for u in [(x, false), (y, other)] { let mut has = false; for v in &t { has |= (v.0 == u.0) & (v.1 == u.1) } if !has { t.push(u) } }
        let c = class(vec![Instruction::Push(OrDynamic::Dynamic(d1)), if site { Instruction::InvokeDynamic(d2) } else { Instruction::Push(OrDynamic::Dynamic(d2)) }], attrs);
        written(&c, &want, t.len() + extra);
    }
    // arguments of every kind, and arguments that are dynamic
    fn h_dyn_args() {
        let mut g = G::new();
        let n = pick(param(0) + 1);
        let mut args: Vec<OrDynamic<Constant>> = (0..n).map(|_| arg(&mut g)).collect();
        let nest = pick(4);
        let mut count = 1;
        if nest > 0 {
            let mut d = Dynamic::new(BootstrapMethod { handle: handle("i"), arguments: vec![OrDynamic::Static(Constant::I32(i32()))] }, g.ascii(), Type::Int);
            count += 1;
            if nest == 2 { d = Dynamic::new(BootstrapMethod { handle: handle("j"), arguments: vec![OrDynamic::Dynamic(d)] }, g.ascii(), Type::Double); count += 1 }
            if nest == 3 { args.push(OrDynamic::Dynamic(d.clone())) }
            args.push(OrDynamic::Dynamic(d));
        }
        let d = Dynamic::new(BootstrapMethod { handle: handle("h"), arguments: args }, g.ascii(), Type::Int);
        let want = [e_dyn(&d)];
        let c = class(vec![Instruction::Push(OrDynamic::Dynamic(d))], vec![]);
        written(&c, &want, count);
    }
    // all kinds of handles in a table
    fn h_dyn_table() {
        let mut g = G::new();
        let h = s_handle(&mut g);
        let n = pick(3);
        let args: Vec<OrDynamic<Constant>> = (0..n).map(|i| if i == 0 { OrDynamic::Static(s_const(&mut g)) } else { OrDynamic::Static(Constant::Class(g.ascii())) }).collect();
        let v = vec![BootstrapMethod { handle: h, arguments: args }];
        let mut t = Tk::new().u2(1).r(e_handle(&v[0].handle)).u2(n as u16);
        for a in &v[0].arguments { t = t.r(e_ord(a)) }
        both(&ClassAttribute::BootstrapMethods(v), &Tk::new().attr("BootstrapMethods", t), "bootstrap methods");
        cover("table");
    }
}
