//! Bytecode (JVMS chapter 6): an independent decoder, and what coffer's instructions stand for.
use crate::cf::*;
use crate::harnesses;
use crate::rt::*;
use coffer::prelude::*;

/// An instruction as the specification describes it. Different encodings of the same operation have the same form:
/// constants are pushed by opcode 0x12, locals are accessed by the opcodes with an index, arrays are created by 0xC5.
#[derive(Clone, Debug)]
pub struct R { pub op: u8, pub n: Vec<i64>, pub c: O<Ent>, pub t: Vec<i64>, /** not a valid instruction, but reading it is no harm */ pub lax: bool }
fn r(op: u8) -> R { R { op, n: vec![], c: None, t: vec![], lax: false } }
fn rn(op: u8, n: &[i64]) -> R { R { n: n.to_vec(), ..r(op) } }
fn rc(op: u8, c: Ent) -> R { R { c: Some(c), ..r(op) } }
fn push(c: Ent) -> R { rc(0x12, c) }
/// `b` may be an operation without a meaning (0xFF), which equals everything.
pub fn eq_r(a: &R, b: &R) -> bool {
    if b.op == 0xff && b.lax { return true }
    if a.op != b.op || a.n.len() != b.n.len() || a.t.len() != b.t.len() { return false }
    let mut e = true;
    for i in 0..a.n.len() { e &= a.n[i] == b.n[i] }
    for i in 0..a.t.len() { e &= a.t[i] == b.t[i] }
    match (&a.c, &b.c) { (None, None) => e, (Some(x), Some(y)) => e & eq_ent(x, y), _ => false }
}
fn s8(b: u8) -> i64 { b as i8 as i64 }
fn s16(x: u16) -> i64 { x as i16 as i64 }
fn s32(x: u32) -> i64 { x as i32 as i64 }
/// Length of the instructions that have a fixed one; 0: no such opcode, or a variable length.
pub fn fixed(op: u8) -> usize {
    match op {
        0x10 | 0x12 | 0x15..=0x19 | 0x36..=0x3a | 0xa9 | 0xbc => 2,
        0x11 | 0x13 | 0x14 | 0x84 | 0x99..=0xa8 | 0xb2..=0xb8 | 0xbb | 0xbd | 0xc0 | 0xc1 | 0xc6 | 0xc7 => 3,
        0xc5 => 4, 0xb9 | 0xba | 0xc8 | 0xc9 => 5,
        0xaa | 0xab | 0xc4 => 0,
        0x00..=0xc9 => 1,
        _ => 0,
    }
}
fn desc_ok(d: &[u8]) -> bool { match crate::spec::wtf8_decode(d) { Some(c) => crate::desc::parse(&c).is_some(), None => false } }
fn dims(d: &[u8]) -> usize { let mut k = 0; while k < d.len() && d[k] == b'[' { k += 1 } k }
/// The array type whose elements are of the class.
fn array_of(c: &Ent) -> Ent { match c { Ent::Class(n) => { let mut v = vec![b'[']; if n.first() == Some(&b'[') { v.extend_from_slice(n) } else { v.push(b'L'); v.extend_from_slice(n); v.push(b';') } Ent::Class(v) } e => e.clone() } }
/// Decodes the instruction at `p`; None: there is none.
pub fn decode(b: &[u8], p: usize, pool: &Pp) -> O<(R, usize)> {
    let op = *b.get(p)?;
    let op = concretize(op as u64) as u8;
    let l = fixed(op);
    if p + l > b.len() { return None }
    let u1 = |i: usize| b.get(p + i).copied();
    let u2 = |i: usize| g2(b, p + i);
    let u4 = |i: usize| g4(b, p + i);
    let at = |off: i64| p as i64 + off;
    let mut lax = false;
    let r = match op {
        0x02..=0x08 => push(Ent::Int((op as i32 - 3) as u32)), 0x09 | 0x0a => push(Ent::Long(op as u64 - 9)),
        0x0b..=0x0d => push(Ent::Float([0, 0x3f80_0000, 0x4000_0000][op as usize - 0x0b])), 0x0e | 0x0f => push(Ent::Double([0, 0x3ff0_0000_0000_0000][op as usize - 0x0e])),
        0x10 => push(Ent::Int(s8(u1(1)?) as u32)), 0x11 => push(Ent::Int(s16(u2(1)?) as u32)),
        0x12..=0x14 => {
            let e = pool.resolve(if op == 0x12 { u1(1)? as u16 } else { u2(1)? })?;
            match &e { Ent::Int(_) | Ent::Float(_) | Ent::Str(_) | Ent::Class(_) | Ent::MT(_) | Ent::MH(..) => lax = op == 0x14, Ent::Long(_) | Ent::Double(_) => lax = op != 0x14, Ent::Field(..) | Ent::Method(..) | Ent::IMethod(..) => lax = true, Ent::Dyn(_, _, d) => lax = (op == 0x14) != (d.len() == 1 && (d[0] == b'J' || d[0] == b'D')), _ => return None }
            push(e)
        }
        0x15..=0x19 | 0x36..=0x3a | 0xa9 => rn(op, &[u1(1)? as i64]),
        0x1a..=0x2d => rn(0x15 + (op - 0x1a) / 4, &[(op as i64 - 0x1a) % 4]), 0x3b..=0x4e => rn(0x36 + (op - 0x3b) / 4, &[(op as i64 - 0x3b) % 4]),
        0x84 => rn(op, &[u1(1)? as i64, s8(u1(2)?)]),
        0x99..=0xa8 | 0xc6 | 0xc7 => R { t: vec![at(s16(u2(1)?))], ..r(op) },
        0xc8 | 0xc9 => R { t: vec![at(s32(u4(1)?))], ..r(op - 0xc8 + 0xa7) },
        0xb2..=0xb9 => {
            let e = pool.resolve(u2(1)?)?;
            match &e { Ent::Field(..) => lax = op > 0xb5, Ent::Method(..) => lax = op < 0xb6 || op == 0xb9, Ent::IMethod(..) => lax = op < 0xb7, Ent::Dyn(..) => lax = true, _ => return None }
            if op == 0xb9 { let (n, z) = (u1(3)?, u1(4)?); lax |= n == 0 || z != 0; R { c: Some(e), ..rn(op, &[n as i64]) } } else { rc(op, e) }
        }
        0xba => { let e = pool.resolve(u2(1)?)?; if let Ent::Indy(..) = e {} else { return None } lax = u2(3)? != 0; rc(op, e) }
        0xbb | 0xc0 | 0xc1 | 0xbd | 0xc5 => {
            let e = pool.resolve(u2(1)?)?;
            let arr = match &e { Ent::Class(n) => { let a = n.first() == Some(&b'['); if a && !desc_ok(n) { lax = true } a } Ent::Dyn(..) => { lax = true; false } _ => return None };
            match op {
                0xbb => { lax |= arr; rc(op, e) } 0xc0 | 0xc1 => rc(op, e), 0xbd => R { c: Some(array_of(&e)), ..rn(0xc5, &[1]) },
                _ => { let d = u1(3)?; let d = concretize(d as u64) as u8; if let Ent::Class(n) = &e { if d == 0 || dims(n) < d as usize { return None } } else if d == 0 { return None } R { c: Some(e), ..rn(op, &[d as i64]) } }
            }
        }
        0xbc => { let t = u1(1)?; if t < 4 || t > 11 { return None } let t = concretize(t as u64) as u8; R { c: Some(Ent::Class(vec![b'[', b"ZCFDBSIJ"[t as usize - 4]])), ..rn(0xc5, &[1]) } }
        0xc4 => {
            let o = concretize(u1(1)? as u64) as u8;
            let r = match o { 0x15..=0x19 | 0x36..=0x3a | 0xa9 => rn(o, &[u2(2)? as i64]), 0x84 => rn(o, &[u2(2)? as i64, s16(u2(4)?)]), _ => return None };
            return Some((r, if o == 0x84 { 6 } else { 4 }));
        }
        0xaa | 0xab => {
            let mut q = (p + 4) & !3;
            let dflt = at(s32(g4(b, q)?));
            q += 4;
            let mut t = vec![dflt];
            let mut n = Vec::new();
            if op == 0xaa {
                let (lo, hi) = (s32(g4(b, q)?), s32(g4(b, q + 4)?));
                q += 8;
                if lo > hi { return None }
                let room = ((b.len() - q) / 4) as i64;
                if hi - lo + 1 > room { return None }
                n.push(lo);
                for _ in 0..concretize((hi - lo + 1) as u64) { t.push(at(s32(g4(b, q)?))); q += 4 }
            } else {
                let k = s32(g4(b, q)?);
                q += 4;
                if k < 0 || k > ((b.len() - q) / 8) as i64 { return None }
                for _ in 0..concretize(k as u64) { let key = s32(g4(b, q)?); for x in &n { lax |= *x == key } n.push(key); t.push(at(s32(g4(b, q + 4)?))); q += 8 }
            }
            return Some((R { t, lax, ..rn(op, &n) }, q - p));
        }
        0x00..=0xc9 => r(op),
        _ => return None,
    };
    Some((R { lax, ..r }, l))
}
/// All instructions with their positions; None: not the code of a method.
pub fn decode_all(b: &[u8], pool: &Pp) -> O<Vec<(usize, R)>> { let mut v = Vec::new(); let mut p = 0; while p < b.len() { let (r, l) = decode(b, p, pool)?; v.push((p, r)); p += l } Some(v) }

fn class_ent(t: &OrDynamic<ClassType>) -> Ent { match t { OrDynamic::Dynamic(d) => e_dyn(d), OrDynamic::Static(ClassType::Object(n)) => Ent::Class(mu(n)), OrDynamic::Static(ClassType::Array(d, t)) => { let mut v = vec![b'['; *d as usize]; v.extend_from_slice(&du(t)); Ent::Class(v) } } }
fn mem_ent(m: &OrDynamic<MemberRef>) -> Ent { match m { OrDynamic::Dynamic(d) => e_dyn(d), OrDynamic::Static(m) => e_member(m) } }
pub fn cond(c: &JumpCondition) -> u8 {
    use JumpCondition::*;
    match c { IntegerEqualsZero => 0x99, IntegerNotEqualsZero => 0x9a, IntegerLessThanZero => 0x9b, IntegerGreaterThanOrEqualsZero => 0x9c, IntegerGreaterThanZero => 0x9d, IntegerLessThanOrEqualsZero => 0x9e, IntegerEquals => 0x9f, IntegerNotEquals => 0xa0, IntegerLessThan => 0xa1, IntegerGreaterThanOrEquals => 0xa2, IntegerGreaterThan => 0xa3, IntegerLessThanOrEquals => 0xa4, ReferenceEquals => 0xa5, ReferenceNotEquals => 0xa6, Always => 0xa7, IsNull => 0xc6, IsNonNull => 0xc7 }
}
pub type Lm = Vec<(Label, i64)>;
pub fn find(m: &Lm, l: &Label) -> i64 { for (k, p) in m { if k == l { return *p } } check(false, "every label that is used stands in the code"); -1 }
/// What an instruction of coffer stands for; None: no instruction at all.
pub fn neutral(i: &Instruction, m: &Lm) -> O<R> {
    use Instruction as I;
    let lt = |t: &LocalType| match t { LocalType::Int => 0, LocalType::Long => 1, LocalType::Float => 2, LocalType::Double => 3, LocalType::Reference => 4u8 };
    Some(match i {
        I::NoOp => r(0), I::PushNull => r(1), I::Push(c) => push(e_ord(c)),
        I::Pop1 => r(0x57), I::Pop2 => r(0x58), I::Dup => r(0x59), I::DupX1 => r(0x5a), I::DupX2 => r(0x5b), I::Dup2 => r(0x5c), I::Dup2X1 => r(0x5d), I::Dup2X2 => r(0x5e), I::Swap => r(0x5f),
        I::Jump(c, l) => R { t: vec![find(m, l)], ..r(cond(c)) }, I::Jsr(l) => R { t: vec![find(m, l)], ..r(0xa8) }, I::Ret(n) => rn(0xa9, &[*n as i64]),
        I::CompareLongs => r(0x94), I::CompareFloats(t, n) => r(0x95 + if let FloatType::Double = t { 2 } else { 0 } + if let NaNBehavior::ReturnsOne = n { 1 } else { 0 }),
        I::LocalVariable(k, t, n) => rn(if let LoadOrStore::Load = k { 0x15 } else { 0x36 } + lt(t), &[*n as i64]),
        I::Array(k, t) => { use ArrayType::*; r(if let LoadOrStore::Load = k { 0x2e } else { 0x4f } + match t { Int => 0, Long => 1, Float => 2, Double => 3, Reference => 4, ByteOrBool => 5, Char => 6, Short => 7 }) }
        I::ArrayLength => r(0xbe), I::Throw => r(0xbf),
        I::IntOperation(t, o) => { let w = if let IntType::Long = t { 1 } else { 0 }; use IntOperation::*; r(w + match o { Add => 0x60, Subtract => 0x64, Multiply => 0x68, Divide => 0x6c, Remainder => 0x70, Negate => 0x74, ShiftLeft => 0x78, ShiftRight => 0x7a, UnsignedShiftRight => 0x7c, And => 0x7e, Or => 0x80, ExclusiveOr => 0x82 }) }
        I::FloatOperation(t, o) => { let w = if let FloatType::Double = t { 3 } else { 2 }; use FloatOperation::*; r(w + match o { Add => 0x60, Subtract => 0x64, Multiply => 0x68, Divide => 0x6c, Remainder => 0x70, Negate => 0x74 }) }
        I::CheckCast(t) => rc(0xc0, class_ent(t)), I::InstanceOf(t) => rc(0xc1, class_ent(t)), I::New(OrDynamic::Static(n)) => rc(0xbb, Ent::Class(mu(n))), I::New(OrDynamic::Dynamic(d)) => rc(0xbb, e_dyn(d)),
        I::NewArray(t, d) => R { c: Some(match (t, d) { (OrDynamic::Dynamic(d), _) => e_dyn(d), (OrDynamic::Static(t), 1) => { let mut v = vec![b'[']; v.extend_from_slice(&du(t)); Ent::Class(v) } (OrDynamic::Static(t), _) => Ent::Class(du(t)) }), ..rn(0xc5, &[*d as i64]) },
        I::Monitor(MonitorOperation::Enter) => r(0xc2), I::Monitor(MonitorOperation::Exit) => r(0xc3),
        I::Conversion(a, b) => { use NumberType::*; r(match (a, b) { (Int, Long) => 0x85, (Int, Float) => 0x86, (Int, Double) => 0x87, (Long, Int) => 0x88, (Long, Float) => 0x89, (Long, Double) => 0x8a, (Float, Int) => 0x8b, (Float, Long) => 0x8c, (Float, Double) => 0x8d, (Double, Int) => 0x8e, (Double, Long) => 0x8f, (Double, Float) => 0x90, _ => return None }) }
        I::ConvertInt(t) => { use BitType::*; r(match t { Long => 0x85, Float => 0x86, Double => 0x87, Byte => 0x91, Char => 0x92, Short => 0x93, Int => return None }) }
        I::Return(None) => r(0xb1), I::Return(Some(t)) => r(0xac + lt(t)),
        I::Field(k, t, f) => rc(match (k, t) { (GetOrPut::Get, MemberType::Static) => 0xb2, (GetOrPut::Put, MemberType::Static) => 0xb3, (GetOrPut::Get, MemberType::Virtual) => 0xb4, (GetOrPut::Put, MemberType::Virtual) => 0xb5 }, mem_ent(f)),
        I::InvokeExact(MemberType::Virtual, f) => rc(0xb6, mem_ent(f)), I::InvokeSpecial(f) => rc(0xb7, mem_ent(f)), I::InvokeExact(MemberType::Static, f) => rc(0xb8, mem_ent(f)), I::InvokeInterface(f, n) => R { c: Some(mem_ent(f)), ..rn(0xb9, &[*n as i64]) }, I::InvokeDynamic(d) => rc(0xba, e_dyn(d)),
        I::IntIncrement(n, k) => rn(0x84, &[*n as i64, *k as i64]),
        I::TableSwitch { default, low, offsets } => { let mut t = vec![find(m, default)]; for o in offsets { t.push(find(m, o)) } R { t, ..rn(0xaa, &[*low as i64]) } }
        I::LookupSwitch { default, table } => { let mut t = vec![find(m, default)]; let mut n = vec![]; for (k, o) in table { n.push(*k as i64); t.push(find(m, o)) } R { t, ..rn(0xab, &n) } }
        I::LineNumber(_) | I::Label(_) => return None,
    })
}
fn marker(i: &Instruction) -> bool { matches!(i, Instruction::LineNumber(_) | Instruction::Label(_)) }
/// Where the labels of read code stand, given the positions of its instructions; each stands once.
pub fn labels(c: &[Instruction], pos: &[usize], end: usize) -> Lm {
    let mut m: Lm = Vec::new();
    let mut k = 0;
    for i in c { match i { Instruction::Label(l) => { for (x, _) in &m { check(x != l, "a label stands in one place") } m.push((*l, if k < pos.len() { pos[k] } else { end } as i64)) } i if marker(i) => {} _ => k += 1 } }
    m
}
/// Does the code read by coffer agree with the instructions?
pub fn same_code(c: &[Instruction], v: &[(usize, R)], end: usize) -> Lm {
    let pos: Vec<usize> = v.iter().map(|x| x.0).collect();
    let m = labels(c, &pos, end);
    let mut k = 0;
    for i in c {
        if marker(i) { continue }
        if k >= v.len() { check(false, "no more instructions than the bytes encode"); return m }
        if v[k].1.op == 0xab && v[k].1.lax { check(matches!(i, Instruction::LookupSwitch { .. }), "a switch for a switch"); k += 1; continue } // keys that occur twice
        match neutral(i, &m) { Some(x) => check(eq_r(&x, &v[k].1), "the instruction the bytes encode"), None => check(false, "an instruction for an instruction") }
        k += 1;
    }
    check(k == v.len(), "as many instructions as the bytes encode");
    m
}
/// The contents of a Code attribute around the code bytes.
pub fn code_attr(b: &[u8], stack: u16, locals: u16) -> Tk { Tk::new().u2(stack).u2(locals).u4(b.len() as u32).raw(b) }

/// Reads the code bytes with coffer and compares.
pub fn check_read(b: &[u8], p: &Pool, bsm: &[BootstrapMethod]) {
    let mut pp = parse_pool(&p.bytes()).unwrap().0;
    pp.bsmv = bsm.iter().map(e_bsm).collect();
    let want = decode_all(b, &pp);
    let (stack, locals) = (u16(), u16());
    let mut a = be2(stack).to_vec();
    a.extend_from_slice(&be2(locals));
    a.extend_from_slice(&(b.len() as u32).to_be_bytes());
    a.extend_from_slice(b);
    a.extend_from_slice(&[0, 0, 0, 0, 0x77]);
    let mut cp = reader(p);
    let mut rd = &a[..];
    let got = <Code as ConstantPoolReadWrite>::read_from(&mut cp, &mut rd);
    let got = match got { Ok(c) => match cp.0.bootstrap_methods(bsm) { Ok(()) => Ok(c), Err(e) => Err(e) }, e => e };
    let mut lax = false;
    let mut bad = want.is_none();
    if let Some(v) = &want {
        for (_, x) in v {
            lax |= x.lax;
            for t in &x.t { let mut ok = false; for (p, _) in v { ok |= *t == *p as i64 } bad |= !ok && *t != b.len() as i64; lax |= *t == b.len() as i64 }
        }
    }
    match got {
        Ok(c) => {
            cover("read");
            check(!bad, "only code that decodes is read");
            check(c.max_stack == stack && c.max_locals == locals, "the sizes of stack and locals");
            check(c.catches.is_empty() && c.attrs.is_empty(), "nothing that is not there");
            check(rd.len() == 1, "reading consumes exactly the code");
            if let Some(v) = &want { same_code(&c.code, v, b.len()); }
            observe(c.code.len() as u64);
        }
        Err(_) => { cover("refused"); check(bad || lax, "code that decodes is read") }
    }
}
/// A bootstrap method with fixed contents.
pub fn some_bsm(g: &mut G) -> BootstrapMethod { BootstrapMethod { handle: MethodHandle { kind: MethodHandleKind::InvokeStatic, member: MemberRef { owner: g.name(), name: g.name(), descriptor: Type::Method { parameters: vec![], ret: None }, itfs: false } }, arguments: vec![OrDynamic::Static(Constant::I32(5))] } }
/// A pool with an entry of every kind.
pub fn some_pool(g: &mut G) -> (Pool, Vec<BootstrapMethod>) {
    let mut p = Pool::new();
    let b = some_bsm(g);
    let e = e_bsm(&b);
    let a = u8();
    assume(a > 0x20 && a < 0x7f && a != b'[');
    let nm = |s: &str| s.as_bytes().to_vec();
    p.add(&Ent::Int(u32())); p.add(&Ent::Float(u32())); p.add(&Ent::Long(u64())); p.add(&Ent::Double(u64()));
    p.add(&Ent::Str(vec![a])); p.add(&Ent::Class(vec![a, b'x'])); p.add(&Ent::Class(nm("[[I"))); p.add(&Ent::Class(nm("[LA;"))); p.add(&Ent::Class(nm("[")));
    p.add(&Ent::Field(vec![a], nm("f"), nm("J"))); p.add(&Ent::Method(nm("C"), vec![a], nm("(J)V"))); p.add(&Ent::IMethod(nm("I"), nm("m"), nm("()[I")));
    p.add(&Ent::MT(nm("(I)Z"))); p.add(&Ent::MH(6, Box::new(Ent::Method(nm("C"), nm("s"), nm("()V"))))); p.add(&Ent::Module(nm("mod"))); p.add(&Ent::Package(nm("pkg")));
    let d = p.bsm.len(); p.bsm.truncate(d);
    p.add(&Ent::Dyn(Box::new(e.clone()), nm("d"), nm("I"))); p.add(&Ent::Dyn(Box::new(e.clone()), nm("w"), nm("D"))); p.add(&Ent::Indy(Box::new(e), vec![a], nm("()V")));
    (p, vec![b.clone(), b.clone(), b])
}

/// Writes code with coffer and gives back the bytes of the code and the rest, with the pool.
pub fn write_code(c: &Code) -> O<(B, B, Pp)> {
    let mut w = writer();
    let mut b = Vec::new();
    if c.write_to(&mut w, &mut b).is_err() { return None }
    let p = pool_of(&w);
    check(g2(&b, 0) == Some(c.max_stack) && g2(&b, 2) == Some(c.max_locals), "the sizes of stack and locals are written");
    let n = match g4(&b, 4) { Some(n) => n as usize, None => { check(false, "a length is written"); return None } };
    if 8 + n > b.len() { check(false, "the length of the code is that of its bytes"); return None }
    Some((b[8..8 + n].to_vec(), b[8 + n..].to_vec(), p))
}
/// The labels of code that is to be written, given the position of every instruction
pub fn check_written(c: &[Instruction], b: &[u8], p: &Pp) -> Lm {
    let v = match decode_all(b, p) { Some(v) => v, None => { check(false, "the written code decodes"); return vec![] } };
    // conversions without effect have no instruction; far conditional jumps have two
    let mut pos = Vec::new();
    let mut k = 0;
    let mut m: Lm = Vec::new();
    for i in c {
        let here = if k < v.len() { v[k].0 } else { b.len() };
        if let Instruction::Label(l) = i { m.push((*l, here as i64)); continue }
        if marker(i) { continue }
        if let Instruction::Conversion(a, z) = i { if a == z { continue } }
        if let Instruction::ConvertInt(BitType::Int) = i { continue }
        pos.push(k);
        let far = if let Instruction::Jump(q, _) = i { k + 1 < v.len() && v[k].1.op != cond(q) && v[k + 1].1.op == 0xa7 } else { false };
        k += if far { 2 } else { 1 };
    }
    check(k == v.len(), "as many instructions are written as there are");
    if k != v.len() { return m }
    let mut j = 0;
    for i in c {
        let mut want = match neutral(i, &m) { Some(w) => w, None => continue };
        if let Instruction::LookupSwitch { .. } = i { sort_switch(&mut want) }
        let x = &v[pos[j]].1;
        let next = if j + 1 < pos.len() { pos[j + 1] } else { v.len() };
        if next == pos[j] + 2 {
            // the opposite condition skips the jump
            let over = if next < v.len() { v[next].0 } else { b.len() } as i64;
            let neg = match want.op { 0x99..=0xa6 => ((want.op - 0x99) ^ 1) + 0x99, 0xc6 => 0xc7, _ => 0xc6 };
            check(x.op == neg && x.t.len() == 1 && x.t[0] == over, "a far jump is skipped on the opposite condition");
            check(v[pos[j] + 1].1.op == 0xa7 && v[pos[j] + 1].1.t == want.t, "a far jump leads to its target");
        } else {
            check(eq_r(x, &want), "the written instruction");
            let computed = x.op != 0x12 && matches!(x.c, Some(Ent::Dyn(..))); // operands computed at run time are coffer's own
            check(!x.lax || computed, "the written instruction is valid");
        }
        j += 1;
    }
    m
}
/// Lookup switches are sorted by key.
fn sort_switch(r: &mut R) { let n = r.n.len(); for i in 0..n { for j in 0..n - 1 - i { if r.n[j] > r.n[j + 1] { r.n.swap(j, j + 1); r.t.swap(j + 1, j + 2) } } } }
fn code_of(code: Vec<Instruction>) -> Code { Code { max_stack: u16(), max_locals: u16(), code, catches: vec![], attrs: vec![] } }
pub fn check_write(code: Vec<Instruction>) {
    let c = code_of(code);
    match write_code(&c) { Some((b, rest, p)) => { check_written(&c.code, &b, &p); check(rest == [0, 0, 0, 0], "nothing that is not there is written"); observe(b.len() as u64); cover("written") } None => check(false, "code that can be represented is written") }
}
fn lts() -> LocalType { [LocalType::Int, LocalType::Long, LocalType::Float, LocalType::Double, LocalType::Reference][pick(5)] }
fn nts() -> NumberType { [NumberType::Int, NumberType::Long, NumberType::Float, NumberType::Double][pick(4)] }
pub const CONDS: [JumpCondition; 17] = [JumpCondition::ReferenceEquals, JumpCondition::ReferenceNotEquals, JumpCondition::IntegerEquals, JumpCondition::IntegerNotEquals, JumpCondition::IntegerLessThan, JumpCondition::IntegerGreaterThan, JumpCondition::IntegerLessThanOrEquals, JumpCondition::IntegerGreaterThanOrEquals, JumpCondition::IntegerEqualsZero, JumpCondition::IntegerNotEqualsZero, JumpCondition::IntegerLessThanZero, JumpCondition::IntegerGreaterThanZero, JumpCondition::IntegerLessThanOrEqualsZero, JumpCondition::IntegerGreaterThanOrEqualsZero, JumpCondition::IsNull, JumpCondition::IsNonNull, JumpCondition::Always];
/// Any instruction without targets and without constants.
pub fn s_plain() -> Instruction {
    use Instruction as I;
    match pick(20) {
        0 => I::NoOp, 1 => I::PushNull, 2 => [I::Dup, I::DupX1, I::DupX2, I::Dup2, I::Dup2X1, I::Dup2X2, I::Pop1, I::Pop2, I::Swap][pick(9)].clone(), 3 => I::CompareLongs,
        4 => I::CompareFloats(if flip() { FloatType::Double } else { FloatType::Float }, if flip() { NaNBehavior::ReturnsOne } else { NaNBehavior::ReturnsNegativeOne }),
        5 => I::LocalVariable(if flip() { LoadOrStore::Load } else { LoadOrStore::Store }, lts(), u16()),
        6 => { use ArrayType::*; I::Array(if flip() { LoadOrStore::Load } else { LoadOrStore::Store }, [ByteOrBool, Short, Char, Int, Long, Float, Double, Reference][pick(8)]) }
        7 => I::ArrayLength,
        8 => { use IntOperation::*; I::IntOperation(if flip() { IntType::Int } else { IntType::Long }, [Divide, Add, Subtract, Multiply, Remainder, Negate, ExclusiveOr, Or, And, ShiftLeft, ShiftRight, UnsignedShiftRight][pick(12)]) }
        9 => { use FloatOperation::*; I::FloatOperation(if flip() { FloatType::Float } else { FloatType::Double }, [Divide, Add, Subtract, Multiply, Remainder, Negate][pick(6)]) }
        10 => I::Throw, 11 => I::Monitor(if flip() { MonitorOperation::Enter } else { MonitorOperation::Exit }), 12 => I::Conversion(nts(), nts()),
        13 => { use BitType::*; I::ConvertInt([Byte, Short, Char, Int, Long, Float, Double][pick(7)]) }
        14 => I::Return(None), 15 => I::Return(Some(lts())), 16 => I::Ret(u16()), 17 => I::IntIncrement(u16(), i16()),
        18 => { let t = [Type::Boolean, Type::Char, Type::Float, Type::Double, Type::Byte, Type::Short, Type::Int, Type::Long][pick(8)].clone(); I::NewArray(OrDynamic::Static(t), 1) }
        _ => match pick(3) { 0 => I::Push(Constant::I32(i32()).into()), 1 => I::Push(Constant::F32(f32s()).into()), _ => if flip() { I::Push(Constant::I64(i64()).into()) } else { I::Push(Constant::F64(f64s()).into()) } },
    }
}
fn s_class(g: &mut G) -> ClassType { match pick(4) { 0 => ClassType::Object(g.ascii()), 1 => ClassType::Array(1, Type::Int), 2 => ClassType::Array(2, g.rty()), _ => ClassType::Array(255, Type::Boolean) } }
pub fn s_dyn(g: &mut G, method: bool) -> Dynamic { let b = some_bsm(g); let n = g.ascii(); let t = if method { g.mty() } else { [Type::Int, Type::Double, Type::Ref(own(wtf_8::Wtf8String::from("k".to_string())))][pick(3)].clone() }; Dynamic::new(b, n, t) }
fn ord<T>(g: &mut G, f: impl FnOnce(&mut G) -> T) -> OrDynamic<T> { if flip() { OrDynamic::Static(f(g)) } else { let b = some_bsm(g); let n = g.name(); OrDynamic::Dynamic(Dynamic::new(b, n, Type::Ref(own(wtf_8::Wtf8String::from("k".to_string()))))) } }
/// Any instruction with a constant.
pub fn s_const_insn(g: &mut G) -> Instruction {
    use Instruction as I;
    match pick(10) {
        0 => I::Push(OrDynamic::Static(match pick(4) { 0 => Constant::String(g.any()), 1 => Constant::Class(g.ascii()), 2 => Constant::MethodType(g.mty()), _ => Constant::MethodHandle(s_handle(g)) })), 1 => I::Push(OrDynamic::Dynamic(s_dyn(g, false))),
        2 => I::CheckCast(OrDynamic::Static(s_class(g))), 3 => I::InstanceOf(OrDynamic::Static(s_class(g))), 4 => I::New(OrDynamic::Static(g.ascii())),
        5 => match pick(5) { 0 => I::NewArray(OrDynamic::Static(g.rty()), 1), 1 => I::NewArray(OrDynamic::Static(Type::ArrayRef(3, Box::new(g.rty()))), 1 + pick(3) as u8), 2 => I::NewArray(OrDynamic::Static(Type::ArrayRef(255, Box::new(Type::Long))), 255), 3 => I::NewArray(OrDynamic::Static(Type::ArrayRef(2, Box::new(Type::Char))), 2), _ => I::NewArray(OrDynamic::Static(Type::ArrayRef(1, Box::new(Type::Char))), 1) },
        6 => I::Field(if flip() { GetOrPut::Get } else { GetOrPut::Put }, if flip() { MemberType::Static } else { MemberType::Virtual }, OrDynamic::Static(s_member(g, false))),
        7 => match pick(4) { 0 => { let mut m = s_member(g, true); m.itfs = false; I::InvokeExact(MemberType::Virtual, OrDynamic::Static(m)) } 1 => I::InvokeExact(MemberType::Static, OrDynamic::Static(s_member(g, true))), 2 => I::InvokeSpecial(OrDynamic::Static(s_member(g, true))), _ => { let mut m = s_member(g, true); m.itfs = true; let n = u8(); assume(n > 0); I::InvokeInterface(OrDynamic::Static(m), n) } },
        8 => I::InvokeDynamic(s_dyn(g, true)),
        _ => { let d: Dynamic = if let OrDynamic::Dynamic(d) = ord(g, |_| ()) { d } else { return I::NoOp }; match pick(4) { 0 => I::Field(GetOrPut::Get, MemberType::Static, d.into()), 1 => I::New(d.into()), 2 => I::CheckCast(d.into()), _ => I::InvokeSpecial(d.into()) } }
    }
}

harnesses! {
    // ---- reading (C08) ----
    // every opcode with every operand
    fn h_insn_read() {
        let mut g = G::new();
        let (p, bsm) = some_pool(&mut g);
        let op = pick(256) as u8;
        assume(!(op >= 0xaa && op <= 0xab) && !(op >= 0x99 && op <= 0xa8) && !(op >= 0xc6 && op <= 0xc9));
        let mut b = vec![0; pick(2)];
        b.push(op);
        if op == 0xc4 { let o = u8(); b.push(o); b.extend_from_slice(&bytes(2)); if o == 0x84 { b.extend_from_slice(&bytes(2)) } } else { b.extend_from_slice(&bytes(if fixed(op) == 0 { 0 } else { fixed(op) - 1 })) }
        b.push(0xb1);
        check_read(&b, &p, &bsm);
    }
    // an instruction that is cut off
    fn h_insn_cut() {
        let mut g = G::new();
        let (p, bsm) = some_pool(&mut g);
        let op = pick(256) as u8;
        let mut b = vec![0; pick(4)];
        b.push(op);
        let l = fixed(op);
        if op == 0xc4 { match pick(4) { 0 => {} 1 => b.push(u8()), 2 => b.extend_from_slice(&bytes(2)), _ => { b.push(0x84); b.extend_from_slice(&bytes(3)) } } }
        else if op == 0xaa || op == 0xab { b.extend_from_slice(&vec![0; pick(if op == 0xaa { 16 } else { 8 })]) }
        else { assume(l > 1); b.extend_from_slice(&bytes(pick(l - 1))) }
        check_read(&b, &p, &bsm);
    }
    // any code
    fn h_insn_any() {
        let n = pick(param(0) + 1);
        let mut p = Pool::new();
        p.add(&Ent::Int(7)); p.add(&Ent::Class(b"C".to_vec()));
        let b = bytes(n);
        check_read(&b, &p, &[]);
    }
    // ---- writing (C09) ----
    fn h_insn_plain() { let i = s_plain(); check_write(vec![i, Instruction::Return(None)]) }
    // operands are written in full or refused, never cut
    fn h_insn_operand() {
        let i = s_plain();
        let c = code_of(vec![i, Instruction::Return(None)]);
        match write_code(&c) {
            Some((b, _, p)) => {
                cover("written");
                let v = match decode_all(&b, &p) { Some(v) => v, None => { check(false, "the written code decodes"); return } };
                if v.len() != 2 { return }
                if let Some(w) = neutral(&c.code[0], &vec![]) { if v[0].1.op == w.op { check(v[0].1.n == w.n, "an operand is not cut") } }
                observe(b.len() as u64);
            }
            None => cover("refused"),
        }
    }
    fn h_insn_const() { let mut g = G::new(); let i = s_const_insn(&mut g); check_write(vec![i, Instruction::NoOp]) }
    fn h_insn_two() { let mut g = G::new(); let a = if flip() { s_const_insn(&mut g) } else { s_short() }; let b = s_short(); check_write(vec![a, b]) }
    // constants beyond the reach of the short form
    fn h_insn_ldc_far() {
        let k = 252 + pick(6);
        let c = match pick(5) { 0 => OrDynamic::Static(Constant::I32(i32())), 1 => OrDynamic::Static(Constant::F32(f32s())), 2 => OrDynamic::Static(Constant::I64(i64())), 3 => OrDynamic::Static(Constant::String(own(wtf_8::Wtf8String::from("s".to_string())))), _ => OrDynamic::Dynamic(s_dyn(&mut G::new(), false)) };
        let code = code_of(vec![Instruction::Push(c), Instruction::NoOp]);
        let mut w = writer();
        for i in 0..k { w.insert_raw(RawConstantEntry::Class(i as u16)); }
        let mut b = Vec::new();
        if code.write_to(&mut w, &mut b).is_err() { check(false, "code that can be represented is written") }
        let p = pool_of(&w);
        let n = g4(&b, 4).unwrap() as usize;
        check_written(&code.code, &b[8..8 + n], &p);
        cover("written");
    }
    // the named constructors give the instruction they are named after
    fn h_insn_named() {
        use Instruction as I;
        let m = || MemberRef { owner: Cow::Owned(crate::wtf::mk(&[65])), name: Cow::Owned(crate::wtf::mk(&[66])), descriptor: Type::Int, itfs: false };
        let (n, l) = (u16(), Label(u32()));
        let op = |o| I::IntOperation(IntType::Int, o);
        let (a, b) = match pick(16) {
            0 => (I::getstatic(m()), I::Field(GetOrPut::Get, MemberType::Static, OrDynamic::Static(m()))),
            1 => (I::invokevirtual(m()), I::InvokeExact(MemberType::Virtual, OrDynamic::Static(m()))),
            2 => (I::invokestatic(m()), I::InvokeExact(MemberType::Static, OrDynamic::Static(m()))),
            3 => (I::store(LocalType::Long, n), I::LocalVariable(LoadOrStore::Store, LocalType::Long, n)),
            4 => (I::load(LocalType::Reference, n), I::LocalVariable(LoadOrStore::Load, LocalType::Reference, n)),
            5 => (I::iop(IntOperation::ShiftLeft), op(IntOperation::ShiftLeft)),
            6 => (I::iadd(), op(IntOperation::Add)), 7 => (I::isub(), op(IntOperation::Subtract)), 8 => (I::irem(), op(IntOperation::Remainder)), 9 => (I::imul(), op(IntOperation::Multiply)), 10 => (I::ineg(), op(IntOperation::Negate)),
            11 => (I::ifeq(l), I::Jump(JumpCondition::IntegerEqualsZero, l)), 12 => (I::if_icmpeq(l), I::Jump(JumpCondition::IntegerEquals, l)), 13 => (I::if_icmpne(l), I::Jump(JumpCondition::IntegerNotEquals, l)),
            14 => (I::if_icmple(l), I::Jump(JumpCondition::IntegerLessThanOrEquals, l)), _ => (I::if_icmpgt(l), I::Jump(JumpCondition::IntegerGreaterThan, l)),
        };
        check(a == b, "the instruction a constructor is named after");
        cover("named");
    }
    // arrays that cannot be
    fn h_insn_bad() {
        let d = u8();
        let dims = 1 + pick(3) as u8;
        let t = match pick(3) { 0 => Type::ArrayRef(dims, Box::new(Type::Int)), 1 => Type::Ref(own(wtf_8::Wtf8String::from("r".to_string()))), _ => Type::Method { parameters: vec![], ret: None } };
        let ok = match &t { Type::ArrayRef(n, _) => d == 1 || (d >= 1 && d <= *n), Type::Ref(_) => d == 1, _ => false };
        let c = code_of(vec![Instruction::NewArray(OrDynamic::Static(t), d)]);
        match write_code(&c) { Some((b, _, p)) => { cover("written"); check(ok, "an array that cannot be created is refused"); check_written(&c.code, &b, &p); } None => { cover("refused"); check(!ok, "an array that can be created is written") } }
    }

    // ---- jumps (C10) ----
    // reading: jumps to any offset
    fn h_jump_read() {
        let ops = [0x99u8, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xc6, 0xc7, 0xc8, 0xc9];
        let op = ops[pick(20)];
        let mut b = vec![];
        for _ in 0..pick(2) { b.extend_from_slice(&[0x11, 0, 0]) }
        b.push(op);
        b.extend_from_slice(&bytes(fixed(op) - 1));
        b.extend_from_slice(&[0x00, 0x10, 0x05, 0xb1]);
        check_read(&b, &Pool::new(), &[]);
    }
    // two jumps
    fn h_jump_read2() {
        let mut b = vec![0xa7];
        b.extend_from_slice(&bytes(2));
        b.push([0x99, 0xa8, 0xc8][pick(3)]);
        let n = fixed(b[3]) - 1;
        b.extend_from_slice(&bytes(n));
        b.extend_from_slice(&[0, 0xb1]);
        check_read(&b, &Pool::new(), &[]);
    }
    fn h_switch_read() {
        let mut b = vec![0; pick(4)];
        let p = b.len();
        let table = flip();
        b.push(if table { 0xaa } else { 0xab });
        while b.len() % 4 != 0 { b.push(u8()) }
        let n = pick(param(0) + 1);
        let k = pick(2); // entries announced: any number (they are followed by no-ops), as many as there are
        let free = pick(n + 1); // the target that is free; the others lead to the start
        if k == 0 { assume(free == n) }
        let off = |b: &mut B, i: usize| if i != free { b.extend_from_slice(&(-(p as i32)).to_be_bytes()) } else { b.extend_from_slice(&bytes(4)) };
        off(&mut b, n);
        let cnt = if k == 0 { u32() } else { n as u32 };
        if table { let lo = u32(); b.extend_from_slice(&lo.to_be_bytes()); b.extend_from_slice(&(if k == 0 { cnt } else { lo.wrapping_add(cnt).wrapping_sub(1) }).to_be_bytes()) } else { b.extend_from_slice(&cnt.to_be_bytes()) }
        for i in 0..n { if k == 0 { b.extend_from_slice(&[0; 8][..if table { 4 } else { 8 }]); continue } if !table { b.extend_from_slice(&bytes(4)) } off(&mut b, i) }
        b.push(0xb1);
        check_read(&b, &Pool::new(), &[]);
    }
    // many targets: the last jump leads anywhere
    fn h_jump_many() {
        let n = 300;
        let mut b = vec![];
        for _ in 0..n { b.extend_from_slice(&[0xa7, 0, 3]) }
        b.push(0xa7);
        let k = pick(4);
        let t = [0i16, -3, -900, -450][k];
        b.extend_from_slice(&t.to_be_bytes());
        b.push(0xb1);
        check_read(&b, &Pool::new(), &[]);
    }
    // code longer than a short jump reaches
    fn h_jump_read_far() {
        let n = 32768 + pick(2) * 100;
        let mut b = vec![];
        for _ in 0..n / 6 { b.extend_from_slice(&[0xc4, 0x84, 1, 0, 1, 0]) }
        for _ in 0..n % 6 { b.push(0) }
        b.push([0xc8, 0xc9][pick(2)]);
        b.extend_from_slice(&[-(n as i32), -(n as i32) + 6, 5][pick(3)].to_be_bytes());
        let back = if n == 32768 { 12 } else { 114 } - (n as i32 + 8); // nearly as far as 16 bits reach
        b.extend_from_slice(&[0xa7, 0xff, 0xfb, 0xa7, (back >> 8) as u8, back as u8, 0xb1]);
        check_read(&b, &Pool::new(), &[]);
    }
    // writing: jumps over short distances, forward and back
    fn h_jump_write() {
        use Instruction as I;
        let l = Label(u32());
        let j = match pick(18) { 17 => I::Jsr(l), k => I::Jump(CONDS[k], l) };
        let mut c = vec![];
        let at = pick(4);
        for k in 0..4 { if k == at { c.push(I::Label(l)) } if k == 2 { c.push(j.clone()) } else { c.push(if flip() { I::NoOp } else { I::IntIncrement(300, 1) }) } }
        if at == 3 && flip() { let x = c.pop().unwrap(); c.insert(c.len() - 1, x) }
        check_write(c)
    }
    // a label that is not there
    fn h_jump_missing() {
        use Instruction as I;
        let (a, b) = (Label(u32()), Label(u32()));
        let i = match pick(5) { 0 => I::Jump(CONDS[pick(17)], a), 1 => I::Jsr(a), 2 => I::TableSwitch { default: a, low: 0, offsets: vec![b] }, 3 => I::TableSwitch { default: b, low: 0, offsets: vec![b, a] }, _ => { let mut t = indexmap::IndexMap::new(); t.insert(1, a); I::LookupSwitch { default: b, table: t } } };
        let c = code_of(vec![I::Label(b), i, I::NoOp]);
        match write_code(&c) { Some((bytes, _, p)) => { cover("there"); check(a == b, "a jump to a label that is not in the code is refused"); check_written(&c.code, &bytes, &p); } None => { cover("missing"); check(a != b, "a jump to a label in the code is written") } }
    }
    fn h_switch_write() {
        use Instruction as I;
        let ls = [Label(10), Label(20), Label(30)];
        let mut any = || ls[pick(3)];
        let n = pick(param(0) + 1);
        let i = if flip() { let n = n + 1; let low = i32(); assume(low as i64 + n as i64 - 1 <= i32::MAX as i64); I::TableSwitch { default: any(), low, offsets: (0..n).map(|_| any()).collect() } }
            else { let mut t = indexmap::IndexMap::new(); let d = any(); for _ in 0..n { let k = i32(); let l = any(); assume(!t.contains_key(&k)); t.insert(k, l); } I::LookupSwitch { default: d, table: t } };
        let mut c = vec![I::Label(ls[0])];
        for _ in 0..pick(4) { c.push(I::NoOp) }
        c.push(I::Label(ls[1]));
        c.push(i);
        c.push(I::NoOp);
        c.push(I::Label(ls[2]));
        c.push(I::Return(None));
        check_write(c)
    }
    // tables that end beyond the largest key
    fn h_switch_range() {
        let low = i32();
        let n = pick(3);
        let c = code_of(vec![Instruction::Label(Label(0)), Instruction::TableSwitch { default: Label(0), low, offsets: vec![Label(0); n] }]);
        let ok = n > 0 && low as i64 + n as i64 - 1 <= i32::MAX as i64;
        match write_code(&c) { Some((b, _, p)) => { cover("written"); check(ok, "a table with impossible bounds is refused"); check_written(&c.code, &b, &p); } None => { cover("refused"); check(!ok, "a table is written") } }
    }
    // jumps around the largest short distance
    fn h_jump_far() {
        use Instruction as I;
        let l = Label(1);
        let j = match pick(4) { 0 => I::Jsr(l), 1 => I::Jump(JumpCondition::Always, l), 2 => I::Jump(JumpCondition::IsNull, l), _ => I::Jump(JumpCondition::IntegerLessThan, l) };
        let back = flip();
        let d = 32762 + pick(10); // bytes between the jump and the label
        let mut c = vec![I::NoOp];
        if back { c.push(I::Label(l)) } else { c.push(j.clone()) }
        fill(&mut c, d);
        if back { c.push(j) } else { c.push(I::Label(l)) }
        c.push(I::Return(None));
        check_far(c)
    }
    // a jump over a jump whose size decides whether the first is short
    fn h_jump_nested() {
        use Instruction as I;
        let (a, b) = (Label(1), Label(2));
        let d = 32766 - 8 + pick(12);
        let mut c = vec![];
        let back = flip();
        if back { c.push(I::Label(a)) } else { c.push(I::Jump(JumpCondition::Always, a)) }
        fill(&mut c, d - 3);
        c.push(I::Jump(JumpCondition::IntegerEquals, b));
        if back { c.push(I::Jump(JumpCondition::IsNonNull, a)) } else { c.push(I::Label(a)) }
        fill(&mut c, [32700, 100][pick(2)]);
        c.push(I::Label(b));
        c.push(I::Return(None));
        check_far(c)
    }
    // a switch after far jumps: padding and offsets
    fn h_switch_far() {
        use Instruction as I;
        let l = Label(1);
        let mut c = vec![I::Jump(JumpCondition::IntegerEquals, l)];
        fill(&mut c, pick(4));
        let mut t = indexmap::IndexMap::new();
        t.insert(5, l);
        c.push(if flip() { I::TableSwitch { default: Label(2), low: -3, offsets: vec![l, Label(2)] } } else { I::LookupSwitch { default: l, table: t } });
        c.push(I::Label(Label(2)));
        fill(&mut c, [10, 33000][pick(2)]);
        c.push(I::Label(l));
        c.push(I::Return(None));
        check_far(c)
    }
}
fn s_short() -> Instruction { use Instruction as I; match pick(5) { 0 => I::NoOp, 1 => I::LocalVariable(LoadOrStore::Load, LocalType::Int, u16()), 2 => I::Push(Constant::I32(i32()).into()), 3 => I::Conversion(NumberType::Int, NumberType::Int), _ => I::Return(None) } }
/// `n` bytes of instructions
fn fill(c: &mut Vec<Instruction>, n: usize) { for _ in 0..n / 6 { c.push(Instruction::IntIncrement(300, 300)) } for _ in 0..n % 6 { c.push(Instruction::NoOp) } }
/// As `check_write`, without symbolic sizes.
fn check_far(c: Vec<Instruction>) {
    let c = Code { max_stack: 1, max_locals: 2, code: c, catches: vec![], attrs: vec![] };
    match write_code(&c) { Some((b, rest, p)) => { check_written(&c.code, &b, &p); check(rest == [0, 0, 0, 0], "nothing that is not there is written"); observe(b.len() as u64); cover("written") } None => check(false, "code that can be represented is written") }
}
