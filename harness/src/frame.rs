//! Stack map frames (JVMS 4.7.4): an independent decoder.
use crate::cf::*;
use crate::harnesses;
use crate::rt::*;
use coffer::prelude::*;

/// A verification type: its tag, and the class or the position it names.
type Vt = (u8, Ent, u16);
struct F { k: u8, off: u16, n: u8, a: Vec<Vt>, b: Vec<Vt> }
fn eq_vt(x: &Vt, y: &Vt) -> bool { (x.0 == y.0) & eq_ent(&x.1, &y.1) & (x.2 == y.2) }
fn eq_vts(x: &[Vt], y: &[Vt]) -> bool { if x.len() != y.len() { return false } let mut r = true; for i in 0..x.len() { r &= eq_vt(&x[i], &y[i]) } r }
fn eq_f(x: &F, y: &F) -> bool { x.k == y.k && x.a.len() == y.a.len() && x.b.len() == y.b.len() && (x.off == y.off) & (x.n == y.n) & eq_vts(&x.a, &y.a) & eq_vts(&x.b, &y.b) }
fn d_vt(b: &[u8], i: &mut usize, p: &Pp) -> O<Vt> {
    let t = *b.get(*i)?;
    *i += 1;
    if t > 8 { return None }
    let t = concretize(t as u64) as u8;
    Some(match t { 7 => { let c = p.resolve(g2(b, *i)?)?; *i += 2; if let Ent::Class(_) = c {} else { return None } (t, c, 0) } 8 => { let o = g2(b, *i)?; *i += 2; (t, Ent::None, o) } _ => (t, Ent::None, 0) })
}
fn d_vts(n: u16, b: &[u8], i: &mut usize, p: &Pp) -> O<Vec<Vt>> { if n as usize > b.len() { return None } let n = concretize(n as u64); let mut v = Vec::new(); for _ in 0..n { v.push(d_vt(b, i, p)?) } Some(v) }
fn decode(b: &[u8], p: &Pp) -> O<(F, usize)> {
    let t = concretize(*b.first()? as u64) as u8;
    let mut i = 1;
    let mut f = F { k: 0, off: 0, n: 0, a: vec![], b: vec![] };
    if t >= 128 && t < 247 { return None }
    if t >= 247 { f.off = g2(b, 1)?; i = 3 }
    match t {
        0..=63 => f.off = t as u16,
        64..=127 => { f.k = 1; f.off = t as u16 - 64; f.b.push(d_vt(b, &mut i, p)?) }
        247 => { f.k = 1; f.b.push(d_vt(b, &mut i, p)?) }
        248..=250 => { f.k = 2; f.n = 251 - t }
        251 => {}
        252..=254 => { f.k = 3; f.a = d_vts(t as u16 - 251, b, &mut i, p)? }
        _ => { f.k = 4; let n = g2(b, i)?; i += 2; f.a = d_vts(n, b, &mut i, p)?; let n = g2(b, i)?; i += 2; f.b = d_vts(n, b, &mut i, p)? }
    }
    Some((f, i))
}
fn n_vt(v: &VerificationType) -> Vt {
    use VerificationType as V;
    match v { V::Top => (0, Ent::None, 0), V::Int => (1, Ent::None, 0), V::Float => (2, Ent::None, 0), V::Double => (3, Ent::None, 0), V::Long => (4, Ent::None, 0), V::Null => (5, Ent::None, 0), V::UninitializedThis => (6, Ent::None, 0), V::Object(c) => (7, Ent::Class(mu(c)), 0), V::UninitializedVariable(l) => (8, Ent::None, l.0 as u16) }
}
fn neutral(f: &RawFrame) -> F {
    let v = |v: &Vec<VerificationType>| v.iter().map(n_vt).collect::<Vec<_>>();
    let z = |k, off| F { k, off, n: 0, a: vec![], b: vec![] };
    match f { RawFrame::Same(o) => z(0, *o), RawFrame::SameLocalsOneStack(o, t) => F { b: vec![n_vt(t)], ..z(1, *o) }, RawFrame::Chop(o, n) => F { n: *n, ..z(2, *o) }, RawFrame::Append(o, a) => F { a: v(a), ..z(3, *o) }, RawFrame::Full(o, a, b) => F { a: v(a), b: v(b), ..z(4, *o) } }
}
fn s_vt(g: &mut G) -> VerificationType {
    use VerificationType as V;
    match pick(9) { 0 => V::Top, 1 => V::Int, 2 => V::Float, 3 => V::Double, 4 => V::Long, 5 => V::Null, 6 => V::UninitializedThis, 7 => V::Object(g.ascii()), _ => V::UninitializedVariable(Label(u16() as u32)) }
}
/// One type of any kind, the others of a fixed kind.
fn s_vts(g: &mut G, n: usize) -> Vec<VerificationType> { let k = if n == 0 { 0 } else { pick(n) }; (0..n).map(|i| if i == k { s_vt(g) } else if i % 2 == 0 { VerificationType::Long } else { VerificationType::UninitializedVariable(Label(u16() as u32)) }).collect() }
fn a_pool() -> (Pool, Pp) { let mut p = Pool::new(); p.add(&Ent::Long(1)); p.add(&Ent::Class(b"A".to_vec())); p.add(&Ent::Int(5)); let pp = parse_pool(&p.bytes()).unwrap().0; (p, pp) }
/// Reads the bytes as a frame and compares with the decoder.
fn check_bytes(b: &[u8]) {
    let (p, pp) = a_pool();
    let mut r = b;
    let got = <RawFrame as ConstantPoolReadWrite>::read_from(&mut reader(&p), &mut r);
    match (got, decode(b, &pp)) {
        (Ok(f), Some((w, n))) => { cover("read"); check(eq_f(&neutral(&f), &w), "the frame the bytes encode"); check(b.len() - r.len() == n, "reading consumes exactly the frame") }
        (Err(_), None) => cover("refused"),
        (Ok(_), None) => check(false, "bytes that are not a frame are refused"),
        (Err(_), Some(_)) => check(false, "a frame is read"),
    }
}

harnesses! {
    // every form with every offset, written and read back
    fn h_frame_value() {
        let mut g = G::new();
        let o = u16();
        let max = param(0);
        let f = match pick(5) { 0 => RawFrame::Same(o), 1 => RawFrame::SameLocalsOneStack(o, s_vt(&mut g)), 2 => RawFrame::Chop(o, 1 + pick(3) as u8), 3 => { let n = 1 + pick(3); RawFrame::Append(o, s_vts(&mut g, n)) } _ => { let (a, b) = (pick(max + 1), pick(max + 1)); RawFrame::Full(o, s_vts(&mut g, a), s_vts(&mut g, b)) } };
        let mut w = writer();
        let mut b = Vec::new();
        if f.write_to(&mut w, &mut b).is_err() { check(false, "a frame is written"); return }
        let pp = pool_of(&w);
        match decode(&b, &pp) { Some((x, n)) => { check(eq_f(&x, &neutral(&f)), "the written frame has the form, offset and types"); check(n == b.len(), "nothing but the frame is written") } None => check(false, "the written frame is valid") }
        let mut pb = Vec::new();
        if w.0.write_to(&mut pb).is_err() { check(false, "the pool is written"); return }
        match MapCp::read_from(&mut &pb[..]) { Ok(c) => match <RawFrame as ConstantPoolReadWrite>::read_from(&mut Cpr(c), &mut &b[..]) { Ok(x) => check(x == f, "reading gives back the frame"), Err(_) => check(false, "a written frame is read") }, Err(_) => check(false, "the pool is read") }
        observe_bytes(&b);
        cover("value");
    }
    // forms that do not exist
    fn h_frame_bad() {
        let n = u8();
        let o = u16();
        let f = if flip() { RawFrame::Chop(o, n) } else { let k = pick(6); assume(n as usize == k); RawFrame::Append(o, vec![VerificationType::Int; k]) };
        assume(n > 0 || matches!(f, RawFrame::Chop(..)));
        let mut b = Vec::new();
        match f.write_to(&mut writer(), &mut b) { Ok(()) => { cover("written"); check(n >= 1 && n <= 3, "a frame that cannot be encoded is refused") } Err(_) => { cover("refused"); check(n < 1 || n > 3, "a frame is written") } }
    }
    // any bytes
    fn h_frame_bytes() { let n = pick(param(0) + 1); let b = bytes(n); check_bytes(&b) }
    // full frames with bounded counts, any types
    fn h_frame_full() {
        let mut b = vec![255, u8(), u8(), 0];
        let n = pick(param(0) + 1);
        b.push(n as u8);
        for _ in 0..n { b.push(u8()); match pick(2) { 0 => {} _ => b.extend_from_slice(&bytes(2)) } }
        b.extend_from_slice(&[0, 1, u8(), 0, 3]);
        check_bytes(&b)
    }
    // frames in a method's code: accepted exactly if they are frames, and dropped
    fn h_frame_in_code() {
        let (p0, pp) = a_pool();
        let mut p = p0;
        let name = p.utf(b"StackMapTable");
        let n = pick(param(0) + 1);
        let f = bytes(n);
        let mut b = vec![0, 1, 0, 1, 0, 0, 0, 1, 0xb1, 0, 0, 0, 1];
        b.extend_from_slice(&be2(name));
        b.extend_from_slice(&((n + 2) as u32).to_be_bytes());
        b.extend_from_slice(&[0, 1]);
        b.extend_from_slice(&f);
        let got = <Code as ConstantPoolReadWrite>::read_from(&mut reader(&p), &mut &b[..]);
        let want = match decode(&f, &pp) { Some((x, k)) => { let mut ok = k == n; for v in x.a.iter().chain(&x.b) { if v.0 == 8 { ok &= v.2 <= 1 } } ok } None => false };
        match got { Ok(c) => { cover("read"); check(want, "an ill-formed table of frames is refused"); let mut k = 0; for i in &c.code { match i { Instruction::Label(_) => {} i => { k += 1; check(*i == Instruction::Return(None), "the code") } } } check(k == 1 && c.attrs.is_empty(), "frames leave no trace") } Err(_) => { cover("refused"); check(!want, "a table of frames is accepted") } }
    }
}
