//! Sources and destinations that fail, or take and give the data in pieces.
use crate::cf::*;
use crate::class::{file, s_class, same, write};
use crate::harnesses;
use crate::rt::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use std::io::{self, ErrorKind};

#[derive(Clone, Copy, PartialEq)]
enum How { /** an error at the position */ Fail, /** nothing more from the position on */ End, /** the operation that reaches the position stops there */ Split, /** one byte at a time */ Bytes, /** interrupted once at the position */ Interrupt }
struct Pipe { data: B, at: usize, how: How, pos: usize, done: bool }
impl Pipe {
    fn new(data: B, at: usize, how: How) -> Self { Pipe { data, at, how, pos: 0, done: false } }
    fn err() -> io::Error { io::Error::from(ErrorKind::BrokenPipe) }
    /// How many of `want` bytes can be moved now.
    fn step(&mut self, want: usize) -> io::Result<usize> {
        if want == 0 { return Ok(0) }
        match self.how {
            How::Fail => if self.pos == self.at { return Err(Self::err()) },
            How::End => if self.pos == self.at { self.done = true; return Ok(0) },
            How::Interrupt => if self.pos == self.at && !self.done { self.done = true; return Err(io::Error::from(ErrorKind::Interrupted)) },
            How::Split => {} How::Bytes => return Ok(1),
        }
        Ok(if self.pos < self.at && want > self.at - self.pos { self.at - self.pos } else { want })
    }
}
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos;
        let n = self.step(if b.len() < left { b.len() } else { left })?;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = self.step(b.len())?; self.data.extend_from_slice(&b[..n]); self.pos += n; Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn fault() -> How { if flip() { How::Fail } else { How::End } }
fn piece(n: usize) -> (usize, How) { match pick(3) { 0 => (0, How::Bytes), 1 => (pick(n), How::Split), _ => (pick(n), How::Interrupt) } }

/// A part of a class file with its bytes.
fn part<V: ConstantPoolReadWrite + PartialEq>(v: V) {
    let mut w = writer();
    let mut b = Vec::new();
    if v.write_to(&mut w, &mut b).is_err() { check(false, "a part is written"); return }
    let n = b.len();
    if n == 0 { return }
    let pool = || { let mut pool = Vec::new(); w.0.write_to(&mut pool).ok(); match MapCp::read_from(&mut &pool[..]) { Ok(c) => Cpr(c), Err(_) => { check(false, "a written pool is read"); unreachable!() } } };
    match pick(4) {
        0 => {
            let (at, how) = (pick(n), fault());
            let mut p = Pipe::new(vec![], at, how);
            check(v.write_to(&mut writer(), &mut p).is_err(), "a failing destination is an error");
            cover("write fault");
        }
        1 => {
            let mut cp = pool();
            let (at, how) = (pick(n), fault());
            let mut p = Pipe::new(b, at, how);
            check(<V as ConstantPoolReadWrite>::read_from(&mut cp, &mut p).is_err(), "a failing source is an error");
            cover("read fault");
        }
        2 => {
            let (at, how) = piece(n);
            let mut p = Pipe::new(vec![], at, how);
            check(v.write_to(&mut writer(), &mut p).is_ok(), "a part is written in pieces");
            check(p.data == b, "pieces make up the same part");
            cover("write pieces");
        }
        _ => {
            let (mut cp, mut cq) = (pool(), pool());
            let mut r = &b[..];
            let x = <V as ConstantPoolReadWrite>::read_from(&mut cq, &mut r);
            let left = r.len();
            let (at, how) = piece(n);
            let mut p = Pipe::new(b.clone(), at, how);
            match (x, <V as ConstantPoolReadWrite>::read_from(&mut cp, &mut p)) { (Ok(x), Ok(y)) => check(x == y && n - p.pos == left && left == 0, "a part that comes in pieces is the same"), _ => check(false, "a part that comes in pieces is read") }
            cover("read pieces");
        }
    }
}
fn plain<V: ReadWrite>(v: V) { plain4(v, 4) }
fn plain4<V: ReadWrite>(v: V, k: usize) {
    let mut b = Vec::new();
    if v.write_to(&mut b).is_err() { check(false, "a value is written"); return }
    let n = b.len();
    match pick(k) {
        0 => { let (at, how) = (pick(n), fault()); check(v.write_to(&mut Pipe::new(vec![], at, how)).is_err(), "a failing destination is an error"); cover("write fault") }
        1 => { let (at, how) = (pick(n), fault()); check(V::read_from(&mut Pipe::new(b, at, how)).is_err(), "a failing source is an error"); cover("read fault") }
        2 => { let (at, how) = piece(n); let mut p = Pipe::new(vec![], at, how); check(v.write_to(&mut p).is_ok() && p.data == b, "a value is written in pieces") }
        _ => { let (at, how) = piece(n); let mut p = Pipe::new({ let mut b = b.clone(); b.push(0xEE); b }, at, how); match V::read_from(&mut p) { Ok(x) => { let mut o = Vec::new(); check(x.write_to(&mut o).is_ok() && o[..n] == b[..], "a value that comes in pieces is the same") } Err(_) => check(false, "a value that comes in pieces is read") } }
    }
}
/// A method body with everything in it: jumps, switches, constants, handlers, lines, variables, annotations.
fn body(g: &mut G) -> Code {
    use coffer::annotation::*;
    let (a, b) = (Label(0), Label(1));
    let mut t = indexmap::IndexMap::new();
    t.insert(9, a); t.insert(-4, b);
    let push = |c| Instruction::Push(OrDynamic::Static(c));
    let code = vec![Instruction::Label(a), push(Constant::I32(70000)), push(Constant::I64(i64())), Instruction::LineNumber(u16()), Instruction::Jump(JumpCondition::IntegerEquals, b), Instruction::TableSwitch { default: a, low: -1, offsets: vec![a, b] }, Instruction::LookupSwitch { default: a, table: t }, Instruction::Label(b), Instruction::IntIncrement(300, 400), Instruction::LineNumber(8), Instruction::Return(None), Instruction::Label(Label(2))];
    let vars = vec![LocalVariable { start: a, end: b, name: g.ascii(), descriptor: Some(Type::Int), signature: None, index: u16() }];
    let anno = CodeTypeAnnotation { target: CodeTypeAnnotationTarget::Constructor(b), type_path: vec![], annotation_type: Type::Int, element_values: Default::default() };
    Code { max_stack: u16(), max_locals: u16(), code, catches: vec![Catch { start: a, end: b, handler: b, catch: Some(g.ascii()) }], attrs: vec![CodeAttribute::LocalVariables(vars), CodeAttribute::VisibleTypeAnnotations(vec![anno]), CodeAttribute::Raw(RawAttribute::new(g.ascii(), vec![1u8, 2]))] }
}

harnesses! {
    fn h_io_read_fault() {
        let mut g = G::new();
        let (_, t) = s_class(&mut g);
        let b = file(0, 52, &t, &mut Pool::new());
        let at = pick(b.len());
        let r: coffer::Result<Class> = read_from!(&mut Pipe::new(b, at, How::Fail));
        match r { Ok(_) => check(false, "a failing source is an error"), Err(e) => match e { coffer::error::ErrorBase::IO(e) => check(e.kind() == ErrorKind::BrokenPipe, "the error of the source is passed on"), _ => check(false, "a failing source is reported as such") } }
        cover("fault");
    }
    fn h_io_read_pieces() {
        let mut g = G::new();
        let (c, t) = s_class(&mut g);
        let b = file(0, 52, &t, &mut Pool::new());
        let n = b.len();
        let (at, how) = piece(n);
        let mut p = Pipe::new(b, at, how);
        let r: coffer::Result<Class> = read_from!(&mut p);
        match r { Ok(x) => { check(p.pos == n, "the whole class is read"); same(&x, &c) } Err(_) => check(false, "a class that comes in pieces is read") }
        cover("pieces");
    }
    fn h_io_write_fault() {
        let mut g = G::new();
        let (c, _) = s_class(&mut g);
        let b = match write(&c) { Ok(b) => b, Err(_) => { check(false, "a class is written"); return } };
        let (at, how) = (pick(b.len()), fault());
        let mut p = Pipe::new(vec![], at, how);
        match write_to!(&c, &mut p) { Ok(()) => check(false, "a failing destination is an error"), Err(e) => match e { coffer::error::ErrorBase::IO(e) => check(e.kind() == if how == How::Fail { ErrorKind::BrokenPipe } else { ErrorKind::WriteZero }, "the error of the destination is passed on"), _ => check(false, "a failing destination is reported as such") } }
        check(p.data[..] == b[..at], "what was accepted is the beginning of the class");
        cover("fault");
    }
    fn h_io_write_pieces() {
        let mut g = G::new();
        let (c, _) = s_class(&mut g);
        let b = match write(&c) { Ok(b) => b, Err(_) => { check(false, "a class is written"); return } };
        let (at, how) = piece(b.len());
        let mut p = Pipe::new(vec![], at, how);
        check(write_to!(&c, &mut p).is_ok(), "a class is written in pieces");
        check(p.data == b, "pieces make up the same class");
        cover("pieces");
    }
    // parts of a class, straight to and from the outside
    fn h_io_part() {
        let mut g = G::small();
        match pick(9) {
            7 => { let c = body(&mut g); part(c) }
            0 => { let k = pick(10); part(crate::attrs::s_class_attr(&mut g, k).0) }
            1 => { let k = pick(4); part(crate::attrs::s_field_attr(&mut g, k).0) }
            2 => { let k = pick(4); part(crate::attrs::s_method_attr(&mut g, k).0) }
            3 => { let (m, _) = crate::attrs::s_module(&mut g); part(ClassAttribute::Module(m)) }
            4 => { let v = crate::anno::s_value(&mut g, 1); part(v) }
            5 => { let n = g.ascii(); part(Field { access: FieldFlags::from_bits_truncate(1), name: n, descriptor: Type::Int, attrs: vec![FieldAttribute::Deprecated, FieldAttribute::ConstantValue(Constant::I64(i64()))] }) }
            6 => { let n = g.any(); part(ClassAttribute::Raw(RawAttribute::new(n, bytes(2)))) }
            _ => { let mut c = Code::default(); c.code = vec![Instruction::Push(OrDynamic::Static(Constant::I32(i32()))), Instruction::NoOp]; c.catches = vec![]; let n = g.ascii(); part(Method { access: MethodFlags::from_bits_truncate(1), name: n, descriptor: Type::Method { parameters: vec![], ret: None }, attributes: vec![MethodAttribute::Code(c), MethodAttribute::Synthetic] }) }
        }
    }
    fn h_io_plain() {
        use coffer::version::*;
        let mut g = G::new();
        match pick(9) {
            0 => plain(u16()), 1 => plain(i32()), 2 => plain(u64()), 3 => plain(f64::from_bits(u64())), 4 => plain(JavaVersion { minor: u16(), major: MajorVersion::J9 }), 5 => plain(FieldFlags::from_bits_truncate(u16())),
            6 => plain(g.any()), 7 => plain4(SourceDebugExtensionLike(g.any()), 3), _ => plain(RawConstantEntry::Field(u16(), u16())),
        }
    }
    // the pool of a class
    fn h_io_pool() {
        let mut g = G::new();
        let mut w = VecCp::new();
        w.insert_constant(s_const(&mut g));
        let mut b = Vec::new();
        if w.write_to(&mut b).is_err() { check(false, "a pool is written"); return }
        let n = b.len();
        match pick(4) {
            0 => { let (at, how) = (pick(n), fault()); check(w.write_to(&mut Pipe::new(vec![], at, how)).is_err(), "a failing destination is an error"); cover("write fault") }
            1 => { let (at, how) = (pick(n), fault()); check(MapCp::read_from(&mut Pipe::new(b, at, how)).is_err(), "a failing source is an error"); cover("read fault") }
            2 => { let (at, how) = piece(n); let mut p = Pipe::new(vec![], at, how); check(w.write_to(&mut p).is_ok() && p.data == b, "a pool is written in pieces") }
            _ => { let (at, how) = piece(n); let mut p = Pipe::new(b.clone(), at, how); match MapCp::read_from(&mut p) { Ok(mut c) => { let mut d = match MapCp::read_from(&mut &b[..]) { Ok(d) => d, Err(_) => { check(false, "a written pool is read"); return } }; let mut e = p.pos == n; for i in 0..20 { e &= c.read_raw(i) == d.read_raw(i) } check(e, "a pool that comes in pieces is the same") } Err(_) => check(false, "a pool that comes in pieces is read") } }
        }
    }
}
/// Text without a length: only writing can tell that the destination failed; a failing source must not look like its end.
struct SourceDebugExtensionLike(Name);
impl ReadWrite for SourceDebugExtensionLike {
    fn read_from<T: Read>(r: &mut T) -> coffer::Result<Self> {
        let x = SourceDebugExtension::read_from(r)?;
        let mut b = [0];
        if r.read(&mut b)? == 0 { return Err(io::Error::from(ErrorKind::UnexpectedEof).into()) } // the end of the source is the end of the text
        Ok(SourceDebugExtensionLike(x.0))
    }
    fn write_to<T: Write>(&self, w: &mut T) -> coffer::Result<()> { SourceDebugExtension(self.0.clone()).write_to(w) }
}
