//! Sizes around the limits of the format: what does not fit is refused, what fits is counted correctly.
use crate::cf::*;
use crate::harnesses;
use crate::rt::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use std::collections::HashMap;
use std::str::FromStr;
use wtf_8::Wtf8Str;

fn nm(s: &'static str) -> Name { Cow::Borrowed(Wtf8Str::new(s)) }
fn n16() -> usize { [65535, 65536, 65537][pick(3)] }
fn n8() -> usize { [254, 255, 256, 257][pick(4)] }
/// `b`: what was written for `n` elements; the count of `w` bytes stands at `at`, each element takes `es` bytes, `tail` more follow.
fn judge(b: O<B>, n: usize, w: usize, at: usize, es: usize, tail: usize) {
    let fits = n < 1 << (8 * w);
    match b {
        Some(b) => {
            cover("fits");
            check(fits, "more elements than the count can state are refused");
            check(b.len() == at + w + n * es + tail, "as many elements as there are are written");
            let mut c = 0usize;
            for i in 0..w { c = c << 8 | b[at + i] as usize }
            check(c == n, "the count is the number of elements");
            observe(b.len() as u64);
        }
        None => { cover("refused"); check(!fits, "elements that can be counted are written"); observe(0) }
    }
}
fn wr<V: ConstantPoolReadWrite>(v: &V) -> O<B> {
    let mut w = writer();
    let mut b = Vec::new();
    v.write_to(&mut w, &mut b).ok()?;
    Some(b)
}
/// An attribute; its length must be that of its contents.
fn wa<V: ConstantPoolReadWrite>(v: &V) -> O<B> { let b = wr(v)?; check(b.len() >= 6 && g4(&b, 2) == Some(b.len() as u32 - 6), "the length is that of the contents"); Some(b) }
fn ann() -> Annotation { Annotation { annotation_type: Type::Ref(nm("A")), element_values: HashMap::new() } }
fn bsm(n: usize) -> BootstrapMethod { BootstrapMethod { handle: MethodHandle { kind: MethodHandleKind::InvokeStatic, member: MemberRef { owner: nm("O"), name: nm("n"), descriptor: Type::Method { parameters: vec![], ret: None }, itfs: false } }, arguments: vec![OrDynamic::Static(Constant::I32(i32())); n] } }
fn module() -> Module { Module { name: nm("m"), flags: ModuleFlags::from_bits_truncate(u16()), version: None, requires: vec![], exports: vec![], opens: vec![], uses: vec![], provides: vec![] } }
fn class0() -> Class { Class { version: JavaVersion { minor: 0, major: MajorVersion::J8 }, access: ClassFlags::from_bits_truncate(u16()), name: nm("C"), super_name: None, interfaces: vec![], fields: vec![], methods: vec![], attributes: vec![] } }
fn field(n: usize) -> Field { Field { access: FieldFlags::from_bits_truncate(u16()), name: nm("f"), descriptor: Type::Int, attrs: vec![FieldAttribute::Synthetic; n] } }
fn method(n: usize) -> Method { Method { access: MethodFlags::from_bits_truncate(u16()), name: nm("g"), descriptor: Type::Method { parameters: vec![], ret: None }, attributes: vec![MethodAttribute::Deprecated; n] } }
/// The written class without magic, version and pool.
fn wc(c: &Class) -> O<B> {
    let mut b = Vec::new();
    c.write_to(&mut b).ok()?;
    match parse_pool(&b[8..]) { Some((_, n)) => Some(b[8 + n..].to_vec()), None => { check(false, "the constant pool is well-formed"); None } }
}
const L0: Label = Label(0);
const L1: Label = Label(1);
fn code(catches: usize, attrs: Vec<CodeAttribute>, lines: usize) -> Code {
    let mut code = vec![Instruction::Label(L0)];
    for _ in 0..lines { code.push(Instruction::LineNumber(7)) }
    code.push(Instruction::NoOp);
    code.push(Instruction::Label(L1));
    code.push(Instruction::Return(None));
    Code { max_stack: u16(), max_locals: u16(), code, catches: vec![Catch { start: L0, end: L1, handler: L1, catch: None }; catches], attrs }
}
fn raw() -> RawAttribute { RawAttribute { name: nm("Raw"), inner: Cow::Borrowed(&[]) } }
fn cta(target: CodeTypeAnnotationTarget, path: usize) -> CodeTypeAnnotation { CodeTypeAnnotation { target, type_path: vec![TypePath::Nested(u8()); path], annotation_type: Type::Ref(nm("A")), element_values: HashMap::new() } }
fn read1<V: ConstantPoolReadWrite>(t: Tk) -> V { let mut p = Pool::new(); let b = emit(&t.0, &mut p); match <V as ConstantPoolReadWrite>::read_from(&mut reader(&p), &mut &b[..]) { Ok(v) => v, Err(_) => { check(false, "a small attribute is read"); unreachable!() } } }

harnesses! {
    // lists of classes, their members and of modules
    fn h_lim_class() {
        let n = n16();
        match pick(8) {
            0 => { let mut c = class0(); c.interfaces = vec![nm("I"); n]; judge(wc(&c), n, 2, 6, 2, 6) }
            1 => { let mut c = class0(); c.fields = vec![field(0); n]; judge(wc(&c), n, 2, 8, 8, 4) }
            2 => { let mut c = class0(); c.methods = vec![method(0); n]; judge(wc(&c), n, 2, 10, 8, 2) }
            3 => { let mut c = class0(); c.attributes = vec![ClassAttribute::Synthetic; n]; judge(wc(&c), n, 2, 12, 6, 0) }
            4 => judge(wr(&field(n)), n, 2, 6, 6, 0),
            5 => judge(wr(&method(n)), n, 2, 6, 6, 0),
            // the bootstrap methods of a class are one more attribute
            6 => { let mut c = class0(); c.attributes = vec![ClassAttribute::Synthetic; n - 1]; c.attributes.push(ClassAttribute::BootstrapMethods(vec![bsm(0)])); judge(wc(&c), n, 2, 12, 6, 6) }
            _ => { let mut c = class0(); c.attributes.push(ClassAttribute::BootstrapMethods(vec![bsm(0); n])); judge(wc(&c), n, 2, 20, 4, 0) }
        }
    }
    fn h_lim_attr() {
        let n = n16();
        match pick(7) {
            0 => judge(wa(&ClassAttribute::NestMembers(vec![nm("N"); n])), n, 2, 6, 2, 0),
            1 => judge(wa(&ClassAttribute::ModulePackages(vec![nm("p"); n])), n, 2, 6, 2, 0),
            2 => judge(wa(&MethodAttribute::Exceptions(vec![nm("E"); n])), n, 2, 6, 2, 0),
            3 => judge(wa(&ClassAttribute::InnerClasses(vec![InnerClass { inner_fqname: nm("I"), outer_fqname: None, inner_name: None, inner_access: InnerClassFlags::from_bits_truncate(u16()) }; n])), n, 2, 6, 8, 0),
            4 => judge(wr(&bsm(n)), n, 2, 2, 2, 0),
            5 => judge(wr(&AnnotationValue::Array(vec![AnnotationValue::Boolean(true); n])), n, 2, 1, 3, 0),
            _ => judge(wa(&MethodAttribute::AnnotationDefault(AnnotationValue::Array(vec![AnnotationValue::Int(i32()); n]))), n, 2, 7, 3, 0),
        }
    }
    fn h_lim_anno() {
        let n = n16();
        let t = || FieldTypeAnnotation { target_type: FieldTarget::Field, type_path: vec![], annotation_type: Type::Int, element_values: HashMap::new() };
        match pick(6) {
            0 => judge(wa(&ClassAttribute::RuntimeVisibleAnnotations(vec![ann(); n])), n, 2, 6, 4, 0),
            1 => judge(wa(&FieldAttribute::RuntimeInvisibleAnnotations(vec![ann(); n])), n, 2, 6, 4, 0),
            2 => judge(wa(&MethodAttribute::RuntimeVisibleAnnotations(vec![ann(); n])), n, 2, 6, 4, 0),
            3 => judge(wa(&ClassAttribute::RuntimeInvisibleTypeAnnotations(vec![ClassTypeAnnotation { target: ClassTypeAnnotationTarget::GenericTypeParameter(1), type_path: vec![], annotation_type: Type::Int, element_values: HashMap::new() }; n])), n, 2, 6, 7, 0),
            4 => judge(wa(&FieldAttribute::RuntimeVisibleTypeAnnotations(vec![t(); n])), n, 2, 6, 6, 0),
            _ => judge(wa(&MethodAttribute::RuntimeVisibleTypeAnnotations(vec![MethodTypeAnnotation { target: MethodTypeAnnotationTarget::Reciever, type_path: vec![], annotation_type: Type::Int, element_values: HashMap::new() }; n])), n, 2, 6, 6, 0),
        }
    }
    fn h_lim_module() {
        let n = n16();
        let mut m = module();
        let fl = ExOpFlags::from_bits_truncate(u16());
        match pick(8) {
            0 => { m.requires = vec![Require { module: nm("r"), flags: RequireFlags::from_bits_truncate(u16()), version: None }; n]; judge(wr(&m), n, 2, 6, 6, 8) }
            1 => { m.exports = vec![Export { package: nm("e"), flags: fl, to: vec![] }; n]; judge(wr(&m), n, 2, 8, 6, 6) }
            2 => { m.opens = vec![Open { package: nm("o"), flags: fl, to: vec![] }; n]; judge(wr(&m), n, 2, 10, 6, 4) }
            3 => { m.uses = vec![nm("u"); n]; judge(wr(&m), n, 2, 12, 2, 2) }
            4 => { m.provides = vec![Provide { class: nm("P"), with: vec![] }; n]; judge(wr(&m), n, 2, 14, 4, 0) }
            5 => { m.exports = vec![Export { package: nm("e"), flags: fl, to: vec![nm("t"); n] }]; judge(wr(&m), n, 2, 14, 2, 6) }
            6 => { m.opens = vec![Open { package: nm("o"), flags: fl, to: vec![nm("t"); n] }]; judge(wr(&m), n, 2, 16, 2, 4) }
            _ => { m.provides = vec![Provide { class: nm("P"), with: vec![nm("W"); n] }]; judge(wr(&m), n, 2, 18, 2, 0) }
        }
    }
    // counts of one byte
    fn h_lim_byte() {
        let n = n8();
        let path = vec![TypePath::Nested(u8()); n];
        match pick(7) {
            0 => judge(wr(&ClassTypeAnnotation { target: ClassTypeAnnotationTarget::GenericTypeParameter(1), type_path: path, annotation_type: Type::Int, element_values: HashMap::new() }), n, 1, 2, 2, 4),
            1 => judge(wr(&MethodTypeAnnotation { target: MethodTypeAnnotationTarget::Reciever, type_path: path, annotation_type: Type::Int, element_values: HashMap::new() }), n, 1, 1, 2, 4),
            2 => judge(wr(&FieldTypeAnnotation { target_type: FieldTarget::Field, type_path: path, annotation_type: Type::Int, element_values: HashMap::new() }), n, 1, 1, 2, 4),
            3 => judge(wr(&cta(CodeTypeAnnotationTarget::InstanceOf(L0), n)), n, 1, 3, 2, 4),
            4 => { let v: MethodAttribute = read1(Tk::new().attr("MethodParameters", Tk::new().u1(1).utf(b"p").u2(0))); if let MethodAttribute::MethodParameters(v) = v { judge(wa(&MethodAttribute::MethodParameters(vec![v[0].clone(); n])), n, 1, 6, 4, 0) } }
            k => {
                let vis = k == 5;
                let v: MethodAttribute = read1(Tk::new().attr(if vis { "RuntimeVisibleParameterAnnotations" } else { "RuntimeInvisibleParameterAnnotations" }, Tk::new().u1(1).u2(0)));
                match v { MethodAttribute::RuntimeVisibleParameterAnnotations(v) => judge(wa(&MethodAttribute::RuntimeVisibleParameterAnnotations(vec![v[0].clone(); n])), n, 1, 6, 2, 0), MethodAttribute::RuntimeInvisibleParameterAnnotations(v) => judge(wa(&MethodAttribute::RuntimeInvisibleParameterAnnotations(vec![v[0].clone(); n])), n, 1, 6, 2, 0), _ => check(false, "parameter annotations") }
            }
        }
    }
    // lists inside code
    fn h_lim_code() {
        let n = n16();
        // in front: stack, locals, length, two instructions
        match pick(8) {
            0 => judge(wr(&code(n, vec![], 0)), n, 2, 10, 8, 2),
            1 => judge(wr(&code(0, vec![CodeAttribute::Raw(raw()); n], 0)), n, 2, 12, 6, 0),
            2 => judge(wr(&code(0, vec![], n)), n, 2, 20, 4, 0),
            3 => judge(wr(&code(0, vec![CodeAttribute::LocalVariables(vec![LocalVariable { start: L0, end: L1, name: nm("v"), descriptor: Some(Type::Int), signature: None, index: u16() }; n])], 0)), n, 2, 20, 10, 0),
            4 => judge(wr(&code(0, vec![CodeAttribute::LocalVariables(vec![LocalVariable { start: L0, end: L1, name: nm("v"), descriptor: None, signature: Some(FieldSignature::from_str("TX;").unwrap()), index: u16() }; n])], 0)), n, 2, 20, 10, 0),
            5 => judge(wr(&code(0, vec![CodeAttribute::VisibleTypeAnnotations(vec![cta(CodeTypeAnnotationTarget::InstanceOf(L0), 0); n])], 0)), n, 2, 20, 8, 0),
            6 => judge(wr(&code(0, vec![CodeAttribute::InvisibleTypeAnnotations(vec![cta(CodeTypeAnnotationTarget::LocalVariable(vec![LocalVarTarget { start: L0, end: L1, idx: u16() }; n]), 0)])], 0)), n, 2, 23, 6, 5),
            // line numbers are one more attribute
            _ => judge(wr(&code(0, vec![CodeAttribute::Raw(raw()); n - 1], 1)), n, 2, 12, 6, 6),
        }
    }
    fn h_lim_frame() {
        let n = n16();
        let v = vec![VerificationType::Int; n];
        if flip() { judge(wr(&RawFrame::Full(u16(), v, vec![])), n, 2, 3, 1, 2) } else { judge(wr(&RawFrame::Full(u16(), vec![], v)), n, 2, 5, 1, 0) }
    }
    // the length of code; an instruction at the end that just fits or does not
    fn h_lim_length() {
        let before = 65530 + pick(7);
        let mut c = vec![Instruction::NoOp; before];
        c.push(match pick(3) { 0 => Instruction::IntIncrement(u16(), i16()), 1 => Instruction::Ret(u16()), _ => Instruction::Return(None) });
        let c = Code { max_stack: 1, max_locals: 1, code: c, catches: vec![], attrs: vec![] };
        match wr(&c) {
            Some(b) => {
                cover("fits");
                let n = match g4(&b, 4) { Some(n) => n as usize, None => { check(false, "a length is written"); return } };
                check(n <= 65535 && n > before, "code longer than the format allows is refused");
                check(b.len() == 12 + n, "the length of the code is that of its bytes");
                observe(n as u64);
            }
            None => {
                cover("refused");
                // the shortest encoding does not fit
                let last = match &c.code[before] { Instruction::IntIncrement(i, v) => if *i < 256 && *v >= -128 && *v < 128 { 3 } else { 6 }, Instruction::Ret(i) => if *i < 256 { 2 } else { 4 }, _ => 1 };
                check(before + last > 65535, "code of a length that the format allows is written");
                observe(0);
            }
        }
    }
    // names as long as the format allows
    fn h_lim_name() {
        let n = n16() - pick(2);
        let mut v = vec![b'a'; n];
        let c = u8();
        assume(c > 0 && c < 128 && c != b';' && c != b'[' && c != b'(');
        v[n / 2] = c;
        let name = own(unsafe { wtf_8::Wtf8String::from_bytes_unchecked(v) });
        let mut k = class0();
        match pick(5) {
            0 => k.name = name, 1 => k.interfaces = vec![name], 2 => { let mut f = field(0); f.name = name; k.fields.push(f) }
            3 => k.attributes.push(ClassAttribute::SourceFile(name)), _ => { let mut r = raw(); r.name = name; k.attributes.push(ClassAttribute::Raw(r)) }
        }
        let mut b = Vec::new();
        let ok = k.write_to(&mut b).is_ok();
        check(ok == (n <= 65535), "names are written exactly if their length fits");
        if ok { cover("fits"); check(parse_pool(&b[8..]).is_some(), "the written pool is well-formed") } else { cover("refused") }
        observe(b.len() as u64 * ok as u64);
    }
    // element pairs have distinct names
    fn h_lim_pairs() {
        let n = n16();
        let mut m: HashMap<Name, AnnotationValue> = HashMap::new();
        for i in 0..n { m.insert(own(unsafe { wtf_8::Wtf8String::from_bytes_unchecked(vec![b'a' + (i & 15) as u8, b'a' + (i >> 4 & 15) as u8, b'a' + (i >> 8 & 15) as u8, b'a' + (i >> 12 & 15) as u8, b'a' + (i >> 16) as u8]) }), AnnotationValue::Boolean(true)); }
        let a = Annotation { annotation_type: Type::Int, element_values: m };
        // a pool holds at most 65534 entries, so that 65535 distinct names cannot be written, either
        struct W(u16);
        impl ConstantPoolWriter for W { fn insert_raw(&mut self, _: RawConstantEntry) -> u16 { self.0 = self.0.wrapping_add(1); 1 } fn insert_bsm(&mut self, _: BootstrapMethod) -> u16 { 0 } }
        let mut b = Vec::new();
        let r = a.write_to(&mut W(0), &mut b);
        judge(match r { Ok(()) => Some(b), Err(_) => None }, n, 2, 2, 5, 0);
    }
}
