//! Generic signatures (JVMS 4.7.9.1).
use crate::harnesses;
use crate::rt::*;
use coffer::signature::*;
use std::borrow::Cow;
use std::str::FromStr;

/// Reference recursive descent parser over bytes. `strict`: the grammar of the specification. Otherwise identifiers may be any
/// run of bytes up to the next delimiter and argument lists may be empty: what a lenient reader may also take.
struct G<'a> { b: &'a [u8], i: usize, strict: bool }
type O<T> = Option<T>;
fn bad(c: u8) -> bool { c == b'.' || c == b';' || c == b'[' || c == b'/' || c == b'<' || c == b'>' || c == b':' }
impl<'a> G<'a> {
    fn peek(&self) -> O<u8> { self.b.get(self.i).copied() }
    fn eat(&mut self, c: u8) -> O<()> { if self.peek()? == c { self.i += 1; Some(()) } else { None } }
    fn id(&mut self, stop: &dyn Fn(u8) -> bool) -> O<Cow<'static, str>> {
        let s = self.i;
        while !stop(self.peek()?) { if self.strict && bad(self.b[self.i]) { return None } self.i += 1 }
        if self.strict && s == self.i { return None }
        Some(Cow::Owned(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
    }
    fn ty(&mut self) -> O<TypeSignature> {
        let c = self.peek()?;
        let t = if c == b'B' { TypeSignature::Byte } else if c == b'C' { TypeSignature::Char } else if c == b'D' { TypeSignature::Double } else if c == b'F' { TypeSignature::Float } else if c == b'I' { TypeSignature::Int } else if c == b'J' { TypeSignature::Long } else if c == b'S' { TypeSignature::Short } else if c == b'Z' { TypeSignature::Boolean } else { return Some(TypeSignature::Ref(self.reft()?)) };
        self.i += 1;
        Some(t)
    }
    fn reft(&mut self) -> O<RefTypeSignature> {
        let c = self.peek()?;
        if c == b'[' { let mut d = 0u32; while self.peek()? == b'[' { d += 1; self.i += 1 } if d > 255 { return None } Some(RefTypeSignature::ArrayRef(d as u8, Box::new(self.ty()?))) }
        else if c == b'T' { self.i += 1; let n = self.id(&|c| c == b';')?; self.i += 1; Some(RefTypeSignature::TypeVariable(n)) }
        else if c == b'L' { Some(RefTypeSignature::ClassType(self.class()?)) } else { None }
    }
    fn class(&mut self) -> O<ClassTypeSignature> {
        self.eat(b'L')?;
        let mut package = Vec::new();
        let first = loop { let n = self.id(&|c| c == b'/' || c == b';' || c == b'<' || c == b'.')?; if self.peek()? == b'/' { self.i += 1; package.push(n) } else { break n } };
        let name = SimpleClassTypeSignature { name: first, type_arguments: self.args()? };
        let mut suffix = Vec::new();
        while self.peek()? == b'.' { self.i += 1; suffix.push(self.simple()?) }
        self.eat(b';')?;
        Some(ClassTypeSignature { package, name, suffix })
    }
    fn simple(&mut self) -> O<SimpleClassTypeSignature> { let name = self.id_end(&|c| c == b'<' || c == b'.' || c == b';')?; Some(SimpleClassTypeSignature { name, type_arguments: self.args()? }) }
    fn id_end(&mut self, stop: &dyn Fn(u8) -> bool) -> O<Cow<'static, str>> {
        let s = self.i;
        while let Some(c) = self.peek() { if stop(c) { break } if self.strict && bad(c) { return None } self.i += 1 }
        if self.strict && s == self.i { return None }
        Some(Cow::Owned(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
    }
    fn args(&mut self) -> O<Vec<TypeArgument>> {
        let mut v = Vec::new();
        if self.peek() != Some(b'<') { return Some(v) }
        self.i += 1;
        while self.peek()? != b'>' {
            let c = self.peek()?;
            v.push(if c == b'*' { self.i += 1; TypeArgument::Any } else if c == b'+' { self.i += 1; TypeArgument::Extends(self.reft()?) } else if c == b'-' { self.i += 1; TypeArgument::Super(self.reft()?) } else { TypeArgument::Exact(self.reft()?) })
        }
        self.i += 1;
        if self.strict && v.is_empty() { None } else { Some(v) }
    }
    fn param(&mut self) -> O<TypeParameter> {
        let name = self.id_end(&|c| c == b':')?;
        if self.peek().is_none() { return if self.strict { None } else { Some(TypeParameter { name, class_bound: None, interface_bounds: vec![] }) } }
        self.i += 1;
        let c = self.peek();
        let class_bound = if c == Some(b'T') || c == Some(b'[') || c == Some(b'L') { Some(self.reft()?) } else { None };
        let mut interface_bounds = Vec::new();
        while self.peek() == Some(b':') { self.i += 1; interface_bounds.push(self.reft()?) }
        Some(TypeParameter { name, class_bound, interface_bounds })
    }
    fn params(&mut self) -> O<Vec<TypeParameter>> {
        let mut v = Vec::new();
        if self.peek() != Some(b'<') { return Some(v) }
        self.i += 1;
        while self.peek()? != b'>' { v.push(self.param()?) }
        self.i += 1;
        if self.strict && v.is_empty() { None } else { Some(v) }
    }
    fn throws(&mut self) -> O<Throws> { self.eat(b'^')?; let c = self.peek()?; if c == b'L' { Some(Throws::Class(self.class()?)) } else { self.eat(b'T')?; let n = self.id(&|c| c == b';')?; self.i += 1; Some(Throws::TypeParameter(n)) } }
    fn method(&mut self) -> O<MethodSignature> {
        let type_parameters = self.params()?;
        self.eat(b'(')?;
        let mut parameters = Vec::new();
        while self.peek()? != b')' { parameters.push(self.ty()?) }
        self.i += 1;
        let return_type = if self.peek()? == b'V' { self.i += 1; None } else { Some(self.ty()?) };
        let mut throws = Vec::new();
        while self.peek().is_some() { throws.push(self.throws()?) }
        Some(MethodSignature { type_parameters, parameters, return_type, throws })
    }
    fn cls(&mut self) -> O<ClassSignature> {
        let type_parameters = self.params()?;
        let super_class = self.class()?;
        let mut interfaces = Vec::new();
        while self.peek().is_some() { interfaces.push(self.class()?) }
        Some(ClassSignature { type_parameters, super_class, interfaces })
    }
}
fn reference<T>(b: &[u8], strict: bool, f: impl Fn(&mut G) -> O<T>) -> O<T> { let mut g = G { b, i: 0, strict }; let r = f(&mut g)?; if g.i == b.len() { Some(r) } else { None } }

fn text<T: FromStr + PartialEq + ToString>(b: &[u8], f: impl Fn(&mut G) -> O<T>) {
    let s = std::str::from_utf8(b).unwrap();
    let (strict, lenient) = (reference(b, true, &f), reference(b, false, &f));
    match T::from_str(s) {
        Ok(a) => {
            match &lenient { None => check(false, "text that is not a signature is rejected"), Some(l) => check(a == *l, "the signature the text denotes") }
            let t = a.to_string();
            if strict.is_some() { cover("accepted"); check(t == s, "a parsed signature is written back unchanged") }
            match T::from_str(&t) { Ok(x) => check(x == a, "writing and parsing again gives the same signature"), Err(_) => check(false, "a written signature parses") }
            observe_bytes(t.as_bytes());
        }
        Err(_) => { cover("rejected"); check(strict.is_none(), "every well-formed signature is accepted") }
    }
}

// symbolic signature values
fn ident() -> Cow<'static, str> {
    let n = 1 + pick(2);
    let mut s = Vec::new();
    for _ in 0..n { let c = u8(); assume(c >= 0x20 && c < 0x7F && !bad(c)); s.push(c) }
    Cow::Owned(String::from_utf8(s).unwrap())
}
fn id1() -> Cow<'static, str> { let c = u8(); assume(c >= 0x20 && c < 0x7F && !bad(c)); Cow::Owned(String::from_utf8(vec![c]).unwrap()) }
fn v_ref(d: usize) -> RefTypeSignature {
    match pick(if d == 0 { 2 } else { 3 }) { 0 => RefTypeSignature::TypeVariable(id1()), 1 => RefTypeSignature::ClassType(v_class(d)), _ => { let n = 1 + pick(2) as u8; let t = match pick(3) { 0 => TypeSignature::Long, 1 => TypeSignature::Ref(RefTypeSignature::TypeVariable(id1())), _ => TypeSignature::Ref(RefTypeSignature::ClassType(v_class(0))) }; RefTypeSignature::ArrayRef(n, Box::new(t)) } }
}
fn v_args(d: usize) -> Vec<TypeArgument> {
    let mut v = Vec::new();
    if d == 0 { return v }
    for _ in 0..pick(2) { v.push(match pick(4) { 0 => TypeArgument::Any, 1 => TypeArgument::Extends(v_ref(d - 1)), 2 => TypeArgument::Super(v_ref(d - 1)), _ => TypeArgument::Exact(v_ref(d - 1)) }) }
    v
}
fn v_simple(d: usize) -> SimpleClassTypeSignature { SimpleClassTypeSignature { name: id1(), type_arguments: v_args(d) } }
fn v_class(d: usize) -> ClassTypeSignature {
    let mut package = Vec::new();
    let mut suffix = Vec::new();
    if d > 0 { for _ in 0..pick(3) { package.push(id1()) } for _ in 0..pick(2) { suffix.push(v_simple(d - 1)) } }
    ClassTypeSignature { package, name: v_simple(d), suffix }
}
fn v_type(d: usize) -> TypeSignature { match pick(9) { 0 => TypeSignature::Byte, 1 => TypeSignature::Char, 2 => TypeSignature::Double, 3 => TypeSignature::Float, 4 => TypeSignature::Int, 5 => TypeSignature::Long, 6 => TypeSignature::Boolean, 7 => TypeSignature::Short, _ => TypeSignature::Ref(v_ref(d)) } }
fn v_param() -> TypeParameter { let class_bound = if flip() { Some(v_ref(0)) } else { None }; let mut interface_bounds = Vec::new(); for _ in 0..pick(3) { interface_bounds.push(v_ref(0)) } TypeParameter { name: ident(), class_bound, interface_bounds } }
fn v_throws() -> Throws { if flip() { Throws::TypeParameter(ident()) } else { Throws::Class(v_class(0)) } }
// reference printers
fn p_ref(t: &RefTypeSignature, o: &mut String) { match t { RefTypeSignature::TypeVariable(n) => { o.push('T'); o.push_str(n); o.push(';') } RefTypeSignature::ArrayRef(d, t) => { for _ in 0..*d { o.push('[') } p_type(t, o) } RefTypeSignature::ClassType(c) => p_class(c, o) } }
fn p_type(t: &TypeSignature, o: &mut String) { match t { TypeSignature::Byte => o.push('B'), TypeSignature::Char => o.push('C'), TypeSignature::Double => o.push('D'), TypeSignature::Float => o.push('F'), TypeSignature::Int => o.push('I'), TypeSignature::Long => o.push('J'), TypeSignature::Boolean => o.push('Z'), TypeSignature::Short => o.push('S'), TypeSignature::Ref(r) => p_ref(r, o) } }
fn p_simple(s: &SimpleClassTypeSignature, o: &mut String) {
    o.push_str(&s.name);
    if !s.type_arguments.is_empty() { o.push('<'); for a in &s.type_arguments { match a { TypeArgument::Any => o.push('*'), TypeArgument::Extends(t) => { o.push('+'); p_ref(t, o) } TypeArgument::Super(t) => { o.push('-'); p_ref(t, o) } TypeArgument::Exact(t) => p_ref(t, o) } } o.push('>') }
}
fn p_class(c: &ClassTypeSignature, o: &mut String) { o.push('L'); for p in &c.package { o.push_str(p); o.push('/') } p_simple(&c.name, o); for s in &c.suffix { o.push('.'); p_simple(s, o) } o.push(';') }
fn p_param(p: &TypeParameter, o: &mut String) { o.push_str(&p.name); o.push(':'); if let Some(b) = &p.class_bound { p_ref(b, o) } for b in &p.interface_bounds { o.push(':'); p_ref(b, o) } }
fn p_throws(t: &Throws, o: &mut String) { o.push('^'); match t { Throws::TypeParameter(n) => { o.push('T'); o.push_str(n); o.push(';') } Throws::Class(c) => p_class(c, o) } }
fn p_params(v: &[TypeParameter], o: &mut String) { if !v.is_empty() { o.push('<'); for p in v { p_param(p, o) } o.push('>') } }
fn value<T: FromStr + PartialEq + ToString>(v: &T, want: &str) {
    check(v.to_string() == want, "text of a signature");
    match T::from_str(want) { Ok(x) => check(x == *v, "the text of a signature parses back to it"), Err(_) => check(false, "the text of a signature parses") }
    observe_bytes(want.as_bytes());
}

harnesses! {
    // every ASCII text, against every kind of signature
    fn h_sig_text() {
        let k = pick(8);
        let n = pick(param(0) + 1);
        let b = bytes(n);
        for c in &b { assume(*c < 128) }
        match k {
            0 => text::<TypeSignature>(&b, |g| g.ty()), 1 => text::<RefTypeSignature>(&b, |g| g.reft()), 2 => text::<ClassTypeSignature>(&b, |g| g.class()), 3 => text::<SimpleClassTypeSignature>(&b, |g| g.simple()),
            4 => text::<Throws>(&b, |g| g.throws()), 5 => text::<TypeParameter>(&b, |g| g.param()), 6 => text::<MethodSignature>(&b, |g| g.method()), _ => text::<ClassSignature>(&b, |g| g.cls()),
        }
    }
    // longer texts built from grammar tokens in any order
    fn h_sig_tokens() {
        let toks: [&[u8]; 14] = [b"TX;", b"LA;", b"La/B", b";", b"<", b">", b"*", b"[", b":", b"(", b")", b"V", b"^", b"."];
        let k = pick(3);
        let n = pick(param(0) + 1);
        let mut b = Vec::new();
        match k { 0 => b.extend_from_slice(b"<X:"), 1 => b.extend_from_slice(b"("), _ => b.extend_from_slice(b"La/B<") }
        for _ in 0..n { b.extend_from_slice(toks[pick(14)]) }
        match k { 0 => text::<ClassSignature>(&b, |g| g.cls()), 1 => text::<MethodSignature>(&b, |g| g.method()), _ => text::<RefTypeSignature>(&b, |g| g.reft()) }
    }
    // every signature value within the shape bounds
    fn h_sig_value() {
        let mut o = String::new();
        match pick(6) {
            0 => { let v = v_ref(2); p_ref(&v, &mut o); value(&v, &o); match FieldSignature::from_str(&o) { Ok(f) => check(f.to_string() == o, "field signature"), Err(_) => check(false, "field signature parses") } }
            1 => { let v = v_type(1); p_type(&v, &mut o); value(&v, &o) }
            2 => { let v = v_param(); p_param(&v, &mut o); value(&v, &o) }
            3 => { let v = v_throws(); p_throws(&v, &mut o); value(&v, &o) }
            4 => {
                let (a, b, c) = (pick(2), pick(3), pick(3));
                let v = MethodSignature { type_parameters: (0..a).map(|_| TypeParameter { name: ident(), class_bound: Some(v_ref(0)), interface_bounds: vec![] }).collect(), parameters: (0..b).map(|_| v_type(0)).collect(), return_type: if flip() { Some(v_type(0)) } else { None }, throws: (0..c).map(|_| v_throws()).collect() };
                p_params(&v.type_parameters, &mut o); o.push('('); for p in &v.parameters { p_type(p, &mut o) } o.push(')'); match &v.return_type { Some(t) => p_type(t, &mut o), None => o.push('V') } for t in &v.throws { p_throws(t, &mut o) }
                value(&v, &o)
            }
            _ => {
                let (a, b) = (pick(3), pick(3));
                let v = ClassSignature { type_parameters: (0..a).map(|_| TypeParameter { name: id1(), class_bound: if flip() { Some(v_ref(0)) } else { None }, interface_bounds: if flip() { vec![v_ref(0)] } else { vec![] } }).collect(), super_class: v_class(1), interfaces: (0..b).map(|_| v_class(0)).collect() };
                // `<A:L:...` is ambiguous in the grammar itself: a parameter without any bound before one named L.. or T..
                for i in 1..a { let (p, q) = (&v.type_parameters[i - 1], &v.type_parameters[i]); if p.class_bound.is_none() && p.interface_bounds.is_empty() { let c = q.name.as_bytes()[0]; assume(c != b'L' && c != b'T') } }
                p_params(&v.type_parameters, &mut o); p_class(&v.super_class, &mut o); for i in &v.interfaces { p_class(i, &mut o) }
                value(&v, &o)
            }
        }
        cover("value");
    }
    // names of any Unicode text
    fn h_sig_unicode() {
        let mut s = String::new();
        for _ in 0..1 + pick(param(0)) { let c = u32(); assume(c < 0x110000 && !crate::spec::is_surr(c)); assume(c > 127 || !bad(c as u8)); s.push(char::from_u32(c).unwrap()) }
        let name: Cow<'static, str> = Cow::Owned(s.clone());
        let c = ClassTypeSignature { package: vec![name.clone()], name: SimpleClassTypeSignature { name: name.clone(), type_arguments: vec![TypeArgument::Exact(RefTypeSignature::TypeVariable(name.clone()))] }, suffix: vec![SimpleClassTypeSignature { name: name.clone(), type_arguments: vec![] }] };
        let mut o = String::new();
        p_class(&c, &mut o);
        value(&c, &o);
        let p = TypeParameter { name: name.clone(), class_bound: None, interface_bounds: vec![RefTypeSignature::TypeVariable(name)] };
        let mut o = String::new();
        p_param(&p, &mut o);
        value(&p, &o);
        cover("unicode");
    }
    // the limit of 255 dimensions
    fn h_sig_dims() {
        let d = 254 + pick(4);
        let mut v = vec![b'['; d];
        let tail = [b'I', b'V'][pick(2)];
        v.push(tail);
        let s = std::str::from_utf8(&v).unwrap();
        let r = RefTypeSignature::from_str(s);
        check(r.is_ok() == (d <= 255 && tail == b'I'), "up to 255 dimensions of a type that exists");
        if let Ok(t) = r { cover("dims"); check(t.to_string() == s, "all dimensions are kept") } else { cover("refused") }
    }
    // signatures in a constant pool, with identifiers of any code point
    fn h_sig_pool() {
        let c = crate::wtf::cp();
        assume(c > 127 || !bad(c as u8));
        let id = crate::spec::enc(&[c]);
        let (pre, post): (&[u8], &[u8]) = [(&b"La/"[..], &b"<*>.C;"[..]), (b"T", b";"), (b"[L", b";"), (b"^L", b";"), (b"", b":TX;:LA;"), (b"<", b":>LA;LB;"), (b"(T", b";I)V^TX;"), (b"", b"<TX;>")][pick(8)].clone();
        let k = match (pre, post) { (b"La/", _) => pick(3), (b"T", _) => 1 + pick(2), (b"[L", _) => 1, (b"^L", _) => 3, (b"<", _) => 5, (b"(T", _) => 6, (b"", b":TX;:LA;") => 4, _ => 7 };
        let mut b = pre.to_vec();
        b.extend_from_slice(&id);
        b.extend_from_slice(post);
        match k { 0 => pooled::<ClassTypeSignature>(&b, c), 1 => pooled::<RefTypeSignature>(&b, c), 2 => if flip() { pooled::<TypeSignature>(&b, c) } else { pooled::<FieldSignature>(&b, c) }, 3 => pooled::<Throws>(&b, c), 4 => pooled::<TypeParameter>(&b, c), 5 => pooled::<ClassSignature>(&b, c), 6 => pooled::<MethodSignature>(&b, c), _ => pooled::<SimpleClassTypeSignature>(&b, c) }
    }
}
/// A text in a constant pool is read as the signature it is read as outside, and written back unchanged; one that is no text is refused.
fn pooled<V: FromStr + PartialEq + ToString + coffer::ConstantPoolReadWrite>(b: &[u8], c: u32) {
    use crate::cf::*;
    let m = mu(unsafe { wtf_8::Wtf8Str::from_bytes_unchecked(b) });
    let mut p = Pool::new();
    p.add(&Ent::Long(7));
    let i = p.add(&Ent::Utf(m.clone()));
    let r = V::read_from(&mut reader(&p), &mut &be2(i)[..]);
    if crate::spec::is_surr(c) { cover("refused"); check(r.is_err(), "a signature that is no Unicode text is an error"); return }
    match (r, V::from_str(std::str::from_utf8(b).unwrap())) {
        (Ok(x), Ok(y)) => {
            cover("read");
            check(x == y && x.to_string().as_bytes() == b, "the signature in the pool");
            let mut w = writer();
            let mut o = Vec::new();
            if x.write_to(&mut w, &mut o).is_err() { check(false, "a signature is written"); return }
            let q = pool_of(&w);
            check(o.len() == 2 && q.utf(g2(&o, 0).unwrap()) == Some(m), "the written signature");
        }
        _ => check(false, "a well-formed signature is read"),
    }
}
