//! Numbers, versions, flags and value types.
use crate::harnesses;
use crate::rt::*;
use coffer::code::*;
use coffer::flags::*;
use coffer::total_floats::{TotalF32, TotalF64};
use coffer::version::*;
use coffer::prelude::{MethodHandleKind, Constant, Type};
use coffer::ReadWrite;
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec { fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } fn finish(&self) -> u64 { 0 } }
fn hash_of<T: Hash>(t: &T) -> Vec<u8> { let mut r = Rec::default(); t.hash(&mut r); r.0 }

/// Reading consumes exactly the width and refuses fewer bytes; writing emits exactly the same bytes.
fn num<T: ReadWrite>(b: &[u8], same: impl Fn(&T) -> bool) {
    let mut long = b.to_vec();
    long.push(0xEE);
    let mut r = &long[..];
    match T::read_from(&mut r) {
        Ok(v) => {
            check(r.len() == 1, "reading consumes exactly the width");
            check(same(&v), "big-endian value");
            let mut o = Vec::new();
            check(v.write_to(&mut o).is_ok() && o == b, "writing emits the same bytes");
        }
        Err(_) => check(false, "enough bytes are readable"),
    }
    let mut r = &b[..b.len() - 1];
    check(T::read_from(&mut r).is_err(), "missing bytes are an error");
}
fn be(b: &[u8]) -> u128 { let mut x = 0u128; for c in b { x = x << 8 | *c as u128 } x }
macro_rules! flag { ($t:ident, $mask:expr) => {{
    let b = bytes(2);
    let v = be(&b) as u16;
    let mut r = &b[..];
    match $t::read_from(&mut r) { Ok(f) => {
        check(f.bits() == v & $mask, "exactly the defined flags are kept");
        let mut o = Vec::new();
        check(f.write_to(&mut o).is_ok() && o.len() == 2 && be(&o) as u16 == v & $mask, "flags are written back");
    } Err(_) => check(false, "flags are readable") }
}} }

harnesses! {
    fn h_prim_num() {
        let k = pick(14);
        cover("num");
        match k {
            0 => { let b = bytes(1); num::<u8>(&b, |v| *v as u128 == be(&b)) }
            1 => { let b = bytes(1); num::<i8>(&b, |v| *v as u8 as u128 == be(&b)) }
            2 => { let b = bytes(2); num::<u16>(&b, |v| *v as u128 == be(&b)) }
            3 => { let b = bytes(2); num::<i16>(&b, |v| *v as u16 as u128 == be(&b)) }
            4 => { let b = bytes(4); num::<u32>(&b, |v| *v as u128 == be(&b)) }
            5 => { let b = bytes(4); num::<i32>(&b, |v| *v as u32 as u128 == be(&b)) }
            6 => { let b = bytes(8); num::<u64>(&b, |v| *v as u128 == be(&b)) }
            7 => { let b = bytes(8); num::<i64>(&b, |v| *v as u64 as u128 == be(&b)) }
            8 => { let b = bytes(16); num::<u128>(&b, |v| *v == be(&b)) }
            9 => { let b = bytes(16); num::<i128>(&b, |v| *v as u128 == be(&b)) }
            10 => { let b = bytes(4); num::<f32>(&b, |v| v.to_bits() as u128 == be(&b)) }
            11 => { let b = bytes(8); num::<f64>(&b, |v| v.to_bits() as u128 == be(&b)) }
            12 => { let b = bytes(4); num::<TotalF32>(&b, |v| v.0.to_bits() as u128 == be(&b)) }
            _ => { let b = bytes(8); num::<TotalF64>(&b, |v| v.0.to_bits() as u128 == be(&b)) }
        }
    }
    fn h_prim_flags() {
        cover("flags");
        match pick(8) {
            0 => flag!(ClassFlags, 0xF631),
            1 => flag!(FieldFlags, 0x50DF),
            2 => flag!(MethodFlags, 0x1DFF),
            3 => flag!(InnerClassFlags, 0x761F),
            4 => flag!(MethodParameterFlags, 0x9010),
            5 => flag!(ModuleFlags, 0x9020),
            6 => flag!(RequireFlags, 0x9060),
            _ => flag!(ExOpFlags, 0x9000),
        }
    }
    fn h_prim_version() {
        let b = bytes(4);
        let (minor, major) = (be(&b[..2]) as u16, be(&b[2..]) as u16);
        let mut r = &b[..];
        match JavaVersion::read_from(&mut r) {
            Ok(v) => {
                cover("known");
                check(major >= 45 && major <= 59, "only known major versions");
                check(v.minor == minor && v.major as u16 == major, "version numbers");
                let mut o = Vec::new();
                check(v.write_to(&mut o).is_ok() && o == b, "version is written back");
            }
            Err(_) => { cover("unknown"); check(major < 45 || major > 59, "known versions are readable") }
        }
    }
    fn h_prim_kind() {
        let k = u8();
        let mut r = &[k][..];
        match (MethodHandleKind::try_from(k), MethodHandleKind::read_from(&mut r)) {
            (Ok(a), Ok(b)) => { cover("kind"); check(k >= 1 && k <= 9, "nine kinds"); check(a as u8 == k && a == b, "kind number"); let mut o = Vec::new(); check(a.write_to(&mut o).is_ok() && o == [k], "kind is written back") }
            (Err(v), Err(_)) => { cover("no kind"); check(v == k && (k == 0 || k > 9), "all kinds are known") }
            _ => check(false, "both ways to read a kind agree"),
        }
    }
    // total equality of floating point values: equality, order and hash follow the bits
    fn h_prim_total32() {
        let (a, b, c) = (u32(), u32(), u32());
        let (x, y, z) = (TotalF32(f32::from_bits(a)), TotalF32(f32::from_bits(b)), TotalF32(f32::from_bits(c)));
        check((x == y) == (a == b), "equal exactly when the bits are equal");
        check((x == f32::from_bits(b)) == (a == b) && (f32::from_bits(a) == y) == (a == b), "comparison with a plain float");
        check((x.cmp(&y) == Ordering::Equal) == (a == b) && x.partial_cmp(&y) == Some(x.cmp(&y)), "order agrees with equality");
        check(x.cmp(&y) == y.cmp(&x).reverse(), "order is antisymmetric");
        check(!(x.cmp(&y) == Ordering::Less && y.cmp(&z) == Ordering::Less) || x.cmp(&z) == Ordering::Less, "order is transitive");
        check((hash_of(&x) == hash_of(&y)) == (a == b), "hash follows the bits");
        check(f32::from(x).to_bits() == a && TotalF32::from(f32::from_bits(a)) == x, "conversions keep the bits");
        check((Constant::F32(x) == Constant::F32(y)) == (a == b), "float constants");
        // numbers (no NaN) in their numeric order, as sign and magnitude
        let key = |b: u32| { let m = (b & 0x7FFF_FFFF) as i64; if b >> 31 == 1 { -m } else { m } };
        let nan = |b: u32| b & 0x7FFF_FFFF > 0x7F80_0000;
        check(nan(a) || nan(b) || key(a) >= key(b) || x.cmp(&y) == Ordering::Less, "numbers are in their numeric order");
        cover("total");
    }
    fn h_prim_total64() {
        let (a, b, c) = (u64(), u64(), u64());
        let (x, y, z) = (TotalF64(f64::from_bits(a)), TotalF64(f64::from_bits(b)), TotalF64(f64::from_bits(c)));
        check((x == y) == (a == b), "equal exactly when the bits are equal");
        check((x == f64::from_bits(b)) == (a == b) && (f64::from_bits(a) == y) == (a == b), "comparison with a plain float");
        check((x.cmp(&y) == Ordering::Equal) == (a == b) && x.partial_cmp(&y) == Some(x.cmp(&y)), "order agrees with equality");
        check(x.cmp(&y) == y.cmp(&x).reverse(), "order is antisymmetric");
        check(!(x.cmp(&y) == Ordering::Less && y.cmp(&z) == Ordering::Less) || x.cmp(&z) == Ordering::Less, "order is transitive");
        check((hash_of(&x) == hash_of(&y)) == (a == b), "hash follows the bits");
        check(f64::from(x).to_bits() == a && TotalF64::from(f64::from_bits(a)) == x, "conversions keep the bits");
        check((Constant::F64(x) == Constant::F64(y)) == (a == b), "double constants");
        let key = |b: u64| { let m = (b & (u64::MAX >> 1)) as i64; if b >> 63 == 1 { -m } else { m } };
        let nan = |b: u64| b & (u64::MAX >> 1) > 0x7FF0_0000_0000_0000;
        check(nan(a) || nan(b) || key(a) >= key(b) || x.cmp(&y) == Ordering::Less, "numbers are in their numeric order");
        cover("total");
    }
    // negating a jump condition gives the condition that holds exactly when the original does not
    fn h_prim_negate() {
        use JumpCondition::*;
        let all = [ReferenceEquals, ReferenceNotEquals, IntegerEquals, IntegerNotEquals, IntegerLessThan, IntegerGreaterThan, IntegerLessThanOrEquals, IntegerGreaterThanOrEquals,
            IntegerEqualsZero, IntegerNotEqualsZero, IntegerLessThanZero, IntegerGreaterThanZero, IntegerLessThanOrEqualsZero, IntegerGreaterThanOrEqualsZero, IsNull, IsNonNull];
        fn holds(c: JumpCondition, a: i32, b: i32) -> bool {
            match c {
                ReferenceEquals | IntegerEquals => a == b, ReferenceNotEquals | IntegerNotEquals => a != b, IntegerLessThan => a < b, IntegerGreaterThan => a > b,
                IntegerLessThanOrEquals => a <= b, IntegerGreaterThanOrEquals => a >= b, IntegerEqualsZero | IsNull => a == 0, IntegerNotEqualsZero | IsNonNull => a != 0,
                IntegerLessThanZero => a < 0, IntegerGreaterThanZero => a > 0, IntegerLessThanOrEqualsZero => a <= 0, IntegerGreaterThanOrEqualsZero => a >= 0, Always => true,
            }
        }
        // which operands a condition looks at
        fn kind(c: JumpCondition) -> u8 { match c { ReferenceEquals | ReferenceNotEquals => 0, IntegerEquals | IntegerNotEquals | IntegerLessThan | IntegerGreaterThan | IntegerLessThanOrEquals | IntegerGreaterThanOrEquals => 1, IsNull | IsNonNull => 2, Always => 3, _ => 4 } }
        let c = all[pick(16)];
        let (a, b) = (i32(), i32());
        match -c {
            Some(n) => { check(kind(n) == kind(c), "negation looks at the same operands"); check(holds(n, a, b) != holds(c, a, b), "negation holds exactly when the condition does not"); check(-n == Some(c), "negating twice is the identity"); check(-&c == Some(n), "negation by reference") }
            None => check(false, "every condition but the unconditional one can be negated"),
        }
        check((-Always).is_none(), "an unconditional jump has no negation");
        cover("negate");
    }
    // array types and width predicates
    fn h_prim_type() {
        let (d, e) = (u8(), u8());
        assume(d >= 1 && e >= 1 && (d as u32 + e as u32) < 256);
        let t = Type::array(d, Type::array(e, Type::Int));
        match t { Type::ArrayRef(n, x) => check(n as u32 == d as u32 + e as u32 && *x == Type::Int, "arrays of arrays add their dimensions"), _ => check(false, "an array type") }
        check(Type::Long.is_wide() && Type::Double.is_wide() && !Type::Int.is_wide() && !Type::array(1, Type::Long).is_wide(), "wide types");
        check(Constant::I64(i64()).is_wide() && Constant::F64(TotalF64(1.0)).is_wide() && !Constant::I32(i32()).is_wide() && !Constant::F32(TotalF32(1.0)).is_wide(), "wide constants");
        let name = u8();
        assume(name < 128);
        let text = crate::wtf::mk(&[name as u32]);
        let r = Type::reference(text.clone());
        check(r == Type::Ref(std::borrow::Cow::Owned(text)), "a class type has the name it is given");
        match Type::array(d, r.clone()) { Type::ArrayRef(n, x) => check(n == d && *x == r, "an array has the dimensions it is given"), _ => check(false, "an array type") }
        let ret = if flip() { Some(r.clone()) } else { None };
        let m = Type::method(vec![Type::Long, r.clone()], ret.clone());
        check(m.is_method() && !m.is_wide() && !r.is_method() && r.as_method().is_none() && !Type::array(d, r.clone()).is_method(), "method types");
        match m.as_method() { Some((p, q)) => check(p.len() == 2 && p[0] == Type::Long && p[1] == r && q.as_deref() == ret.as_ref(), "parts of a method type"), None => check(false, "a method type has parts") }
        let prim = [Type::Byte, Type::Char, Type::Double, Type::Float, Type::Int, Type::Long, Type::Boolean, Type::Short];
        let k = pick(8);
        check(prim[k].is_wide() == (k == 2 || k == 5) && !prim[k].is_method() && prim[k].as_method().is_none(), "primitive types");
        let ver = [VerificationType::Top, VerificationType::Int, VerificationType::Float, VerificationType::Double, VerificationType::Long, VerificationType::Null, VerificationType::UninitializedThis, VerificationType::UninitializedVariable(Label(u32()))];
        let k = pick(8);
        check(ver[k].is_wide() == (k == 3 || k == 4), "wide verification types");
        check(StackValueType::from(FloatType::Double) == StackValueType::Two && StackValueType::from(FloatType::Float) == StackValueType::One && LocalType::from(FloatType::Double) == LocalType::Double && LocalType::from(FloatType::Float) == LocalType::Float, "floating-point types on the stack and in variables");
        use coffer::cp::RawConstantEntry as E;
        let ent = [E::Int(1), E::Float(TotalF32(1.0)), E::Long(i64()), E::Double(TotalF64(1.0)), E::Class(u16()), E::String(u16()), E::Field(1, 2), E::MethodHandle(1, 2), E::Dynamic(1, 2)];
        let k = pick(9);
        check(ent[k].is_wide() == (k == 2 || k == 3) && ent[k].size() == if k == 2 || k == 3 { 2 } else { 1 }, "slots of constants");
        check(Constant::from(7) == Constant::I32(7) && Constant::string(crate::wtf::mk(&[name as u32])) == Constant::String(std::borrow::Cow::Owned(crate::wtf::mk(&[name as u32]))), "constants from values");
        cover("type");
    }
}
