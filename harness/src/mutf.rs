//! Modified UTF-8 (JVMS 4.4.7) and length-prefixed strings.
use crate::harnesses;
use crate::rt::*;
use crate::spec;
use crate::wtf::{cps, long, mk};
use coffer::cp::{ConstEntryRef, RawConstantEntry, StrRef};
use coffer::mod_utf8::{modified_utf8_to_string, string_to_modified_utf8};
use coffer::ReadWrite;
use std::borrow::Cow;
use wtf_8::{Wtf8Str, Wtf8String};

/// What a reader that also tolerates plain UTF-8 (raw NUL, four-byte forms) may return.
fn tolerant(b: &[u8]) -> Option<Vec<u16>> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0 { o.push(0); i += 1; continue; }
        if b[i] >= 0xF0 {
            if b[i] > 0xF4 || i + 3 >= b.len() { return None; }
            for k in 1..4 { if b[i + k] & 0xC0 != 0x80 { return None; } }
            let c = (b[i] as u32 & 7) << 18 | (b[i + 1] as u32 & 0x3F) << 12 | (b[i + 2] as u32 & 0x3F) << 6 | (b[i + 3] as u32 & 0x3F);
            if c < 0x10000 || c > 0x10FFFF { return None; }
            o.extend(spec::utf16(&[c]));
            i += 4;
            continue;
        }
        let n = if b[i] < 0x80 { 1 } else if b[i] & 0xE0 == 0xC0 { 2 } else { 3 };
        if i + n > b.len() { return None; }
        o.extend(spec::mutf8_decode(&b[i..i + n], true)?);
        i += n;
    }
    Some(o)
}

/// Decoding accepts exactly the strings the format describes, with the value the format gives them.
fn decode(v: &[u8]) {
    let strict = spec::mutf8_decode(v, true);
    match modified_utf8_to_string(v) {
        Ok(s) => {
            check(spec::wtf8_decode(s.as_bytes()).is_some(), "decoding yields a well-formed string");
            let want = match strict { Some(u) => { cover("strict"); Some(u) } None => { cover("tolerated"); tolerant(v) } };
            match want {
                None => check(false, "malformed bytes are rejected"),
                Some(u) => check(s.as_bytes() == &spec::enc(&spec::from_utf16(&u))[..], "decoded text is what the format defines"),
            }
            observe_bytes(s.as_bytes());
        }
        Err(_) => { cover("rejected"); check(strict.is_none(), "well-formed modified UTF-8 is accepted") }
    }
}
/// Encoding is the canonical one and decodes back.
fn encode(c: &[u32]) {
    let s = mk(c);
    let e = string_to_modified_utf8(&s);
    let want = spec::mutf8_encode(&spec::utf16(c));
    check(e == want, "encoding is the canonical modified UTF-8");
    check(!e.contains(&0), "no zero byte in an encoding");
    match modified_utf8_to_string(&e) { Ok(t) => check(t == s, "decoding an encoding returns the string"), Err(_) => check(false, "an encoding decodes") }
    observe_bytes(&e);
    cover("encode");
}

harnesses! {
    // decoding: exactly the strings the format describes, with the value the format gives them
    fn h_mutf_decode() { let n = pick(param(0) + 1); decode(&bytes(n)) }
    // long strings: concrete text around symbolic bytes or code points
    fn h_mutf_dlong() {
        let (p, q) = (long(pick(6)), long(pick(6)));
        let n = pick(param(0) + 1);
        let mut v = spec::mutf8_encode(&spec::utf16(&p));
        v.extend(bytes(n));
        v.extend(spec::mutf8_encode(&spec::utf16(&q)));
        decode(&v)
    }
    fn h_mutf_elong() {
        let (p, q) = (long(pick(6)), long(pick(6)));
        let k = pick(param(0) + 1);
        let mut c = p;
        c.extend(cps(k));
        c.extend(q);
        encode(&c)
    }
    // encoding is the canonical one and decodes back
    fn h_mutf_encode() { let k = pick(param(0) + 1); encode(&cps(k)) }
    // every sequence of UTF-16 units (surrogates in any order) survives decode and encode
    fn h_mutf_units() {
        let k = pick(param(0) + 1);
        let mut u = Vec::new();
        for _ in 0..k { u.push(u16()) }
        let b = spec::mutf8_encode(&u);
        match modified_utf8_to_string(&b) {
            Ok(s) => {
                let w: Vec<u16> = s.encode_wide().collect();
                check(w == u, "decoded UTF-16 units");
                check(string_to_modified_utf8(&s) == b, "re-encoding gives the original bytes");
            }
            Err(_) => check(false, "the encoding of any UTF-16 sequence is accepted"),
        }
        cover("units");
    }
    // length-prefixed strings
    fn h_mutf_prefixed() {
        let k = pick(param(0) + 1);
        let c = cps(k);
        let s = mk(&c);
        let body = spec::mutf8_encode(&spec::utf16(&c));
        let mut want = vec![0u8, body.len() as u8];
        want.extend_from_slice(&body);
        let mut out = vec![7u8];
        check(s.write_to(&mut out).is_ok(), "writing a short string succeeds");
        check(out[0] == 7 && out[1..] == want[..], "length prefix and bytes");
        let mut out = Vec::new();
        check(RawConstantEntry::WTF8(Cow::Owned(s.clone())).write_to(&mut out).is_ok() && out[0] == 1 && out[1..] == want[..], "string constant");
        let mut out = Vec::new();
        check(ConstEntryRef::UTF8(StrRef(&s)).write_to(&mut out).is_ok() && out[0] == 1 && out[1..] == want[..], "borrowed string constant");
        let mut out = Vec::new();
        let cow: Cow<'static, Wtf8Str> = Cow::Owned(s.clone());
        check(ReadWrite::write_to(&cow, &mut out).is_ok() && out == want, "copy-on-write string");
        want.push(0x55);
        let mut r = &want[..];
        match <Wtf8String as ReadWrite>::read_from(&mut r) { Ok(t) => check(t == s && r.len() == 1, "reading consumes exactly the string"), Err(_) => check(false, "reading back succeeds") }
        let cut = pick(want.len() - 1);
        let mut r = &want[..cut];
        check(<Wtf8String as ReadWrite>::read_from(&mut r).is_err(), "a truncated string is an error");
        cover("prefixed");
    }
    // the 65535 byte limit, with a symbolic character deciding on which side the encoding falls
    fn h_mutf_limit() {
        let c = { let c = u32(); assume(c <= 0x10FFFF); c };
        let n = 65529 + pick(8);
        let mut s = Wtf8String::from_string("a".repeat(n));
        let d = mk(&[c]);
        s.push_wtf8(&d);
        let len = n + spec::mutf8_encode(&spec::utf16(&[c])).len();
        let mut out = Vec::new();
        let r = s.write_to(&mut out);
        if len > 65535 { cover("too long"); check(r.is_err(), "a string that does not fit its length field is refused") }
        else {
            cover("fits");
            check(r.is_ok() && out.len() == len + 2 && out[0] as usize * 256 + out[1] as usize == len, "a string that fits is written completely");
            let mut p = &out[..];
            match <Wtf8String as ReadWrite>::read_from(&mut p) { Ok(t) => check(t == s, "long string round trip"), Err(_) => check(false, "long string reads back") }
        }
    }
}
