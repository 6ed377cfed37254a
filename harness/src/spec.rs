//! Reference definitions written from the specifications (WTF-8, UTF-16, JVMS modified UTF-8), not from the code under test.
#![allow(dead_code)]
pub fn is_lead(c: u32) -> bool { c >= 0xD800 && c <= 0xDBFF }
pub fn is_trail(c: u32) -> bool { c >= 0xDC00 && c <= 0xDFFF }
pub fn is_surr(c: u32) -> bool { c >= 0xD800 && c <= 0xDFFF }
fn cont(b: u8) -> bool { b & 0xC0 == 0x80 }
/// One generalised-UTF-8 sequence at `i`: (code point, length).
fn gen1(b: &[u8], i: usize) -> Option<(u32, usize)> {
    let x = b[i];
    if x < 0x80 { return Some((x as u32, 1)); }
    let n = if x >= 0xC2 && x <= 0xDF { 2 } else if x >= 0xE0 && x <= 0xEF { 3 } else if x >= 0xF0 && x <= 0xF4 { 4 } else { return None };
    if i + n > b.len() { return None; }
    let mut c = (x as u32) & (0x7F >> n);
    for k in 1..n { if !cont(b[i + k]) { return None; } c = (c << 6) | (b[i + k] as u32 & 0x3F); }
    let min = if n == 2 { 0x80 } else if n == 3 { 0x800 } else { 0x10000 };
    if c < min || c > 0x10FFFF { return None; }
    Some((c, n))
}
/// Well-formed WTF-8: generalised UTF-8 without a lead surrogate directly followed by a trail surrogate.
pub fn wtf8_decode(b: &[u8]) -> Option<Vec<u32>> {
    let mut out = Vec::new();
    let mut i = 0;
    let mut prev_lead = false;
    while i < b.len() {
        let (c, n) = gen1(b, i)?;
        if prev_lead && is_trail(c) { return None; }
        prev_lead = is_lead(c);
        out.push(c);
        i += n;
    }
    Some(out)
}
pub fn enc1(c: u32, out: &mut Vec<u8>) {
    if c < 0x80 { out.push(c as u8) }
    else if c < 0x800 { out.push(0xC0 | (c >> 6) as u8); out.push(0x80 | (c & 0x3F) as u8) }
    else if c < 0x10000 { out.push(0xE0 | (c >> 12) as u8); out.push(0x80 | (c >> 6 & 0x3F) as u8); out.push(0x80 | (c & 0x3F) as u8) }
    else { out.push(0xF0 | (c >> 18) as u8); out.push(0x80 | (c >> 12 & 0x3F) as u8); out.push(0x80 | (c >> 6 & 0x3F) as u8); out.push(0x80 | (c & 0x3F) as u8) }
}
pub fn enc(cs: &[u32]) -> Vec<u8> { let mut o = Vec::new(); for c in cs { enc1(*c, &mut o) } o }
/// UTF-16 code units of a code point sequence.
pub fn utf16(cs: &[u32]) -> Vec<u16> {
    let mut o = Vec::new();
    for &c in cs { if c < 0x10000 { o.push(c as u16) } else { let d = c - 0x10000; o.push(0xD800 + (d >> 10) as u16); o.push(0xDC00 + (d & 0x3FF) as u16) } }
    o
}
/// Code points of potentially ill-formed UTF-16 (pairs joined, lone surrogates kept).
pub fn from_utf16(u: &[u16]) -> Vec<u32> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < u.len() {
        let a = u[i] as u32;
        if is_lead(a) && i + 1 < u.len() && is_trail(u[i + 1] as u32) { o.push(0x10000 + ((a - 0xD800) << 10) + (u[i + 1] as u32 - 0xDC00)); i += 2 }
        else { o.push(a); i += 1 }
    }
    o
}
pub fn mutf8_unit(u: u16, o: &mut Vec<u8>) {
    let c = u as u32;
    if c != 0 && c < 0x80 { o.push(c as u8) }
    else if c < 0x800 { o.push(0xC0 | (c >> 6) as u8); o.push(0x80 | (c & 0x3F) as u8) }
    else { o.push(0xE0 | (c >> 12) as u8); o.push(0x80 | (c >> 6 & 0x3F) as u8); o.push(0x80 | (c & 0x3F) as u8) }
}
/// JVMS 4.4.7 encoding of a UTF-16 string.
pub fn mutf8_encode(u: &[u16]) -> Vec<u8> { let mut o = Vec::new(); for x in u { mutf8_unit(*x, &mut o) } o }
/// JVMS 4.4.7 decoding; None if the bytes are not a concatenation of the three permitted forms.
/// Over-long two/three byte forms are reported as None as well when `strict`.
pub fn mutf8_decode(b: &[u8], strict: bool) -> Option<Vec<u16>> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        if x == 0 { return None; }
        if x < 0x80 { o.push(x as u16); i += 1; continue; }
        if x & 0xE0 == 0xC0 {
            if i + 1 >= b.len() || !cont(b[i + 1]) { return None; }
            let c = ((x as u16 & 0x1F) << 6) | (b[i + 1] as u16 & 0x3F);
            if strict && c != 0 && c < 0x80 { return None; }
            o.push(c); i += 2; continue;
        }
        if x & 0xF0 == 0xE0 {
            if i + 2 >= b.len() || !cont(b[i + 1]) || !cont(b[i + 2]) { return None; }
            let c = ((x as u16 & 0xF) << 12) | ((b[i + 1] as u16 & 0x3F) << 6) | (b[i + 2] as u16 & 0x3F);
            if strict && c < 0x800 { return None; }
            o.push(c); i += 3; continue;
        }
        return None;
    }
    Some(o)
}
