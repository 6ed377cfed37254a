//! WTF-8 string harnesses.
use crate::harnesses;
use crate::rt::*;
use crate::spec;
use std::hash::{Hash, Hasher};
use wtf_8::{Codepoint, Wtf8Str, Wtf8String};

/// A symbolic code point (any value 0..=10FFFF).
pub fn cp() -> u32 { let c = u32(); assume(c <= 0x10FFFF); c }
/// A well-formed WTF-8 string of exactly `k` symbolic code points, together with the code points.
pub fn cps(k: usize) -> Vec<u32> {
    let mut v: Vec<u32> = Vec::new();
    for _ in 0..k { let c = cp(); if let Some(&p) = v.last() { assume(!(spec::is_lead(p) && spec::is_trail(c))) } v.push(c) }
    v
}
pub fn mk(c: &[u32]) -> Wtf8String { unsafe { Wtf8String::from_bytes_unchecked(spec::enc(c)) } }
fn point(c: u32) -> Codepoint { match Codepoint::from_u32(c) { Some(x) => x, None => { check(false, "from_u32 accepts every code point"); unreachable!() } } }

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec { fn write(&mut self, b: &[u8]) { self.0.push(0xAA); self.0.extend_from_slice(b) } fn finish(&self) -> u64 { 0 } }
fn hash_of<T: Hash + ?Sized>(t: &T) -> Vec<u8> { let mut r = Rec::default(); t.hash(&mut r); r.0 }

/// Code point iteration, UTF-16 view, lossy and strict conversion to UTF-8 of the string of `c`.
fn views(c: &[u32]) {
    let s = mk(c);
    let b = spec::enc(c);
    check(s.as_bytes() == &b[..], "bytes");
    check(s.len() == b.len(), "len");
    let mut it = s.codepoints();
    let mut rest = b.len();
    for (i, x) in c.iter().enumerate() { let (lo, hi) = it.size_hint(); check(lo >= 1 && lo <= c.len() - i && hi.map_or(true, |h| h >= c.len() - i), "size hint of a non-empty rest"); match it.next() { Some(y) => { check(y.to_u32() == *x, "code point value"); rest -= spec::enc(&[*x]).len(); check(it.as_str().len() == rest, "remaining string after a code point") } None => check(false, "code point iteration stops early") } }
    check(it.size_hint().0 == 0, "size hint at the end");
    check(it.next().is_none(), "code point iteration ends");
    let mut it = s.encode_wide();
    let units = spec::utf16(c);
    for i in 0..=units.len() { let (lo, hi) = it.size_hint(); check(lo <= units.len() - i && hi.map_or(true, |h| h >= units.len() - i), "size hint of UTF-16 units"); check(it.next() == units.get(i).copied(), "UTF-16 units one by one") }
    check(it.next().is_none(), "UTF-16 iteration stays at its end");
    let w: Vec<u16> = s.encode_wide().collect();
    check(w == units, "UTF-16 code units");
    check(Wtf8String::from_wide(&w) == s, "UTF-16 round trip");
    let mut any = false;
    let mut lossy = Vec::new();
    for x in c { if spec::is_surr(*x) { any = true; spec::enc1(0xFFFD, &mut lossy) } else { spec::enc1(*x, &mut lossy) } }
    if any { cover("surrogate") } else { cover("no surrogate") }
    check(s.as_str().is_some() == !any, "as_str succeeds exactly without surrogates");
    if let Some(t) = s.as_str() { check(t.as_bytes() == &b[..], "as_str content") }
    check(s.to_string_lossy().as_bytes() == &lossy[..], "lossy conversion");
    check(s.clone().into_string_lossy().as_bytes() == &lossy[..], "owned lossy conversion");
    match s.clone().into_string() { Ok(t) => { check(!any, "into_string refuses surrogates"); check(t.as_bytes() == &b[..], "into_string content") } Err(t) => { check(any, "into_string accepts UTF-8"); check(t == s, "into_string returns the original") } }
    let disp = s.as_wstr().to_string();
    check(disp.as_bytes() == &lossy[..], "Display shows the lossy text");
    let again: Wtf8String = s.codepoints().collect();
    check(again == s, "rebuilding from code points");
    check(s.is_ascii() == c.iter().all(|x| *x < 128), "is_ascii");
    observe_bytes(&lossy);
}
/// Validation decides well-formedness exactly, and its error position is usable.
fn validate(v: Vec<u8>) {
    let n = v.len();
    let spec = spec::wtf8_decode(&v);
    match wtf_8::validate_wtf8(&v) {
        Ok(()) => { cover("accepted"); check(spec.is_some(), "accepted bytes are well-formed WTF-8") }
        Err(e) => {
            cover("rejected");
            check(spec.is_none(), "well-formed WTF-8 is accepted");
            let p = e.valid_up_to();
            check(p < n, "error position lies inside the input");
            check(p >= n || spec::wtf8_decode(&v[..p]).is_some(), "bytes before the error position are well-formed");
            // a pair of surrogates is ill-formed as a whole: the error stands before its first half
            let mut q = n; while spec::wtf8_decode(&v[..q]).is_none() { q -= 1 }
            let pair = q >= 3 && q < n && v[q - 3] == 0xED && v[q - 2] >= 0xA0 && v[q - 2] <= 0xAF && v[q] == 0xED && q + 1 < n && v[q + 1] >= 0xB0 && v[q + 1] <= 0xBF && q + 2 < n && v[q + 2] & 0xC0 == 0x80;
            check(p == if pair { q - 3 } else { q }, "the error position is the end of the longest valid prefix");
            if let Some(l) = e.error_len() { check(p + l.get() as usize > n || spec::wtf8_decode(&v[p..p + l.get() as usize]).is_none(), "the reported stretch is ill-formed") }
            match e.error_len() { None => check(n - p <= 3, "incomplete sequence is at the end of the input"), Some(l) => check(p + l.get() as usize <= n, "error length stays inside the input") }
            observe(p as u64);
        }
    }
    check(Wtf8Str::from_bytes(&v).is_ok() == spec.is_some(), "from_bytes agrees");
    check(Wtf8String::from_bytes(v.clone()).is_ok() == spec.is_some(), "owned from_bytes agrees");
    let mut w = v.clone();
    check(Wtf8Str::from_bytes_mut(&mut w).is_ok() == spec.is_some(), "mutable from_bytes agrees");
    if let Ok(s) = Wtf8Str::from_bytes(&v) { check(s.as_bytes() == &v[..], "the string has the given bytes") }
}
/// Concatenation is concatenation of the UTF-16 units.
fn concat(a: &[u32], b: &[u32]) {
    let (i, j) = (a.len(), b.len());
    let mut s = mk(a);
    s.push_wtf8(&mk(b));
    let mut u = spec::utf16(a);
    let joined = !u.is_empty() && i > 0 && j > 0 && spec::is_lead(a[i - 1]) && spec::is_trail(b[0]);
    u.extend(spec::utf16(b));
    check(s.as_bytes() == &spec::enc(&spec::from_utf16(&u))[..], "concatenation behaves like UTF-16 concatenation");
    if joined { cover("pair joined") } else { cover("no pair") }
    let mut t = mk(a);
    t.extend(mk(b).codepoints());
    check(t == s, "extend agrees with concatenation");
    if let Some(x) = mk(b).as_str() {
        let mut t = mk(a);
        t.push_str(x);
        check(t == s, "appending UTF-8 agrees with concatenation");
        let mut t = mk(a);
        for c in x.chars() { t.push_char(c) }
        check(t == s, "appending chars agrees with concatenation");
    }
    let mut t = s.clone(); t.clear();
    check(t.is_empty() && t.len() == 0 && s.is_empty() == (i + j == 0), "clear and is_empty");
    check(s.clone().into_bytes() == s.as_bytes(), "into_bytes");
    observe_bytes(s.as_bytes());
}
/// Concrete text without surrogates: lengths around the sizes of machine words and vector registers, plain ASCII or mixed.
pub fn long(i: usize) -> Vec<u32> {
    let mixed = [0x61, 0xE9, 0x20AC, 0x62, 0x1F600, 0x7F, 0xFFFF, 0x800, 0x10FFFF, 0x7FF, 0x63];
    let (n, ascii) = [(0, true), (7, true), (8, true), (17, true), (40, true), (23, false)][i];
    (0..n).map(|k| if ascii { 97 + k as u32 % 26 } else { mixed[k % mixed.len()] }).collect()
}

harnesses! {
    // validation decides well-formedness exactly, and its error position is usable
    fn h_wtf_validate() { let n = pick(param(0) + 1); validate(bytes(n)) }
    // code point iteration, UTF-16 view, lossy/strict conversion to UTF-8
    fn h_wtf_views() { let k = pick(param(0) + 1); views(&cps(k)) }
    // code point classification
    fn h_wtf_codepoint() {
        let c = u32();
        match Codepoint::from_u32(c) {
            None => { cover("out of range"); check(c > 0x10FFFF, "code points up to 10FFFF exist") }
            Some(p) => {
                check(c <= 0x10FFFF, "no code point above 10FFFF");
                check(p.to_u32() == c, "value kept");
                match p.to_char() { Some(ch) => { cover("scalar"); check(!spec::is_surr(c) && ch as u32 == c, "to_char"); check(p == ch, "compares equal to the char"); check(Codepoint::from_char(ch) == p, "from_char") } None => { cover("surrogate"); check(spec::is_surr(c), "only surrogates have no char") } }
                check(p.to_char_lossy() as u32 == if spec::is_surr(c) { 0xFFFD } else { c }, "to_char_lossy");
            }
        }
    }
    // UTF-16 in, UTF-16 out, for every sequence of code units
    fn h_wtf_wide() {
        let k = pick(param(0) + 1);
        let mut u = Vec::new();
        for _ in 0..k { u.push(u16()) }
        let s = Wtf8String::from_wide(&u);
        let c = spec::from_utf16(&u);
        check(s.as_bytes() == &spec::enc(&c)[..], "from_wide builds the well-formed string");
        let w: Vec<u16> = s.encode_wide().collect();
        check(w == u, "encode_wide returns the original units");
        observe_bytes(s.as_bytes());
        cover("wide");
    }
    // pushing code points one by one joins surrogate pairs and keeps the string well-formed
    fn h_wtf_push() {
        let k = pick(param(0) + 1);
        let mut s = Wtf8String::new();
        let mut units = Vec::new();
        for _ in 0..k {
            let c = cp();
            s.push(point(c));
            units.extend(spec::utf16(&[c]));
            let want = spec::enc(&spec::from_utf16(&units));
            check(s.as_bytes() == &want[..], "push behaves like UTF-16 concatenation");
        }
        observe_bytes(s.as_bytes());
        cover("push");
    }
    // concatenation
    fn h_wtf_concat() { let (i, j) = (pick(param(0) + 1), pick(param(0) + 1)); let (a, b) = (cps(i), cps(j)); concat(&a, &b) }
    // long strings: concrete text of 0, 7, 8, 17 or 40 code points of every length around symbolic ones
    fn h_wtf_vlong() {
        let (p, q) = (long(pick(6)), long(pick(6)));
        let n = pick(param(0) + 1);
        let mut v = spec::enc(&p);
        v.extend(bytes(n));
        v.extend(spec::enc(&q));
        validate(v)
    }
    fn h_wtf_long() {
        let (p, q) = (long(pick(6)), long(pick(6)));
        let k = pick(param(0) + 1);
        let mut c = p.clone();
        c.extend(cps(k));
        c.extend(&q);
        views(&c);
    }
    fn h_wtf_clong() {
        let (p, q) = (long(pick(6)), long(pick(6)));
        let (mut a, mut b) = (p, cps(1));
        a.extend(cps(1));
        b.extend(q);
        concat(&a, &b)
    }
    // slicing and truncation: exact bytes on code point boundaries, refusal elsewhere
    fn h_wtf_slice() {
        let k = pick(param(0) + 1);
        let c = cps(k);
        let s = mk(&c);
        let b = spec::enc(&c);
        let mut bounds = vec![0usize];
        for x in &c { let l = spec::enc(&[*x]).len(); bounds.push(bounds[bounds.len() - 1] + l) }
        let (i, j) = (pick(b.len() + 2), pick(b.len() + 2));
        let ok = |x: usize| bounds.contains(&x);
        match pick(4) {
            0 => { let good = i <= j && ok(i) && ok(j); allow_panic(!good); let r = &s[i..j]; check(good, "range slicing refuses non-boundaries"); check(r.as_bytes() == &b[i..j], "range slice content"); cover("range") }
            1 => { let good = ok(i); allow_panic(!good); let r = &s[i..]; check(good, "suffix slicing refuses non-boundaries"); check(r.as_bytes() == &b[i..], "suffix content"); cover("from") }
            2 => { let good = ok(j); allow_panic(!good); let r = &s[..j]; check(good, "prefix slicing refuses non-boundaries"); check(r.as_bytes() == &b[..j], "prefix content"); cover("to") }
            _ => { let good = ok(i); allow_panic(!good); let mut t = s.clone(); t.truncate(i); check(good, "truncate refuses non-boundaries"); check(t.as_bytes() == &b[..i], "truncated content"); cover("truncate") }
        }
        allow_panic(false);
        check(s[..].as_bytes() == &b[..], "full slice");
    }
    // equality, order and hashing agree between owned and borrowed strings and follow the bytes
    fn h_wtf_eqhash() {
        let (i, j) = (pick(param(0) + 1), pick(param(0) + 1));
        let (a, b) = (cps(i), cps(j));
        let (x, y) = (mk(&a), mk(&b));
        let same = a == b;
        if same { cover("equal") } else { cover("different") }
        check((x == y) == same, "owned equality is code point equality");
        check((*x == *y) == same, "borrowed equality");
        check((x == *y) == same && (*x == y) == same && (x == y.as_wstr()) == same, "mixed equality");
        check(x.cmp(&y) == a.cmp(&b), "order is code point order");
        check(x.as_wstr().cmp(y.as_wstr()) == a.cmp(&b), "borrowed order");
        check(hash_of(&x) == hash_of(x.as_wstr()), "owned and borrowed hash alike");
        if same { check(hash_of(&x) == hash_of(&y), "equal strings hash alike") }
        if let Some(t) = y.as_str() { check((x == *t) == same && (*x == *t) == same, "equality with str") }
        let mut z = mk(&b);
        x.as_wstr().clone_into(&mut z);
        check(z == x, "clone_into");
        check(x.as_wstr().to_owned() == x, "to_owned");
        check(Wtf8String::from_box(x.clone().into_box()) == x, "box round trip");
        check(*x.as_wstr().into_box() == *x && *x.as_wstr().into_rc() == *x && *x.as_wstr().into_arc() == *x, "boxed copies");
        if let Some(t) = x.as_str() { check(Wtf8String::from_borrowed(t) == x && *Wtf8Str::new(t) == *x && Wtf8String::from_string(t.to_string()) == x, "construction from UTF-8") }
    }
    // ASCII case mapping touches ASCII letters only
    fn h_wtf_ascii() {
        let k = pick(param(0) + 1);
        let c = cps(k);
        let s = mk(&c);
        let lo: Vec<u32> = c.iter().map(|x| if *x >= 65 && *x <= 90 { *x + 32 } else { *x }).collect();
        let up: Vec<u32> = c.iter().map(|x| if *x >= 97 && *x <= 122 { *x - 32 } else { *x }).collect();
        check(s.to_ascii_lowercase() == mk(&lo), "lowercase");
        check(s.to_ascii_uppercase() == mk(&up), "uppercase");
        let mut t = s.clone(); t.make_ascii_lowercase(); check(t == mk(&lo), "in-place lowercase");
        let mut t = s.clone(); t.make_ascii_uppercase(); check(t == mk(&up), "in-place uppercase");
        check(s.eq_ignore_ascii_case(&mk(&up)), "case-insensitive equality");
        let o = cps(k);
        let fold: Vec<u32> = o.iter().map(|x| if *x >= 65 && *x <= 90 { *x + 32 } else { *x }).collect();
        check(s.eq_ignore_ascii_case(&mk(&o)) == (fold == lo), "case-insensitive equality of two strings");
        let n = s.len();
        if n > 0 { let i = pick(n); let b = s.as_bytes()[i]; check(s.ascii_byte_at(i) == if b < 128 { b } else { 0xFF }, "ascii_byte_at") }
        cover("ascii");
    }
}
