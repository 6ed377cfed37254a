//! Harness runtime. With feature `sym` every primitive is an external function implemented by the
//! symbolic executor; without it the same harness replays one recorded input vector natively.
#![allow(dead_code)]

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn symx_u8() -> u8;
        fn symx_u16() -> u16;
        fn symx_u32() -> u32;
        fn symx_u64() -> u64;
        fn symx_choose(n: u32) -> u32;
        fn symx_param(i: u32) -> u32;
        fn symx_assume(b: bool);
        fn symx_check(b: bool, p: *const u8, n: usize);
        fn symx_cover(p: *const u8, n: usize);
        fn symx_allow_panic(b: bool);
        fn symx_alloc_limit(n: u64);
        fn symx_concretize(x: u64) -> u64;
        fn symx_observe(x: u64);
        fn symx_note(p: *const u8, n: usize, x: u64);
    }
    pub fn u8() -> u8 { unsafe { symx_u8() } }
    pub fn u16() -> u16 { unsafe { symx_u16() } }
    pub fn u32() -> u32 { unsafe { symx_u32() } }
    pub fn u64() -> u64 { unsafe { symx_u64() } }
    pub fn choose(n: u32) -> u32 { unsafe { symx_choose(n) } }
    pub fn param(i: u32) -> usize { unsafe { symx_param(i) as usize } }
    pub fn assume(b: bool) { unsafe { symx_assume(b) } }
    pub fn check(b: bool, l: &str) { unsafe { symx_check(b, l.as_ptr(), l.len()) } }
    pub fn cover(l: &str) { unsafe { symx_cover(l.as_ptr(), l.len()) } }
    pub fn allow_panic(b: bool) { unsafe { symx_allow_panic(b) } }
    pub fn alloc_limit(n: u64) { unsafe { symx_alloc_limit(n) } }
    pub fn concretize(x: u64) -> u64 { unsafe { symx_concretize(x) } }
    pub fn observe(x: u64) { unsafe { symx_observe(x) } }
    pub fn note(l: &str, x: u64) { unsafe { symx_note(l.as_ptr(), l.len(), x) } }
}

#[cfg(not(feature = "sym"))]
pub mod imp {
    use std::cell::RefCell;
    pub struct CheckFailed(pub String);
    pub struct Assumed;
    pub struct OutOfInputs;
    #[derive(Default)]
    pub struct St { pub inputs: Vec<(u32, u64)>, pub pos: usize, pub params: Vec<u32>, pub obs: Vec<u64>, pub covers: Vec<String>, pub allow: bool }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St::default()); }
    fn next(w: u32) -> u64 {
        let r = ST.with(|s| { let mut s = s.borrow_mut(); let p = s.pos; s.pos += 1; s.inputs.get(p).copied() });
        match r { Some((ww, v)) if ww == w => v, _ => std::panic::panic_any(OutOfInputs) }
    }
    pub fn u8() -> u8 { next(8) as u8 }
    pub fn u16() -> u16 { next(16) as u16 }
    pub fn u32() -> u32 { next(32) as u32 }
    pub fn u64() -> u64 { next(64) }
    pub fn choose(n: u32) -> u32 { let v = next(32) as u32; assert!(v < n); v }
    pub fn param(i: u32) -> usize { ST.with(|s| s.borrow().params[i as usize] as usize) }
    pub fn assume(b: bool) { if !b { std::panic::panic_any(Assumed) } }
    pub fn check(b: bool, l: &str) { if !b { std::panic::panic_any(CheckFailed(l.to_string())) } }
    pub fn cover(l: &str) { ST.with(|s| s.borrow_mut().covers.push(l.to_string())) }
    pub fn allow_panic(b: bool) { ST.with(|s| s.borrow_mut().allow = b) }
    pub static ALLOC_MAX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(64 << 20);
    pub fn alloc_limit(n: u64) { ALLOC_MAX.store(n as usize, std::sync::atomic::Ordering::Relaxed) }
    pub fn concretize(x: u64) -> u64 { x }
    pub fn observe(x: u64) { ST.with(|s| s.borrow_mut().obs.push(x)) }
    pub fn note(_: &str, _: u64) {}
}
pub use imp::*;

pub fn i8() -> i8 { u8() as i8 }
pub fn i16() -> i16 { u16() as i16 }
pub fn i32() -> i32 { u32() as i32 }
pub fn i64() -> i64 { u64() as i64 }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(u8()) } v }
/// A symbolic boolean explored as two separate paths.
pub fn flip() -> bool { choose(2) == 1 }
/// A symbolic value in `0..n` explored as one path per value.
pub fn pick(n: usize) -> usize { choose(n as u32) as usize }
/// Observe a byte slice (used when sampled paths are replayed against the native build).
pub fn observe_bytes(b: &[u8]) { observe(b.len() as u64); for x in b { observe(*x as u64) } }

/// Native panic hook support: run one harness on one input vector.
#[cfg(not(feature = "sym"))]
pub mod native {
    use super::imp::*;
    use std::alloc::{GlobalAlloc, Layout, System};
    pub struct Limit;
    fn max() -> usize { ALLOC_MAX.load(std::sync::atomic::Ordering::Relaxed) }
    fn over(n: usize) -> ! { println!("{{\"r\":\"alloc\",\"label\":\"allocation of {} bytes\"}}", n); std::process::exit(99) }
    unsafe impl GlobalAlloc for Limit {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > max() { over(l.size()) } System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > max() { over(n) } System.realloc(p, l, n) }
    }
    fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || (c as u32) > 126 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) } } c => o.push(c) } } o }
    /// argv: ENTRY FILE; FILE: first line params (space separated), each further line `w:v w:v ...`
    pub fn main(table: &[(&str, fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let f = table.iter().find(|(n, _)| *n == a[1]).expect("no such harness").1;
        let text = std::fs::read_to_string(&a[2]).unwrap();
        let mut lines = text.lines();
        let params: Vec<u32> = lines.next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect();
        static LOC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        std::panic::set_hook(Box::new(|i| { *LOC.lock().unwrap() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default() }));
        for l in lines {
            let inputs: Vec<(u32, u64)> = l.split_whitespace().map(|x| { let (w, v) = x.split_once(':').unwrap(); (w.parse().unwrap(), v.parse().unwrap()) }).collect();
            ST.with(|s| *s.borrow_mut() = St { inputs, params: params.clone(), ..St::default() });
            let r = std::panic::catch_unwind(f);
            alloc_limit(64 << 20);
            let (obs, covers, allow) = ST.with(|s| { let s = s.borrow(); (s.obs.clone(), s.covers.clone(), s.allow) });
            let (kind, label) = match r {
                Ok(()) => ("ok", String::new()),
                Err(e) => if let Some(c) = e.downcast_ref::<CheckFailed>() { ("check", c.0.clone()) } else if e.is::<Assumed>() { ("assume", String::new()) } else if e.is::<OutOfInputs>() { ("inputs", String::new()) } else if allow { ("panic-allowed", String::new()) }
                    else { let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); ("panic", format!("{} at {}", m, LOC.lock().unwrap())) },
            };
            println!("{{\"r\":\"{}\",\"label\":\"{}\",\"obs\":{:?},\"covers\":{:?}}}", kind, esc(&label), obs, covers);
        }
    }
}
