#![allow(clippy::all)]
/// Declares the harness entry points of a module.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $(#[no_mangle] #[inline(never)] $(#[$m])* pub fn $name() $body)*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

mod rt;
mod spec;
mod cf;
mod wtf;
mod mutf;
mod prim;
mod desc;
mod sig;
mod anno;
mod cpool;
mod insn;
mod frame;
mod meta;
mod attrs;
mod class;
mod dynm;
mod io;
mod bytes;
mod limits;

#[cfg(not(feature = "sym"))]
#[global_allocator]
static A: rt::native::Limit = rt::native::Limit;

fn main() {
    let mut t: Vec<(&str, fn())> = Vec::new();
    for m in [wtf::TABLE, mutf::TABLE, prim::TABLE, desc::TABLE, sig::TABLE, anno::TABLE, cpool::TABLE, insn::TABLE, frame::TABLE, meta::TABLE, attrs::TABLE, class::TABLE, dynm::TABLE, io::TABLE, bytes::TABLE, limits::TABLE] { t.extend_from_slice(m) }
    #[cfg(not(feature = "sym"))]
    rt::native::main(&t);
    #[cfg(feature = "sym")]
    for (_, f) in t { f() }
}
