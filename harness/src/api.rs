//! Interface between the harnesses and whatever executes them.
#![allow(dead_code)]

/// Declares harness entry points.
#[macro_export]
macro_rules! harness {
    ($($name:ident $body:block)*) => {
        $(#[cfg(feature = "sym")] #[no_mangle] pub extern "C" fn $name() $body
          #[cfg(feature = "native")] pub fn $name() $body)*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

#[cfg(feature = "sym")]
mod be {
    extern "C" {
        fn ksym_sym(p: *const u8, n: usize, bits: u32) -> u64;
        fn ksym_choice(p: *const u8, n: usize, k: u64) -> u64;
        fn ksym_assume(c: bool);
        fn ksym_check(c: bool, p: *const u8, n: usize);
        fn ksym_observe(p: *const u8, n: usize, v: u64);
        fn ksym_reach(p: *const u8, n: usize);
        fn ksym_panic_label(p: *const u8, n: usize);
        fn ksym_ctx(p: *const u8, n: usize);
        fn ksym_param(i: u64) -> u64;
        fn ksym_fork(v: u64) -> u64;
    }
    #[inline(always)]
    pub fn sym(s: &str, bits: u32) -> u64 {
        unsafe { ksym_sym(s.as_ptr(), s.len(), bits) }
    }
    #[inline(always)]
    pub fn choice(s: &str, k: u64) -> u64 {
        unsafe { ksym_choice(s.as_ptr(), s.len(), k) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { ksym_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, s: &str) {
        unsafe { ksym_check(c, s.as_ptr(), s.len()) }
    }
    #[inline(always)]
    pub fn observe(s: &str, v: u64) {
        unsafe { ksym_observe(s.as_ptr(), s.len(), v) }
    }
    #[inline(always)]
    pub fn reach(s: &str) {
        unsafe { ksym_reach(s.as_ptr(), s.len()) }
    }
    #[inline(always)]
    pub fn panic_label(s: &str) {
        unsafe { ksym_panic_label(s.as_ptr(), s.len()) }
    }
    #[inline(always)]
    pub fn ctx(s: &str) {
        unsafe { ksym_ctx(s.as_ptr(), s.len()) }
    }
    #[inline(always)]
    pub fn param(i: u64) -> u64 {
        unsafe { ksym_param(i) }
    }
    #[inline(always)]
    pub fn fork(v: u64) -> u64 {
        unsafe { ksym_fork(v) }
    }
}

#[cfg(feature = "native")]
pub mod be {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ctx {
        pub inputs: Vec<(String, u64)>,
        pub pos: usize,
        pub params: Vec<u64>,
        pub obs: Vec<(String, u64)>,
        pub failed: Vec<String>,
        pub ctx: String,
        pub panic_label: String,
    }
    thread_local! { pub static C: RefCell<Ctx> = RefCell::new(Ctx::default()); }
    /// Payload thrown when a replay leaves the recorded path.
    pub struct Diverged(pub String);
    fn next(s: &str) -> u64 {
        let r = C.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.pos;
            c.pos += 1;
            match c.inputs.get(p) {
                Some((n, v)) if n == s => Ok(*v),
                x => Err(format!("input #{}: wanted {}, recorded {:?}", p, s, x)),
            }
        });
        match r {
            Ok(v) => v,
            Err(e) => std::panic::panic_any(Diverged(e)),
        }
    }
    pub fn sym(s: &str, _bits: u32) -> u64 {
        next(s)
    }
    pub fn choice(s: &str, _k: u64) -> u64 {
        next(s)
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Diverged("assumption does not hold".into()));
        }
    }
    pub fn check(ok: bool, s: &str) {
        if !ok {
            C.with(|c| {
                let mut c = c.borrow_mut();
                let l = if c.ctx.is_empty() { s.to_string() } else { format!("{}/{}", c.ctx, s) };
                c.failed.push(l);
            });
        }
    }
    pub fn observe(s: &str, v: u64) {
        C.with(|c| c.borrow_mut().obs.push((s.to_string(), v)));
    }
    pub fn reach(_s: &str) {}
    pub fn panic_label(s: &str) {
        C.with(|c| c.borrow_mut().panic_label = s.to_string());
    }
    pub fn ctx(s: &str) {
        C.with(|c| c.borrow_mut().ctx = s.to_string());
    }
    pub fn param(i: u64) -> u64 {
        C.with(|c| c.borrow().params[i as usize])
    }
    pub fn fork(v: u64) -> u64 {
        v
    }
}

pub use be::{check, choice, ctx, observe, panic_label, param, reach};

/// Restricts the inputs considered from here on.
#[inline(always)]
pub fn assume(c: bool) {
    be::assume(c)
}
/// Enumerates the feasible values of `v` (one path each).
#[inline(always)]
pub fn fork(v: u64) -> u64 {
    be::fork(v)
}

#[inline(always)]
pub fn bool_(s: &str) -> bool {
    be::sym(s, 1) != 0
}
#[inline(always)]
pub fn u8_(s: &str) -> u8 {
    be::sym(s, 8) as u8
}
#[inline(always)]
pub fn i8_(s: &str) -> i8 {
    be::sym(s, 8) as i8
}
#[inline(always)]
pub fn u16_(s: &str) -> u16 {
    be::sym(s, 16) as u16
}
#[inline(always)]
pub fn i16_(s: &str) -> i16 {
    be::sym(s, 16) as i16
}
#[inline(always)]
pub fn u32_(s: &str) -> u32 {
    be::sym(s, 32) as u32
}
#[inline(always)]
pub fn i32_(s: &str) -> i32 {
    be::sym(s, 32) as i32
}
#[inline(always)]
pub fn u64_(s: &str) -> u64 {
    be::sym(s, 64)
}
#[inline(always)]
pub fn usize_(s: &str) -> usize {
    be::sym(s, 64) as usize
}
#[inline(always)]
pub fn i64_(s: &str) -> i64 {
    be::sym(s, 64) as i64
}
/// u32 in lo..=hi
#[inline(always)]
pub fn u32_in(s: &str, lo: u32, hi: u32) -> u32 {
    let v = u32_(s);
    assume(lo <= v && v <= hi);
    v
}
/// One element of a small set, as a separate path each.
#[inline(always)]
pub fn pick<T: Copy>(s: &str, xs: &[T]) -> T {
    xs[choice(s, xs.len() as u64) as usize]
}
/// From here on a panic is what the specification asks for.
#[inline(always)]
pub fn panic_expected() {
    panic_label("ok:panic")
}
#[inline(always)]
pub fn panic_default() {
    panic_label("")
}
