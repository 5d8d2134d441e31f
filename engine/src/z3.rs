//! Minimal binding to libz3 (loaded at run time) and translation of expressions to Z3 terms.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn dlopen(name: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, name: *const c_char) -> P;
}

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) -> $r:ty;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($t),*) -> $r,)* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($name: {
                    let s = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, s.as_ptr());
                    if p.is_null() { panic!("libz3 lacks {}", stringify!($name)); }
                    std::mem::transmute::<P, unsafe extern "C" fn($($t),*) -> $r>(p)
                },)* }
            }
        }
    };
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_set_param_value: fn(P, *const c_char, *const c_char) -> ();
    Z3_global_param_set: fn(*const c_char, *const c_char) -> ();
    Z3_mk_context: fn(P) -> P;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_iff: fn(P, P, P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_fpa_sort_32: fn(P) -> P;
    Z3_mk_fpa_sort_64: fn(P) -> P;
    Z3_mk_fpa_rne: fn(P) -> P;
    Z3_mk_fpa_rna: fn(P) -> P;
    Z3_mk_fpa_rtn: fn(P) -> P;
    Z3_mk_fpa_rtp: fn(P) -> P;
    Z3_mk_fpa_rtz: fn(P) -> P;
    Z3_mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    Z3_mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_ieee_bv: fn(P, P) -> P;
    Z3_mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_add: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sub: fn(P, P, P, P) -> P;
    Z3_mk_fpa_mul: fn(P, P, P, P) -> P;
    Z3_mk_fpa_div: fn(P, P, P, P) -> P;
    Z3_mk_fpa_lt: fn(P, P, P) -> P;
    Z3_mk_fpa_leq: fn(P, P, P) -> P;
    Z3_mk_fpa_eq: fn(P, P, P) -> P;
    Z3_mk_fpa_is_nan: fn(P, P) -> P;
    Z3_mk_fpa_is_negative: fn(P, P) -> P;
    Z3_mk_fpa_round_to_integral: fn(P, P, P) -> P;
    Z3_mk_solver: fn(P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_tactic: fn(P, *const c_char) -> P;
    Z3_tactic_inc_ref: fn(P, P) -> ();
    Z3_mk_solver_from_tactic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P) -> ();
    Z3_solver_dec_ref: fn(P, P) -> ();
    Z3_solver_assert: fn(P, P, P) -> ();
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_set_params: fn(P, P, P) -> ();
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P) -> ();
    Z3_params_set_uint: fn(P, P, P, c_uint) -> ();
    Z3_model_inc_ref: fn(P, P) -> ();
    Z3_model_dec_ref: fn(P, P) -> ();
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_get_error_code: fn(P) -> c_int;
    Z3_get_error_msg: fn(P, c_int) -> *const c_char;
    Z3_set_error_handler: fn(P, P) -> ();
    Z3_get_full_version: fn() -> *const c_char;
    Z3_ast_to_string: fn(P, P) -> *const c_char;
}

pub enum Res {
    Sat(HashMap<u32, u128, BuildH>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    a: Api,
    ctx: P,
    tactic: P,
    fp_tactic: P,
    params: P,
    short: P,
    bv: HashMap<E, P, BuildH>,
    bo: HashMap<E, P, BuildH>,
    hasfp: HashMap<E, bool, BuildH>,
    tmp: HashMap<E, P, BuildH>,
    pub version: String,
    pub timeout_ms: u32,
}

extern "C" fn on_error(_c: P, _e: c_int) {}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cands = [
                std::env::var("KSYM_LIBZ3").unwrap_or_default(),
                "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".to_string(),
                "/usr/lib/x86_64-linux-gnu/libz3.so".to_string(),
                "libz3.so".to_string(),
                "libz3.so.4".to_string(),
            ];
            let mut h: P = std::ptr::null_mut();
            for c in cands.iter().filter(|c| !c.is_empty()) {
                let s = CString::new(c.as_str()).unwrap();
                h = dlopen(s.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                eprintln!("cannot load libz3");
                std::process::exit(3);
            }
            let a = Api::load(h);
            let cfg = (a.Z3_mk_config)();
            let ctx = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(ctx, on_error as *mut c_void);
            let mk = |n: &str| {
                let s = CString::new(n).unwrap();
                let t = (a.Z3_mk_tactic)(ctx, s.as_ptr());
                (a.Z3_tactic_inc_ref)(ctx, t);
                t
            };
            let tactic = mk("qfbv");
            let fp_tactic = mk("qffp");
            let params = (a.Z3_mk_params)(ctx);
            (a.Z3_params_inc_ref)(ctx, params);
            let s = CString::new("timeout").unwrap();
            let sym = (a.Z3_mk_string_symbol)(ctx, s.as_ptr());
            (a.Z3_params_set_uint)(ctx, params, sym, timeout_ms);
            // integer queries Z3 finds hard go to the other solvers early
            let short = (a.Z3_mk_params)(ctx);
            (a.Z3_params_inc_ref)(ctx, short);
            (a.Z3_params_set_uint)(ctx, short, sym, timeout_ms.min(1500));
            let version = CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().to_string();
            Z3 { a, ctx, tactic, fp_tactic, params, short, bv: HashMap::default(), bo: HashMap::default(), hasfp: HashMap::default(), tmp: HashMap::default(), version, timeout_ms }
        }
    }
    fn fsort(&self, w: u32) -> P {
        unsafe { if w == 32 { (self.a.Z3_mk_fpa_sort_32)(self.ctx) } else { (self.a.Z3_mk_fpa_sort_64)(self.ctx) } }
    }
    fn fp(&mut self, ex: &Ex, e: E) -> P {
        let w = ex.w(e);
        let b = self.bvt(ex, e);
        unsafe { (self.a.Z3_mk_fpa_to_fp_bv)(self.ctx, b, self.fsort(w)) }
    }
    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            let s = (self.a.Z3_mk_bv_sort)(self.ctx, w);
            if v <= u64::MAX as u128 {
                (self.a.Z3_mk_unsigned_int64)(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                (self.a.Z3_mk_numeral)(self.ctx, t.as_ptr(), s)
            }
        }
    }
    fn from_fp(&self, f: P, w: u32) -> P {
        unsafe {
            let bits = (self.a.Z3_mk_fpa_to_ieee_bv)(self.ctx, f);
            let nan = self.num(w, if w == 32 { 0x7fc00000 } else { 0x7ff8000000000000 });
            let isn = (self.a.Z3_mk_fpa_is_nan)(self.ctx, f);
            (self.a.Z3_mk_ite)(self.ctx, isn, nan, bits)
        }
    }
    /// Boolean form of a 1-bit expression.
    pub fn boolt(&mut self, ex: &Ex, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) {
            return p;
        }
        let n = ex.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k != 0 { (self.a.Z3_mk_true)(c) } else { (self.a.Z3_mk_false)(c) },
                Op::Not => {
                    let x = self.boolt(ex, n.a);
                    (self.a.Z3_mk_not)(c, x)
                }
                Op::And | Op::Or => {
                    let v = [self.boolt(ex, n.a), self.boolt(ex, n.b)];
                    if n.op == Op::And { (self.a.Z3_mk_and)(c, 2, v.as_ptr()) } else { (self.a.Z3_mk_or)(c, 2, v.as_ptr()) }
                }
                Op::Xor => {
                    let (x, y) = (self.boolt(ex, n.a), self.boolt(ex, n.b));
                    (self.a.Z3_mk_xor)(c, x, y)
                }
                Op::Ite => {
                    let (q, x, y) = (self.boolt(ex, n.a), self.boolt(ex, n.b), self.boolt(ex, n.c));
                    (self.a.Z3_mk_ite)(c, q, x, y)
                }
                Op::Eq => {
                    if ex.w(n.a) == 1 {
                        let (x, y) = (self.boolt(ex, n.a), self.boolt(ex, n.b));
                        (self.a.Z3_mk_iff)(c, x, y)
                    } else {
                        let (x, y) = (self.bvt(ex, n.a), self.bvt(ex, n.b));
                        (self.a.Z3_mk_eq)(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.bvt(ex, n.a), self.bvt(ex, n.b));
                    (self.a.Z3_mk_bvult)(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.bvt(ex, n.a), self.bvt(ex, n.b));
                    (self.a.Z3_mk_bvslt)(c, x, y)
                }
                Op::FOlt => {
                    let (x, y) = (self.fp(ex, n.a), self.fp(ex, n.b));
                    (self.a.Z3_mk_fpa_lt)(c, x, y)
                }
                Op::FOle => {
                    let (x, y) = (self.fp(ex, n.a), self.fp(ex, n.b));
                    (self.a.Z3_mk_fpa_leq)(c, x, y)
                }
                Op::FOeq => {
                    let (x, y) = (self.fp(ex, n.a), self.fp(ex, n.b));
                    (self.a.Z3_mk_fpa_eq)(c, x, y)
                }
                Op::FUno => {
                    let x = self.fp(ex, n.a);
                    (self.a.Z3_mk_fpa_is_nan)(c, x)
                }
                _ => {
                    let b = self.bvt_raw(ex, e, n);
                    let one = self.num(1, 1);
                    (self.a.Z3_mk_eq)(c, b, one)
                }
            }
        };
        self.bo.insert(e, r);
        r
    }
    pub fn bvt(&mut self, ex: &Ex, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = ex.n(e);
        let r = if n.w == 1 && matches!(n.op, Op::Not | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Slt | Op::FOlt | Op::FOle | Op::FOeq | Op::FUno) {
            let b = self.boolt(ex, e);
            let (o, z) = (self.num(1, 1), self.num(1, 0));
            unsafe { (self.a.Z3_mk_ite)(self.ctx, b, o, z) }
        } else {
            self.bvt_raw(ex, e, n)
        };
        self.bv.insert(e, r);
        r
    }
    fn bvt_raw(&mut self, ex: &Ex, e: E, n: Node) -> P {
        let c = self.ctx;
        macro_rules! b2 {
            ($f:ident) => {{
                let (x, y) = (self.bvt(ex, n.a), self.bvt(ex, n.b));
                (self.a.$f)(c, x, y)
            }};
        }
        unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k)).unwrap();
                    let sym = (self.a.Z3_mk_string_symbol)(c, s.as_ptr());
                    let so = (self.a.Z3_mk_bv_sort)(c, n.w);
                    (self.a.Z3_mk_const)(c, sym, so)
                }
                Op::Not => {
                    let x = self.bvt(ex, n.a);
                    (self.a.Z3_mk_bvnot)(c, x)
                }
                Op::And => b2!(Z3_mk_bvand),
                Op::Or => b2!(Z3_mk_bvor),
                Op::Xor => b2!(Z3_mk_bvxor),
                Op::Add => b2!(Z3_mk_bvadd),
                Op::Sub => b2!(Z3_mk_bvsub),
                Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv),
                Op::URem => b2!(Z3_mk_bvurem),
                Op::SDiv => b2!(Z3_mk_bvsdiv),
                Op::SRem => b2!(Z3_mk_bvsrem),
                Op::Shl => b2!(Z3_mk_bvshl),
                Op::LShr => b2!(Z3_mk_bvlshr),
                Op::AShr => b2!(Z3_mk_bvashr),
                Op::Concat => b2!(Z3_mk_concat),
                Op::Extract => {
                    let x = self.bvt(ex, n.a);
                    (self.a.Z3_mk_extract)(c, n.k as u32 + n.w - 1, n.k as u32, x)
                }
                Op::ZExt => {
                    let x = self.bvt(ex, n.a);
                    (self.a.Z3_mk_zero_ext)(c, n.w - ex.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.bvt(ex, n.a);
                    (self.a.Z3_mk_sign_ext)(c, n.w - ex.w(n.a), x)
                }
                Op::Ite => {
                    let (q, x, y) = (self.boolt(ex, n.a), self.bvt(ex, n.b), self.bvt(ex, n.c));
                    (self.a.Z3_mk_ite)(c, q, x, y)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (x, y) = (self.fp(ex, n.a), self.fp(ex, n.b));
                    let rm = (self.a.Z3_mk_fpa_rne)(c);
                    let f = match n.op {
                        Op::FAdd => self.a.Z3_mk_fpa_add,
                        Op::FSub => self.a.Z3_mk_fpa_sub,
                        Op::FMul => self.a.Z3_mk_fpa_mul,
                        _ => self.a.Z3_mk_fpa_div,
                    };
                    let r = f(c, rm, x, y);
                    self.from_fp(r, n.w)
                }
                Op::FAbs => {
                    let x = self.bvt(ex, n.a);
                    let m = self.num(n.w, mask(n.w) >> 1);
                    (self.a.Z3_mk_bvand)(c, x, m)
                }
                Op::FRound => {
                    let x = self.fp(ex, n.a);
                    let rm = match n.k {
                        0 => (self.a.Z3_mk_fpa_rtn)(c),
                        1 => (self.a.Z3_mk_fpa_rtp)(c),
                        2 => (self.a.Z3_mk_fpa_rtz)(c),
                        3 => (self.a.Z3_mk_fpa_rne)(c),
                        _ => (self.a.Z3_mk_fpa_rna)(c),
                    };
                    let r = (self.a.Z3_mk_fpa_round_to_integral)(c, rm, x);
                    self.from_fp(r, n.w)
                }
                Op::FToUSat | Op::FToSSat => {
                    // go through a wide conversion after clamping
                    let wf = ex.w(n.a);
                    let fs = self.fsort(wf);
                    let x = self.fp(ex, n.a);
                    let rm = (self.a.Z3_mk_fpa_rtz)(c);
                    let signed = n.op == Op::FToSSat;
                    let w = n.w;
                    let maxv: u128 = if signed { mask(w) >> 1 } else { mask(w) };
                    // 2^w (or 2^(w-1)) is exactly representable
                    let lim = if signed { 1u128 << (w - 1) } else if w == 128 { panic!("f->u128") } else { 1u128 << w };
                    let limf = if wf == 32 { (lim as f32).to_bits() as u128 } else { (lim as f64).to_bits() as u128 };
                    let nlimf = if wf == 32 { (-(lim as f32)).to_bits() as u128 } else { (-(lim as f64)).to_bits() as u128 };
                    let lb = self.num(wf, limf);
                    let limt = (self.a.Z3_mk_fpa_to_fp_bv)(c, lb, fs);
                    let toobig = (self.a.Z3_mk_fpa_leq)(c, limt, x);
                    let nan = (self.a.Z3_mk_fpa_is_nan)(c, x);
                    let zero = self.num(w, 0);
                    let conv;
                    let lowcond;
                    let lowv;
                    if signed {
                        conv = (self.a.Z3_mk_fpa_to_sbv)(c, rm, x, w);
                        let nb = self.num(wf, nlimf);
                        let nl = (self.a.Z3_mk_fpa_to_fp_bv)(c, nb, fs);
                        lowcond = (self.a.Z3_mk_fpa_lt)(c, x, nl);
                        lowv = self.num(w, 1u128 << (w - 1));
                    } else {
                        conv = (self.a.Z3_mk_fpa_to_ubv)(c, rm, x, w);
                        lowcond = (self.a.Z3_mk_fpa_is_negative)(c, x);
                        lowv = zero;
                    }
                    let maxt = self.num(w, maxv);
                    let r = (self.a.Z3_mk_ite)(c, toobig, maxt, conv);
                    let r = (self.a.Z3_mk_ite)(c, lowcond, lowv, r);
                    (self.a.Z3_mk_ite)(c, nan, zero, r)
                }
                Op::UToF | Op::SToF => {
                    let x = self.bvt(ex, n.a);
                    let rm = (self.a.Z3_mk_fpa_rne)(c);
                    let fs = self.fsort(n.w);
                    let r = if n.op == Op::UToF { (self.a.Z3_mk_fpa_to_fp_unsigned)(c, rm, x, fs) } else { (self.a.Z3_mk_fpa_to_fp_signed)(c, rm, x, fs) };
                    self.from_fp(r, n.w)
                }
                Op::FToF => {
                    let x = self.fp(ex, n.a);
                    let rm = (self.a.Z3_mk_fpa_rne)(c);
                    let r = (self.a.Z3_mk_fpa_to_fp_float)(c, rm, x, self.fsort(n.w));
                    self.from_fp(r, n.w)
                }
                _ => panic!("cannot translate {:?} ({})", n.op, e),
            }
        }
    }
    fn fpish(&mut self, ex: &Ex, e: E) -> bool {
        if let Some(b) = self.hasfp.get(&e) {
            return *b;
        }
        let n = ex.n(e);
        let r = match n.op {
            Op::Const | Op::Var | Op::Dummy => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FOlt | Op::FOle | Op::FOeq | Op::FUno | Op::FRound | Op::FToUSat | Op::FToSSat | Op::UToF | Op::SToF | Op::FToF => true,
            _ => {
                let mut r = self.fpish(ex, n.a);
                if n.b != 0 {
                    r |= self.fpish(ex, n.b);
                }
                if n.c != 0 {
                    r |= self.fpish(ex, n.c);
                }
                r
            }
        };
        self.hasfp.insert(e, r);
        r
    }
    pub fn check(&mut self, ex: &Ex, cs: &[E], vars: &[u32], smt: Option<&mut String>) -> Res {
        unsafe {
            let fp = cs.iter().any(|&c| self.fpish(ex, c));
            let s = if fp { (self.a.Z3_mk_solver_from_tactic)(self.ctx, self.fp_tactic) } else { (self.a.Z3_mk_solver_from_tactic)(self.ctx, self.tactic) };
            (self.a.Z3_solver_inc_ref)(self.ctx, s);
            (self.a.Z3_solver_set_params)(self.ctx, s, if fp { self.params } else { self.short });
            for &c in cs {
                let t = self.boolt(ex, c);
                (self.a.Z3_solver_assert)(self.ctx, s, t);
            }
            let t0 = std::time::Instant::now();
            let r = (self.a.Z3_solver_check)(self.ctx, s);
            if t0.elapsed().as_millis() > 200 {
                if let Ok(d) = std::env::var("KSYM_DUMP") {
                    let st = CStr::from_ptr((self.a.Z3_solver_to_string)(self.ctx, s)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{}/q{}-{}.smt2", d, t0.elapsed().as_millis(), if r == 1 { "sat" } else { "unsat" }), st + "\n(check-sat)\n");
                }
            }
            let out = match r {
                1 => {
                    let m = (self.a.Z3_solver_get_model)(self.ctx, s);
                    (self.a.Z3_model_inc_ref)(self.ctx, m);
                    let mut h = HashMap::default();
                    for &v in vars {
                        let w = ex.var_names[v as usize].1;
                        let sname = CString::new(format!("v{}", v)).unwrap();
                        let sym = (self.a.Z3_mk_string_symbol)(self.ctx, sname.as_ptr());
                        let so = (self.a.Z3_mk_bv_sort)(self.ctx, w);
                        let t = (self.a.Z3_mk_const)(self.ctx, sym, so);
                        let mut o: P = std::ptr::null_mut();
                        if (self.a.Z3_model_eval)(self.ctx, m, t, true, &mut o) {
                            let st = CStr::from_ptr((self.a.Z3_get_numeral_string)(self.ctx, o)).to_str().unwrap().to_string();
                            h.insert(v, st.parse::<u128>().unwrap_or(0));
                        }
                    }
                    (self.a.Z3_model_dec_ref)(self.ctx, m);
                    Res::Sat(h)
                }
                -1 => Res::Unsat,
                _ => {
                    if let Some(o) = smt {
                        *o = CStr::from_ptr((self.a.Z3_solver_to_string)(self.ctx, s)).to_string_lossy().to_string();
                    }
                    Res::Unknown
                }
            };
            (self.a.Z3_solver_dec_ref)(self.ctx, s);
            let _ = &self.tmp;
            out
        }
    }
}
