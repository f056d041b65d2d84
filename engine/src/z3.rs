//! Z3 through its C API, loaded at run time.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! api {
    ($($f:ident : fn($($t:ty),*) -> $r:ty;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($f: unsafe extern "C" fn($($t),*) -> $r,)* }
        impl Api {
            fn load(h: P) -> Option<Api> {
                unsafe {
                    Some(Api { $($f: {
                        let n = CString::new(concat!("Z3_", stringify!($f))).unwrap();
                        let p = dlsym(h, n.as_ptr());
                        if p.is_null() { eprintln!("missing Z3_{}", stringify!($f)); return None; }
                        std::mem::transmute(p)
                    },)* })
                }
            }
        }
    };
}
api! {
    mk_config: fn() -> P;
    set_param_value: fn(P, *const c_char, *const c_char) -> ();
    mk_context: fn(P) -> P;
    del_context: fn(P) -> ();
    set_error_handler: fn(P, P) -> ();
    mk_string_symbol: fn(P, *const c_char) -> P;
    mk_bv_sort: fn(P, c_uint) -> P;
    mk_bool_sort: fn(P) -> P;
    mk_const: fn(P, P, P) -> P;
    mk_numeral: fn(P, *const c_char, P) -> P;
    mk_unsigned_int64: fn(P, u64, P) -> P;
    mk_true: fn(P) -> P;
    mk_false: fn(P) -> P;
    mk_eq: fn(P, P, P) -> P;
    mk_not: fn(P, P) -> P;
    mk_ite: fn(P, P, P, P) -> P;
    mk_xor: fn(P, P, P) -> P;
    mk_and: fn(P, c_uint, *const P) -> P;
    mk_or: fn(P, c_uint, *const P) -> P;
    mk_bvand: fn(P, P, P) -> P;
    mk_bvor: fn(P, P, P) -> P;
    mk_bvxor: fn(P, P, P) -> P;
    mk_bvadd: fn(P, P, P) -> P;
    mk_bvsub: fn(P, P, P) -> P;
    mk_bvmul: fn(P, P, P) -> P;
    mk_bvudiv: fn(P, P, P) -> P;
    mk_bvurem: fn(P, P, P) -> P;
    mk_bvsdiv: fn(P, P, P) -> P;
    mk_bvsrem: fn(P, P, P) -> P;
    mk_bvshl: fn(P, P, P) -> P;
    mk_bvlshr: fn(P, P, P) -> P;
    mk_bvashr: fn(P, P, P) -> P;
    mk_bvult: fn(P, P, P) -> P;
    mk_bvule: fn(P, P, P) -> P;
    mk_bvuge: fn(P, P, P) -> P;
    mk_bvslt: fn(P, P, P) -> P;
    mk_concat: fn(P, P, P) -> P;
    mk_extract: fn(P, c_uint, c_uint, P) -> P;
    mk_sign_ext: fn(P, c_uint, P) -> P;
    mk_zero_ext: fn(P, c_uint, P) -> P;
    mk_fpa_sort_64: fn(P) -> P;
    mk_fpa_rne: fn(P) -> P;
    mk_fpa_rna: fn(P) -> P;
    mk_fpa_rtz: fn(P) -> P;
    mk_fpa_rtn: fn(P) -> P;
    mk_fpa_rtp: fn(P) -> P;
    mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    mk_fpa_to_ieee_bv: fn(P, P) -> P;
    mk_fpa_add: fn(P, P, P, P) -> P;
    mk_fpa_sub: fn(P, P, P, P) -> P;
    mk_fpa_mul: fn(P, P, P, P) -> P;
    mk_fpa_div: fn(P, P, P, P) -> P;
    mk_fpa_sqrt: fn(P, P, P) -> P;
    mk_fpa_round_to_integral: fn(P, P, P) -> P;
    mk_fpa_abs: fn(P, P) -> P;
    mk_fpa_neg: fn(P, P) -> P;
    mk_fpa_eq: fn(P, P, P) -> P;
    mk_fpa_lt: fn(P, P, P) -> P;
    mk_fpa_gt: fn(P, P, P) -> P;
    mk_fpa_is_nan: fn(P, P) -> P;
    mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    mk_solver_for_logic: fn(P, P) -> P;
    mk_int_sort: fn(P) -> P;
    mk_add: fn(P, c_uint, *const P) -> P;
    mk_mul: fn(P, c_uint, *const P) -> P;
    mk_lt: fn(P, P, P) -> P;
    mk_le: fn(P, P, P) -> P;
    mk_div: fn(P, P, P) -> P;
    mk_mod: fn(P, P, P) -> P;
    solver_inc_ref: fn(P, P) -> ();
    solver_dec_ref: fn(P, P) -> ();
    solver_set_params: fn(P, P, P) -> ();
    solver_assert: fn(P, P, P) -> ();
    solver_check: fn(P, P) -> c_int;
    solver_get_model: fn(P, P) -> P;
    model_inc_ref: fn(P, P) -> ();
    model_dec_ref: fn(P, P) -> ();
    model_eval: fn(P, P, P, bool, *mut P) -> bool;
    get_numeral_string: fn(P, P) -> *const c_char;
    mk_params: fn(P) -> P;
    params_inc_ref: fn(P, P) -> ();
    params_set_uint: fn(P, P, P, c_uint) -> ();
    get_full_version: fn() -> *const c_char;
}

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    /// short timeout
    pub quick: bool,
    /// queries decided as linear integer arithmetic
    pub n_lia: u64,
    lmemo: HashMap<(T, bool), Option<P>>,
    qparams: P,
    a: Api,
    ctx: P,
    memo: HashMap<T, P>,
    fmemo: HashMap<T, P>,
    params: P,
    pub timeout_ms: u32,
    pub queries: u64,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub time: f64,
    pub version: String,
    built: u64,
    has_fp: bool,
}

unsafe extern "C" fn on_err(_c: P, _e: c_int) {
    ERR = true;
}
static mut ERR: bool = false;

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let cands = [
            std::env::var("SYMIR_Z3").unwrap_or_default(),
            "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".to_string(),
            "/usr/lib/x86_64-linux-gnu/libz3.so".to_string(),
            "libz3.so".to_string(),
            "libz3.so.4".to_string(),
        ];
        for c in cands.iter().filter(|c| !c.is_empty()) {
            let n = CString::new(c.as_str()).unwrap();
            let h = unsafe { dlopen(n.as_ptr(), 2) };
            if h.is_null() {
                continue;
            }
            if let Some(a) = Api::load(h) {
                let version = unsafe { std::ffi::CStr::from_ptr((a.get_full_version)()) }.to_string_lossy().into_owned();
                let mut z = Z3 {
                    a,
                    ctx: std::ptr::null_mut(),
                    memo: HashMap::new(),
                    fmemo: HashMap::new(),
                    params: std::ptr::null_mut(),
                    timeout_ms,
                    queries: 0,
                    n_sat: 0,
                    n_unsat: 0,
                    n_unknown: 0,
                    time: 0.0,
                    version,
                    built: 0,
                    has_fp: false,
                    quick: false,
                    n_lia: 0,
                    lmemo: HashMap::new(),
                    qparams: std::ptr::null_mut(),
                };
                z.reset();
                return z;
            }
        }
        eprintln!("symir: no usable libz3");
        std::process::exit(2);
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                (self.a.del_context)(self.ctx);
            }
            let cfg = (self.a.mk_config)();
            self.ctx = (self.a.mk_context)(cfg);
            (self.a.set_error_handler)(self.ctx, on_err as *mut c_void);
            self.params = (self.a.mk_params)(self.ctx);
            (self.a.params_inc_ref)(self.ctx, self.params);
            let n = CString::new("timeout").unwrap();
            let s = (self.a.mk_string_symbol)(self.ctx, n.as_ptr());
            (self.a.params_set_uint)(self.ctx, self.params, s, self.timeout_ms);
            let n = CString::new("random_seed").unwrap();
            let s = (self.a.mk_string_symbol)(self.ctx, n.as_ptr());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u32);
            (self.a.params_set_uint)(self.ctx, self.params, s, seed);
            self.qparams = (self.a.mk_params)(self.ctx);
            (self.a.params_inc_ref)(self.ctx, self.qparams);
            let n = CString::new("timeout").unwrap();
            let s = (self.a.mk_string_symbol)(self.ctx, n.as_ptr());
            (self.a.params_set_uint)(self.ctx, self.qparams, s, 400);
        }
        self.memo.clear();
        self.fmemo.clear();
        self.built = 0;
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let so = (self.a.mk_bv_sort)(self.ctx, w);
            if v <= u64::MAX as u128 {
                (self.a.mk_unsigned_int64)(self.ctx, v as u64, so)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                (self.a.mk_numeral)(self.ctx, s.as_ptr(), so)
            }
        }
    }
    /// boolean term
    fn b(&mut self, t: T) -> P {
        if let Some(p) = self.memo.get(&t) {
            return *p;
        }
        let c = self.ctx;
        let tmr = tm();
        let r = unsafe {
            match tmr.k(t).clone() {
                K::Const(0) => (self.a.mk_false)(c),
                K::Const(_) => (self.a.mk_true)(c),
                K::InSet(v, s) => self.inset(v, &s),
                K::And(x, y) => {
                    let l = [self.b(x), self.b(y)];
                    (self.a.mk_and)(c, 2, l.as_ptr())
                }
                K::Or(x, y) => {
                    let l = [self.b(x), self.b(y)];
                    (self.a.mk_or)(c, 2, l.as_ptr())
                }
                K::Xor(x, 1) => {
                    let x = self.b(x);
                    (self.a.mk_not)(c, x)
                }
                K::Xor(x, y) => {
                    let (x, y) = (self.b(x), self.b(y));
                    (self.a.mk_xor)(c, x, y)
                }
                K::Ite(x, y, z) => {
                    let (x, y, z) = (self.b(x), self.b(y), self.b(z));
                    (self.a.mk_ite)(c, x, y, z)
                }
                K::Eq(x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    (self.a.mk_eq)(c, x, y)
                }
                K::Ult(x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    (self.a.mk_bvult)(c, x, y)
                }
                K::Slt(x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    (self.a.mk_bvslt)(c, x, y)
                }
                K::FCmp(p, x, y) => {
                    let (x, y) = (self.fp(x), self.fp(y));
                    let mut l = vec![];
                    if p & 1 != 0 {
                        l.push((self.a.mk_fpa_eq)(c, x, y));
                    }
                    if p & 2 != 0 {
                        l.push((self.a.mk_fpa_gt)(c, x, y));
                    }
                    if p & 4 != 0 {
                        l.push((self.a.mk_fpa_lt)(c, x, y));
                    }
                    if p & 8 != 0 {
                        l.push((self.a.mk_fpa_is_nan)(c, x));
                        l.push((self.a.mk_fpa_is_nan)(c, y));
                    }
                    (self.a.mk_or)(c, l.len() as u32, l.as_ptr())
                }
                _ => {
                    // any other 1-bit vector
                    let x = self.bv(t);
                    let one = self.num(1, 1);
                    (self.a.mk_eq)(c, x, one)
                }
            }
        };
        self.built += 1;
        self.memo.insert(t, r);
        r
    }
    fn inset(&mut self, v: u32, s: &[u64; 4]) -> P {
        let c = self.ctx;
        let x = self.var(v);
        let inb = |i: usize| s[i >> 6] >> (i & 63) & 1 == 1;
        let mut l = vec![];
        let mut i = 0;
        while i < 256 {
            if inb(i) {
                let j = i;
                while i < 256 && inb(i) {
                    i += 1;
                }
                unsafe {
                    let lo = self.num(j as u128, 8);
                    if i - 1 == j {
                        l.push((self.a.mk_eq)(c, x, lo));
                    } else {
                        let hi = self.num(i as u128 - 1, 8);
                        let ge = (self.a.mk_bvuge)(c, x, lo);
                        let le = (self.a.mk_bvule)(c, x, hi);
                        let p = [ge, le];
                        l.push((self.a.mk_and)(c, 2, p.as_ptr()));
                    }
                }
            } else {
                i += 1;
            }
        }
        unsafe {
            match l.len() {
                0 => (self.a.mk_false)(c),
                1 => l[0],
                n => (self.a.mk_or)(c, n as u32, l.as_ptr()),
            }
        }
    }
    fn var(&mut self, v: u32) -> P {
        let w = tm().vars[v as usize].w;
        let n = CString::new(format!("v{}", v)).unwrap();
        unsafe {
            let s = (self.a.mk_string_symbol)(self.ctx, n.as_ptr());
            let so = (self.a.mk_bv_sort)(self.ctx, w);
            (self.a.mk_const)(self.ctx, s, so)
        }
    }
    fn zx(&mut self, p: P, from: u32, to: u32) -> P {
        if from == to {
            p
        } else if from < to {
            unsafe { (self.a.mk_zero_ext)(self.ctx, to - from, p) }
        } else {
            unsafe { (self.a.mk_extract)(self.ctx, to - 1, 0, p) }
        }
    }
    /// bit-vector view
    fn bv(&mut self, t: T) -> P {
        let tmr = tm();
        let w = tmr.w(t);
        if w == 1 {
            // booleans as 1-bit vectors
            if let K::Ext(a, lo) = *tmr.k(t) {
                let x = self.bv(a);
                return unsafe { (self.a.mk_extract)(self.ctx, lo, lo, x) };
            }
            let b = self.b(t);
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            return unsafe { (self.a.mk_ite)(self.ctx, b, o, z) };
        }
        if let Some(p) = self.memo.get(&t) {
            return *p;
        }
        let c = self.ctx;
        macro_rules! two {
            ($f:ident, $x:expr, $y:expr) => {{
                let (x, y) = (self.bv($x), self.bv($y));
                (self.a.$f)(c, x, y)
            }};
        }
        let r = unsafe {
            match tmr.k(t).clone() {
                K::Const(v) => self.num(v, w),
                K::Var(v) => self.var(v),
                K::Lin(c0, ts) => {
                    let mut acc: Option<P> = None;
                    for (a, k) in ts.iter() {
                        let wa = tmr.w(*a);
                        let x = self.bv(*a);
                        let x = self.zx(x, wa, w);
                        let m = mask(w);
                        let (neg, kk) = if *k > m / 2 { (true, (m - *k + 1) & m) } else { (false, *k) };
                        let y = if kk == 1 {
                            x
                        } else {
                            let kc = self.num(kk, w);
                            (self.a.mk_bvmul)(c, kc, x)
                        };
                        acc = Some(match acc {
                            None => {
                                if neg {
                                    let z = self.num(0, w);
                                    (self.a.mk_bvsub)(c, z, y)
                                } else {
                                    y
                                }
                            }
                            Some(p) => {
                                if neg {
                                    (self.a.mk_bvsub)(c, p, y)
                                } else {
                                    (self.a.mk_bvadd)(c, p, y)
                                }
                            }
                        });
                    }
                    let mut p = acc.unwrap();
                    if c0 != 0 {
                        let kc = self.num(c0, w);
                        p = (self.a.mk_bvadd)(c, p, kc);
                    }
                    p
                }
                K::And(x, y) => two!(mk_bvand, x, y),
                K::Or(x, y) => two!(mk_bvor, x, y),
                K::Xor(x, y) => two!(mk_bvxor, x, y),
                K::Shl(x, y) => two!(mk_bvshl, x, y),
                K::LShr(x, y) => two!(mk_bvlshr, x, y),
                K::AShr(x, y) => two!(mk_bvashr, x, y),
                K::UDiv(x, y) => two!(mk_bvudiv, x, y),
                K::URem(x, y) => two!(mk_bvurem, x, y),
                K::SDiv(x, y) => two!(mk_bvsdiv, x, y),
                K::SRem(x, y) => two!(mk_bvsrem, x, y),
                K::Mul(x, y) => two!(mk_bvmul, x, y),
                K::Ext(x, lo) => {
                    let x = self.bv(x);
                    (self.a.mk_extract)(c, lo + w - 1, lo, x)
                }
                K::SExt(x) => {
                    let wx = tmr.w(x);
                    let x = self.bv(x);
                    (self.a.mk_sign_ext)(c, w - wx, x)
                }
                K::Ite(x, y, z) => {
                    let (x, y, z) = (self.b(x), self.bv(y), self.bv(z));
                    (self.a.mk_ite)(c, x, y, z)
                }
                K::Tab(i, tab) => {
                    let wi = tmr.w(i);
                    let ip = self.bv(i);
                    // group equal values
                    let mut groups: Vec<(u64, Vec<usize>)> = vec![];
                    for (j, v) in tab.iter().enumerate() {
                        if wi < 64 && j >> wi != 0 {
                            break;
                        }
                        match groups.iter_mut().find(|g| g.0 == *v) {
                            Some(g) => g.1.push(j),
                            None => groups.push((*v, vec![j])),
                        }
                    }
                    groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                    let mut acc = self.num(groups[0].0 as u128, w);
                    for (v, idx) in groups.iter().skip(1) {
                        let mut l = vec![];
                        for j in idx {
                            let n = self.num(*j as u128, wi);
                            l.push((self.a.mk_eq)(c, ip, n));
                        }
                        let cnd = (self.a.mk_or)(c, l.len() as u32, l.as_ptr());
                        let n = self.num(*v as u128, w);
                        acc = (self.a.mk_ite)(c, cnd, n, acc);
                    }
                    acc
                }
                K::FToI(s, x) => {
                    self.has_fp = true;
                    let f = self.fp(x);
                    let rm = (self.a.mk_fpa_rtz)(c);
                    // saturation
                    let (lo, hi) = if s {
                        (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1))
                    } else {
                        (-1.0, 2f64.powi(w as i32))
                    };
                    let so = (self.a.mk_fpa_sort_64)(c);
                    let bl = self.num(lo.to_bits() as u128, 64);
                    let bh = self.num(hi.to_bits() as u128, 64);
                    let fl = (self.a.mk_fpa_to_fp_bv)(c, bl, so);
                    let fh = (self.a.mk_fpa_to_fp_bv)(c, bh, so);
                    let v = if s { (self.a.mk_fpa_to_sbv)(c, rm, f, w) } else { (self.a.mk_fpa_to_ubv)(c, rm, f, w) };
                    let vmin = if s { self.num(1u128 << (w - 1), w) } else { self.num(0, w) };
                    let vmax = if s { self.num((1u128 << (w - 1)) - 1, w) } else { self.num(mask(w), w) };
                    let isl = {
                        let g = (self.a.mk_fpa_gt)(c, f, fl);
                        (self.a.mk_not)(c, g)
                    };
                    let ish = {
                        let g = (self.a.mk_fpa_lt)(c, f, fh);
                        (self.a.mk_not)(c, g)
                    };
                    let nan = (self.a.mk_fpa_is_nan)(c, f);
                    let z = self.num(0, w);
                    let r = (self.a.mk_ite)(c, isl, vmin, v);
                    let r = (self.a.mk_ite)(c, ish, vmax, r);
                    (self.a.mk_ite)(c, nan, z, r)
                }
                K::Dec(..) | K::F(..) | K::FU(..) | K::IToF(..) => {
                    let f = self.fp(t);
                    (self.a.mk_fpa_to_ieee_bv)(c, f)
                }
                k => panic!("z3 bv: {:?}", k),
            }
        };
        self.built += 1;
        self.memo.insert(t, r);
        r
    }
    fn fp(&mut self, t: T) -> P {
        self.has_fp = true;
        if let Some(p) = self.fmemo.get(&t) {
            return *p;
        }
        let c = self.ctx;
        let tmr = tm();
        let r = unsafe {
            let so = (self.a.mk_fpa_sort_64)(c);
            let rne = (self.a.mk_fpa_rne)(c);
            match tmr.k(t).clone() {
                K::Dec(k, s) => {
                    let x = self.bv(k);
                    let x = (self.a.mk_fpa_to_fp_signed)(c, rne, x, so);
                    let p = self.num(10f64.powi(s as i32).to_bits() as u128, 64);
                    let p = (self.a.mk_fpa_to_fp_bv)(c, p, so);
                    (self.a.mk_fpa_div)(c, rne, x, p)
                }
                K::F(op, x, y) => {
                    let (x, y) = (self.fp(x), self.fp(y));
                    match op {
                        FB::Add => (self.a.mk_fpa_add)(c, rne, x, y),
                        FB::Sub => (self.a.mk_fpa_sub)(c, rne, x, y),
                        FB::Mul => (self.a.mk_fpa_mul)(c, rne, x, y),
                        FB::Div => (self.a.mk_fpa_div)(c, rne, x, y),
                        FB::Rem => panic!("z3: frem"),
                    }
                }
                K::FU(op, x) => {
                    let x = self.fp(x);
                    match op {
                        FU::Neg => (self.a.mk_fpa_neg)(c, x),
                        FU::Abs => (self.a.mk_fpa_abs)(c, x),
                        FU::Sqrt => (self.a.mk_fpa_sqrt)(c, rne, x),
                        FU::Floor => (self.a.mk_fpa_round_to_integral)(c, (self.a.mk_fpa_rtn)(c), x),
                        FU::Ceil => (self.a.mk_fpa_round_to_integral)(c, (self.a.mk_fpa_rtp)(c), x),
                        FU::Trunc => (self.a.mk_fpa_round_to_integral)(c, (self.a.mk_fpa_rtz)(c), x),
                        FU::Round => (self.a.mk_fpa_round_to_integral)(c, (self.a.mk_fpa_rna)(c), x),
                        FU::RoundEven => (self.a.mk_fpa_round_to_integral)(c, rne, x),
                    }
                }
                K::IToF(s, x) => {
                    let x = self.bv(x);
                    if s {
                        (self.a.mk_fpa_to_fp_signed)(c, rne, x, so)
                    } else {
                        (self.a.mk_fpa_to_fp_unsigned)(c, rne, x, so)
                    }
                }
                K::Ite(x, y, z) => {
                    let (x, y, z) = (self.b(x), self.fp(y), self.fp(z));
                    (self.a.mk_ite)(c, x, y, z)
                }
                _ => {
                    let x = self.bv(t);
                    (self.a.mk_fpa_to_fp_bv)(c, x, so)
                }
            }
        };
        self.fmemo.insert(t, r);
        r
    }
    fn inum(&self, v: i128) -> P {
        unsafe {
            let so = (self.a.mk_int_sort)(self.ctx);
            let s = CString::new(v.to_string()).unwrap();
            (self.a.mk_numeral)(self.ctx, s.as_ptr(), so)
        }
    }
    fn ivar(&mut self, v: u32) -> P {
        let n = CString::new(format!("i{}", v)).unwrap();
        unsafe {
            let s = (self.a.mk_string_symbol)(self.ctx, n.as_ptr());
            (self.a.mk_const)(self.ctx, s, (self.a.mk_int_sort)(self.ctx))
        }
    }
    fn irange(&mut self, x: P, set: &[u64; 4]) -> P {
        let c = self.ctx;
        let inb = |i: usize| set[i >> 6] >> (i & 63) & 1 == 1;
        let mut l = vec![];
        let mut i = 0;
        while i < 256 {
            if inb(i) {
                let j = i;
                while i < 256 && inb(i) {
                    i += 1;
                }
                let (lo, hi) = (self.inum(j as i128), self.inum(i as i128 - 1));
                unsafe {
                    let p = [(self.a.mk_le)(c, lo, x), (self.a.mk_le)(c, x, hi)];
                    l.push((self.a.mk_and)(c, 2, p.as_ptr()));
                }
            } else {
                i += 1;
            }
        }
        unsafe { (self.a.mk_or)(c, l.len() as u32, l.as_ptr()) }
    }
    fn isum(&mut self, c0: i128, ts: &[(T, i128)]) -> Option<P> {
        let mut l = vec![self.inum(c0)];
        for (t, k) in ts {
            let x = self.li(*t)?;
            if *k == 1 {
                l.push(x);
            } else {
                let p = [self.inum(*k), x];
                l.push(unsafe { (self.a.mk_mul)(self.ctx, 2, p.as_ptr()) });
            }
        }
        Some(if l.len() == 1 { l[0] } else { unsafe { (self.a.mk_add)(self.ctx, l.len() as u32, l.as_ptr()) } })
    }
    /// the unsigned value as a mathematical integer
    fn li(&mut self, t: T) -> Option<P> {
        if let Some(p) = self.lmemo.get(&(t, false)) {
            return *p;
        }
        let r = self.li0(t);
        self.lmemo.insert((t, false), r);
        r
    }
    fn li0(&mut self, t: T) -> Option<P> {
        let c = self.ctx;
        let w = tm().w(t);
        if w == 1 {
            let b = self.lb(t)?;
            let (o, z) = (self.inum(1), self.inum(0));
            return Some(unsafe { (self.a.mk_ite)(c, b, o, z) });
        }
        match tm().k(t).clone() {
            K::Const(v) if v <= i128::MAX as u128 => Some(self.inum(v as i128)),
            K::Var(v) => Some(self.ivar(v)),
            K::Lin(..) => {
                if let Some(il) = tm().as_int(t) {
                    return self.isum(il.c, &il.t);
                }
                if w > 120 {
                    return None;
                }
                let (c0, ts) = tm().lin_signed(t);
                let s = self.isum(c0, &ts)?;
                let m = self.inum(1i128 << w);
                Some(unsafe { (self.a.mk_mod)(c, s, m) })
            }
            K::UDiv(a, b) | K::URem(a, b) => {
                let d = tm().cval(b)?;
                if d == 0 || d > i128::MAX as u128 {
                    return None;
                }
                let x = self.li(a)?;
                let d = self.inum(d as i128);
                Some(unsafe {
                    if matches!(tm().k(t), K::UDiv(..)) {
                        (self.a.mk_div)(c, x, d)
                    } else {
                        (self.a.mk_mod)(c, x, d)
                    }
                })
            }
            K::Ext(a, lo) => {
                if lo > 120 || w > 120 {
                    return None;
                }
                let (_, hi) = tm().rng(a);
                let mut x = self.li(a)?;
                if lo > 0 {
                    let d = self.inum(1i128 << lo);
                    x = unsafe { (self.a.mk_div)(c, x, d) };
                }
                if hi >> lo >> w != 0 {
                    let d = self.inum(1i128 << w);
                    x = unsafe { (self.a.mk_mod)(c, x, d) };
                }
                Some(x)
            }
            K::Ite(p, x, y) => {
                let (p, x, y) = (self.lb(p)?, self.li(x)?, self.li(y)?);
                Some(unsafe { (self.a.mk_ite)(c, p, x, y) })
            }
            K::SExt(a) => {
                if w > 120 {
                    return None;
                }
                let x = self.si(a)?;
                let m = self.inum(1i128 << w);
                Some(unsafe { (self.a.mk_mod)(c, x, m) })
            }
            _ => None,
        }
    }
    /// signed value
    fn si(&mut self, t: T) -> Option<P> {
        if let Some(il) = tm().as_sint(t) {
            if il.t.len() != 1 || il.t[0].0 != t {
                return self.isum(il.c, &il.t);
            }
        }
        let w = tm().w(t);
        if w > 120 {
            return None;
        }
        let x = self.li(t)?;
        let (h, m) = (self.inum(1i128 << (w - 1)), self.inum(-(1i128 << w)));
        unsafe {
            let neg = (self.a.mk_le)(self.ctx, h, x);
            let p = [x, m];
            let y = (self.a.mk_add)(self.ctx, 2, p.as_ptr());
            Some((self.a.mk_ite)(self.ctx, neg, y, x))
        }
    }
    fn lb(&mut self, t: T) -> Option<P> {
        if let Some(p) = self.lmemo.get(&(t, true)) {
            return *p;
        }
        let r = self.lb0(t);
        self.lmemo.insert((t, true), r);
        r
    }
    fn lb0(&mut self, t: T) -> Option<P> {
        let c = self.ctx;
        unsafe {
            Some(match tm().k(t).clone() {
                K::Const(0) => (self.a.mk_false)(c),
                K::Const(_) => (self.a.mk_true)(c),
                K::InSet(v, s) => {
                    let x = self.ivar(v);
                    self.irange(x, &s)
                }
                K::And(x, y) => {
                    let l = [self.lb(x)?, self.lb(y)?];
                    (self.a.mk_and)(c, 2, l.as_ptr())
                }
                K::Or(x, y) => {
                    let l = [self.lb(x)?, self.lb(y)?];
                    (self.a.mk_or)(c, 2, l.as_ptr())
                }
                K::Xor(x, 1) => {
                    let x = self.lb(x)?;
                    (self.a.mk_not)(c, x)
                }
                K::Xor(x, y) => {
                    let (x, y) = (self.lb(x)?, self.lb(y)?);
                    (self.a.mk_xor)(c, x, y)
                }
                K::Ite(x, y, z) => {
                    let (x, y, z) = (self.lb(x)?, self.lb(y)?, self.lb(z)?);
                    (self.a.mk_ite)(c, x, y, z)
                }
                K::Eq(x, y) => {
                    let (x, y) = if tm().w(x) == 1 {
                        (self.lb(x)?, self.lb(y)?)
                    } else if let (Some(_), Some(_)) = (tm().as_int(x), tm().as_int(y)) {
                        (self.li(x)?, self.li(y)?)
                    } else {
                        (self.si(x)?, self.si(y)?)
                    };
                    (self.a.mk_eq)(c, x, y)
                }
                K::Ult(x, y) => {
                    let (x, y) = (self.li(x)?, self.li(y)?);
                    (self.a.mk_lt)(c, x, y)
                }
                K::Slt(x, y) => {
                    let (x, y) = (self.si(x)?, self.si(y)?);
                    (self.a.mk_lt)(c, x, y)
                }
                K::Var(v) => {
                    let (x, o) = (self.ivar(v), self.inum(1));
                    (self.a.mk_eq)(c, x, o)
                }
                K::Ext(a, lo) if lo < 120 => {
                    let mut x = self.li(a)?;
                    if lo > 0 {
                        let d = self.inum(1i128 << lo);
                        x = (self.a.mk_div)(c, x, d);
                    }
                    let (two, one) = (self.inum(2), self.inum(1));
                    let x = (self.a.mk_mod)(c, x, two);
                    (self.a.mk_eq)(c, x, one)
                }
                _ => return None,
            })
        }
    }
    /// the same question over mathematical integers (exact: every sum is known not to wrap, or reduced)
    fn check_lia(&mut self, key: &[T], vars: &[u32], ms: u32) -> Res {
        self.lmemo.clear();
        let mut ps = vec![];
        let mut all = true;
        for t in key {
            match self.lb(*t) {
                Some(p) => ps.push(p),
                None => all = false,
            }
        }
        if ps.is_empty() {
            return Res::Unknown;
        }
        for v in vars {
            let w = tm().vars[*v as usize].w;
            let x = self.ivar(*v);
            if w == 8 {
                let d = tm().curdom(*v);
                let p = self.irange(x, &d);
                ps.push(p);
            } else if w <= 120 {
                let (lo, hi) = (self.inum(0), self.inum((1i128 << w) - 1));
                unsafe {
                    ps.push((self.a.mk_le)(self.ctx, lo, x));
                    ps.push((self.a.mk_le)(self.ctx, x, hi));
                }
            } else {
                return Res::Unknown;
            }
        }
        unsafe {
            ERR = false;
            let logic = CString::new("QF_LIA").unwrap();
            let ls = (self.a.mk_string_symbol)(self.ctx, logic.as_ptr());
            let s = (self.a.mk_solver_for_logic)(self.ctx, ls);
            (self.a.solver_inc_ref)(self.ctx, s);
            let prm = (self.a.mk_params)(self.ctx);
            (self.a.params_inc_ref)(self.ctx, prm);
            let n = CString::new("timeout").unwrap();
            let sy = (self.a.mk_string_symbol)(self.ctx, n.as_ptr());
            (self.a.params_set_uint)(self.ctx, prm, sy, ms);
            (self.a.solver_set_params)(self.ctx, s, prm);
            for p in ps {
                (self.a.solver_assert)(self.ctx, s, p);
            }
            let r = (self.a.solver_check)(self.ctx, s);
            let out = match r {
                _ if ERR => Res::Unknown,
                -1 => Res::Unsat,
                1 if all => {
                    let m = (self.a.solver_get_model)(self.ctx, s);
                    (self.a.model_inc_ref)(self.ctx, m);
                    let mut o = vec![];
                    for v in vars {
                        let x = self.ivar(*v);
                        let mut res: P = std::ptr::null_mut();
                        if (self.a.model_eval)(self.ctx, m, x, true, &mut res) && !res.is_null() {
                            let st = std::ffi::CStr::from_ptr((self.a.get_numeral_string)(self.ctx, res));
                            o.push((*v, st.to_str().unwrap_or("0").parse::<u128>().unwrap_or(0)));
                        }
                    }
                    (self.a.model_dec_ref)(self.ctx, m);
                    Res::Sat(o)
                }
                _ => Res::Unknown,
            };
            (self.a.solver_dec_ref)(self.ctx, s);
            out
        }
    }
    /// Satisfiability of the conjunction. `vars`: variables to read back.
    pub fn check(&mut self, cs: &[T]) -> Res {
        let mut key: Vec<T> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if self.built > 400_000 {
            self.reset();
        }
        let t0 = std::time::Instant::now();
        let mut vars: Vec<u32> = vec![];
        for t in &key {
            vars.extend_from_slice(tm().sup(*t));
        }
        vars.sort_unstable();
        vars.dedup();
        self.queries += 1;
        let wide = vars.len() >= 6 || vars.iter().any(|v| tm().vars[*v as usize].w > 8);
        let mut first = Res::Unknown;
        if wide {
            first = self.check_lia(&key, &vars, if self.quick { 200 } else { 400 });
            if !matches!(first, Res::Unknown) {
                self.n_lia += 1;
            }
        }
        let mut res = if !matches!(first, Res::Unknown) { first } else { unsafe {
            ERR = false;
            self.has_fp = false;
            let ps: Vec<P> = key.iter().map(|t| self.b(*t)).collect();
            let mut doms: Vec<P> = vec![];
            for v in &vars {
                let vi = tm().vars[*v as usize].clone();
                if vi.w == 8 && vi.dom != [u64::MAX; 4] {
                    let d = tm().curdom(*v);
                    doms.push(self.inset(*v, &d));
                } else if vi.w == 8 {
                    let d = tm().curdom(*v);
                    if d != [u64::MAX; 4] {
                        doms.push(self.inset(*v, &d));
                    }
                }
            }
            let logic = CString::new(if self.has_fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
            let ls = (self.a.mk_string_symbol)(self.ctx, logic.as_ptr());
            let s = (self.a.mk_solver_for_logic)(self.ctx, ls);
            (self.a.solver_inc_ref)(self.ctx, s);
            (self.a.solver_set_params)(self.ctx, s, if self.quick { self.qparams } else { self.params });
            for p in doms.iter().chain(ps.iter()) {
                (self.a.solver_assert)(self.ctx, s, *p);
            }
            let r = (self.a.solver_check)(self.ctx, s);
            let out = if ERR {
                Res::Unknown
            } else {
                match r {
                    1 => {
                        let m = (self.a.solver_get_model)(self.ctx, s);
                        (self.a.model_inc_ref)(self.ctx, m);
                        let mut o = vec![];
                        for v in &vars {
                            let x = self.var(*v);
                            let mut res: P = std::ptr::null_mut();
                            if (self.a.model_eval)(self.ctx, m, x, true, &mut res) && !res.is_null() {
                                let st = std::ffi::CStr::from_ptr((self.a.get_numeral_string)(self.ctx, res));
                                o.push((*v, st.to_str().unwrap_or("0").parse::<u128>().unwrap_or(0)));
                            }
                        }
                        (self.a.model_dec_ref)(self.ctx, m);
                        Res::Sat(o)
                    }
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                }
            };
            (self.a.solver_dec_ref)(self.ctx, s);
            out
        } };
        if matches!(res, Res::Unknown) && !self.quick {
            res = self.check_lia(&key, &vars, self.timeout_ms);
            if !matches!(res, Res::Unknown) {
                self.n_lia += 1;
            }
        }
        match &res {
            Res::Sat(_) => self.n_sat += 1,
            Res::Unsat => {
                self.n_unsat += 1;
            }
            Res::Unknown => self.n_unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if std::env::var("SYMIR_SLOW").is_ok() && dt > 0.5 {
            eprintln!("slow query {:.2}s {} cons", dt, key.len());
            for t in &key {
                eprintln!("   {}", tm().show(*t, 4));
            }
        }
        res
    }
}
