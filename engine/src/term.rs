//! Hash-consed bit-vector / floating-point terms with a path-aware simplifier.
//!
//! Integers live in linear normal form (`Lin`: constant + sum of coefficient * zero-extended atom)
//! so that decimal / byte-wise encodings and decodings cancel without a solver call; anything that
//! is not decided here goes to Z3 (z3.rs).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type T = u32;

#[derive(Default, Clone)]
pub struct FxHasher(u64);
impl Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type Fx = BuildHasherDefault<FxHasher>;
pub type FxMap<K, V> = HashMap<K, V, Fx>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FU {
    Neg,
    Abs,
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
    Sqrt,
}
/// float comparison predicates (ordered / unordered handled by the bits: 1=eq 2=gt 4=lt 8=uno)
pub type FP = u8;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    /// boolean: 8-bit variable is inside the set
    InSet(u32, [u64; 4]),
    /// constant + sum coef*zext(atom), modulo 2^w
    Lin(u128, Box<[(T, u128)]>),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Mul(T, T),
    Ext(T, u32),
    SExt(T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    /// table lookup by an 8-bit (or narrower) term
    Tab(T, Rc<Vec<u64>>),
    /// f64 nearest to k / 10^s, k signed 64-bit
    Dec(T, u8),
    F(FB, T, T),
    FU(FU, T),
    FCmp(FP, T, T),
    /// saturating float to int (signed?)
    FToI(bool, T),
    /// int to float (signed?)
    IToF(bool, T),
}

pub struct Node {
    pub k: K,
    pub w: u32,
    pub sup: Rc<[u32]>,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u32,
    pub dom: [u64; 4],
    pub list: Rc<Vec<u8>>, // members of dom (8-bit vars)
}

pub struct Tm {
    pub nodes: Vec<Node>,
    map: FxMap<(K, u32), T>,
    pub vars: Vec<VarInfo>,
    /// current path: domains of 8-bit variables
    pub dom: Rc<Vec<[u64; 4]>>,
    /// current path: unsigned interval facts on terms
    pub facts: Rc<FxMap<T, (u128, u128)>>,
    tabs: FxMap<T, Rc<Vec<u64>>>,
    empty: Rc<[u32]>,
    posvars: FxMap<(u32, u32, [u64; 4]), T>,
    pub n_fold_dom: u64,
}

/// affine bound of a double
#[derive(Clone)]
pub struct Aff {
    pub c: f64,
    pub t: Vec<(T, f64)>,
    pub e: f64,
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sgn(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// an exact integer value: c + sum coef*atom, with its range
#[derive(Clone, Debug)]
pub struct IL {
    pub c: i128,
    pub t: Vec<(T, i128)>,
    pub lo: i128,
    pub hi: i128,
}

pub fn pow10(n: u32) -> i128 {
    let mut r = 1i128;
    for _ in 0..n {
        r *= 10;
    }
    r
}

/// nearest double to k/10^s
pub fn dec_to_f64(k: i64, s: u32) -> f64 {
    if k.unsigned_abs() <= (1u64 << 53) && s <= 22 {
        return (k as f64) / 10f64.powi(s as i32);
    }
    format!("{}e-{}", k, s).parse::<f64>().unwrap()
}

fn bit(s: &[u64; 4], i: usize) -> bool {
    s[i >> 6] >> (i & 63) & 1 == 1
}

thread_local! {static TM: std::cell::UnsafeCell<Option<Box<Tm>>> = const { std::cell::UnsafeCell::new(None) };}
static mut TMP: *mut Tm = std::ptr::null_mut();
pub fn tm() -> &'static mut Tm {
    unsafe {
        if TMP.is_null() {
            TMP = Box::into_raw(Box::new(Tm::new()));
        }
        &mut *TMP
    }
}

impl Tm {
    pub fn new() -> Tm {
        let mut t = Tm {
            nodes: vec![],
            map: Default::default(),
            vars: vec![],
            dom: Rc::new(vec![]),
            facts: Default::default(),
            tabs: Default::default(),
            posvars: Default::default(),
            empty: Rc::from(vec![]),
            n_fold_dom: 0,
        };
        t.cst(0, 1);
        t.cst(1, 1);
        t
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    pub fn k(&self, t: T) -> &K {
        &self.nodes[t as usize].k
    }
    pub fn sup(&self, t: T) -> &Rc<[u32]> {
        &self.nodes[t as usize].sup
    }
    pub fn cval(&self, t: T) -> Option<u128> {
        if let K::Const(c) = self.k(t) {
            Some(*c)
        } else {
            None
        }
    }
    pub fn cst(&mut self, v: u128, w: u32) -> T {
        self.intern(K::Const(v & mask(w)), w)
    }
    pub fn tru(&self) -> T {
        1
    }
    pub fn fls(&self) -> T {
        0
    }
    pub fn boolt(&self, b: bool) -> T {
        b as T
    }
    fn children(k: &K) -> ([T; 3], usize) {
        use K::*;
        match k {
            And(a, b) | Or(a, b) | Xor(a, b) | Shl(a, b) | LShr(a, b) | AShr(a, b) | UDiv(a, b) | URem(a, b)
            | SDiv(a, b) | SRem(a, b) | Mul(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b) | F(_, a, b) | FCmp(_, a, b) => {
                ([*a, *b, 0], 2)
            }
            Ext(a, _) | SExt(a) | Tab(a, _) | Dec(a, _) | FU(_, a) | FToI(_, a) | IToF(_, a) => ([*a, 0, 0], 1),
            Ite(a, b, c) => ([*a, *b, *c], 3),
            _ => ([0; 3], 0),
        }
    }
    fn intern(&mut self, k: K, w: u32) -> T {
        let key = (k, w);
        if let Some(t) = self.map.get(&key) {
            return *t;
        }
        let sup: Rc<[u32]> = match &key.0 {
            K::Const(_) => self.empty.clone(),
            K::Var(v) | K::InSet(v, _) => Rc::from(vec![*v]),
            K::Lin(_, ts) => {
                if ts.len() == 1 {
                    self.sup(ts[0].0).clone()
                } else {
                    let mut s: Vec<u32> = vec![];
                    for (t, _) in ts.iter() {
                        s.extend_from_slice(self.sup(*t));
                    }
                    s.sort_unstable();
                    s.dedup();
                    Rc::from(s)
                }
            }
            k => {
                let (c, n) = Self::children(k);
                let mut best: Option<Rc<[u32]>> = None;
                let mut s: Vec<u32> = vec![];
                for t in &c[..n] {
                    let q = self.sup(*t);
                    if q.is_empty() {
                        continue;
                    }
                    match &best {
                        None if s.is_empty() => best = Some(q.clone()),
                        Some(b) => {
                            if b[..] != q[..] {
                                s.extend_from_slice(b);
                                s.extend_from_slice(q);
                                best = None
                            }
                        }
                        None => s.extend_from_slice(q),
                    }
                }
                if let Some(b) = best {
                    if s.is_empty() {
                        b
                    } else {
                        s.extend_from_slice(&b);
                        s.sort_unstable();
                        s.dedup();
                        Rc::from(s)
                    }
                } else if s.is_empty() {
                    self.empty.clone()
                } else {
                    s.sort_unstable();
                    s.dedup();
                    Rc::from(s)
                }
            }
        };
        let t = self.nodes.len() as T;
        self.nodes.push(Node { k: key.0.clone(), w, sup });
        self.map.insert(key, t);
        t
    }
    /// a node as written, not simplified
    pub fn raw(&mut self, k: K, w: u32) -> T {
        self.intern(k, w)
    }
    pub fn new_var(&mut self, w: u32, dom: [u64; 4]) -> T {
        let id = self.vars.len() as u32;
        let list: Vec<u8> = if w == 8 { (0..256).filter(|i| bit(&dom, *i)).map(|i| i as u8).collect() } else { vec![] };
        self.vars.push(VarInfo { w, dom, list: Rc::new(list) });
        self.intern(K::Var(id), w)
    }
    /// the variable at path position `i` with this width and domain (shared between paths when equal)
    pub fn var_at(&mut self, i: u32, w: u32, dom: [u64; 4]) -> T {
        if let Some(t) = self.posvars.get(&(i, w, dom)) {
            return *t;
        }
        let t = self.new_var(w, dom);
        self.posvars.insert((i, w, dom), t);
        t
    }
    pub fn var_term(&mut self, v: u32) -> T {
        let w = self.vars[v as usize].w;
        self.intern(K::Var(v), w)
    }
    /// one 8-bit variable of support?
    fn one_var(&self, t: T) -> Option<u32> {
        let s = self.sup(t);
        if s.len() == 1 && self.vars[s[0] as usize].w == 8 {
            Some(s[0])
        } else {
            None
        }
    }
    pub fn curdom(&self, v: u32) -> [u64; 4] {
        match self.dom.get(v as usize) {
            Some(d) => *d,
            None => self.vars[v as usize].dom,
        }
    }
    /// table of values over the variable's initial domain list
    fn table(&mut self, t: T) -> Option<Rc<Vec<u64>>> {
        if let Some(x) = self.tabs.get(&t) {
            return Some(x.clone());
        }
        let v = self.one_var(t)?;
        if self.w(t) > 64 {
            return None;
        }
        let list = self.vars[v as usize].list.clone();
        let n = list.len();
        let k = self.k(t).clone();
        let out: Vec<u64> = match &k {
            K::Var(_) => list.iter().map(|x| *x as u64).collect(),
            K::InSet(_, s) => list.iter().map(|x| bit(s, *x as usize) as u64).collect(),
            K::Lin(c, ts) => {
                let mut o = vec![*c as u64; n];
                for (a, co) in ts.iter() {
                    let ta = self.table(*a)?;
                    for i in 0..n {
                        o[i] = o[i].wrapping_add(ta[i].wrapping_mul(*co as u64));
                    }
                }
                let m = mask(self.w(t)) as u64;
                for x in o.iter_mut() {
                    *x &= m
                }
                o
            }
            _ => {
                let (c, nc) = Self::children(&k);
                let mut tabs: Vec<Rc<Vec<u64>>> = vec![];
                for a in &c[..nc] {
                    if let Some(cv) = self.cval(*a) {
                        if self.w(*a) > 64 {
                            return None;
                        }
                        tabs.push(Rc::new(vec![cv as u64; n]));
                    } else {
                        tabs.push(self.table(*a)?);
                    }
                }
                let w = self.w(t);
                let ws: Vec<u32> = c[..nc].iter().map(|a| self.w(*a)).collect();
                let mut o = Vec::with_capacity(n);
                for i in 0..n {
                    let mut args = [0u128; 3];
                    for j in 0..nc {
                        args[j] = tabs[j][i] as u128;
                    }
                    o.push(eval_op(&k, w, &ws, &args) as u64);
                }
                o
            }
        };
        let r = Rc::new(out);
        self.tabs.insert(t, r.clone());
        Some(r)
    }
    /// build a node, then apply domain based folding
    fn mk(&mut self, k: K, w: u32) -> T {
        // all-constant children
        let (c, n) = Self::children(&k);
        if n > 0 && c[..n].iter().all(|t| matches!(self.k(*t), K::Const(_))) {
            let ws: Vec<u32> = c[..n].iter().map(|a| self.w(*a)).collect();
            let mut args = [0u128; 3];
            for j in 0..n {
                args[j] = self.cval(c[j]).unwrap();
            }
            let v = eval_op(&k, w, &ws, &args);
            return self.cst(v, w);
        }
        let t = self.intern(k, w);
        self.fold1(t)
    }
    fn fold1(&mut self, t: T) -> T {
        let v = match self.one_var(t) {
            Some(v) => v,
            None => return t,
        };
        if matches!(self.k(t), K::Var(_)) {
            return t;
        }
        let w = self.w(t);
        let dom = self.curdom(v);
        if let K::InSet(_, s) = self.k(t) {
            let s = *s;
            let mut any = 0;
            let mut all = 0;
            for i in 0..4 {
                any |= s[i] & dom[i];
                all |= dom[i] & !s[i];
            }
            if any == 0 {
                return 0;
            }
            if all == 0 {
                return 1;
            }
            return t;
        }
        let tab = match self.table(t) {
            Some(x) => x,
            None => return t,
        };
        let list = self.vars[v as usize].list.clone();
        if w == 1 {
            let mut s = [0u64; 4];
            for (i, x) in list.iter().enumerate() {
                if tab[i] & 1 == 1 {
                    s[*x as usize >> 6] |= 1 << (*x & 63);
                }
            }
            let n = self.intern(K::InSet(v, s), 1);
            return self.fold1(n);
        }
        // constant / affine over the current domain
        let mut first: Option<(u64, u64)> = None;
        let mut slope: Option<u64> = None;
        let m = mask(w) as u64;
        let mut affine = true;
        let mut constant = true;
        for (i, x) in list.iter().enumerate() {
            if !bit(&dom, *x as usize) {
                continue;
            }
            let y = tab[i];
            match first {
                None => first = Some((*x as u64, y)),
                Some((x0, y0)) => {
                    if y != y0 {
                        constant = false;
                    }
                    match slope {
                        None => {
                            // only accept unit steps to define the slope exactly
                            let dx = *x as u64 - x0;
                            let dy = y.wrapping_sub(y0) & m;
                            let sdy = sgn(dy as u128, w);
                            if sdy % dx as i128 == 0 {
                                slope = Some((sdy / dx as i128) as u64 & m);
                            } else {
                                affine = false;
                            }
                        }
                        Some(s) => {
                            if y0.wrapping_add(s.wrapping_mul(*x as u64 - x0)) & m != y {
                                affine = false;
                            }
                        }
                    }
                }
            }
            if !affine && !constant {
                break;
            }
        }
        let (x0, y0) = match first {
            None => return t,
            Some(x) => x,
        };
        if constant {
            return self.cst(y0 as u128, w);
        }
        let single = matches!(self.k(t), K::Lin(_, ts) if ts.len() == 1 && matches!(self.k(ts[0].0), K::Var(_)));
        if affine && !single && !matches!(self.k(t), K::Dec(..) | K::IToF(..) | K::F(..) | K::FU(..)) {
            let s = slope.unwrap();
            let c = y0.wrapping_sub(s.wrapping_mul(x0)) & m;
            let var = self.intern(K::Var(v), 8);
            if w < 8 {
                return t;
            }
            return self.lin(c as u128, vec![(var, s as u128)], w);
        }
        t
    }

    // ---------- ranges ----------
    /// unsigned range
    pub fn rng(&mut self, t: T) -> (u128, u128) {
        let r = self.rng0(t, 0);
        if let Some(f) = self.facts.get(&t) {
            return (r.0.max(f.0), r.1.min(f.1));
        }
        r
    }
    fn rng0(&mut self, t: T, depth: u32) -> (u128, u128) {
        let w = self.w(t);
        let full = (0, mask(w));
        if depth > 24 {
            return full;
        }
        let r = match self.k(t).clone() {
            K::Const(c) => (c, c),
            K::Var(v) => {
                if w == 8 {
                    let d = self.curdom(v);
                    let mut lo = 0;
                    while lo < 255 && !bit(&d, lo) {
                        lo += 1
                    }
                    let mut hi = 255;
                    while hi > 0 && !bit(&d, hi) {
                        hi -= 1
                    }
                    (lo as u128, hi as u128)
                } else {
                    full
                }
            }
            K::InSet(..) => full,
            K::Lin(..) => match self.as_int(t) {
                Some(il) => (il.lo as u128, il.hi as u128),
                None => full,
            },
            _ => {
                if let Some(v) = self.one_var(t) {
                    if let Some(tab) = self.table(t) {
                        let dom = self.curdom(v);
                        let list = self.vars[v as usize].list.clone();
                        let (mut lo, mut hi) = (u128::MAX, 0u128);
                        for (i, x) in list.iter().enumerate() {
                            if bit(&dom, *x as usize) {
                                lo = lo.min(tab[i] as u128);
                                hi = hi.max(tab[i] as u128);
                            }
                        }
                        if lo <= hi {
                            return (lo, hi);
                        }
                    }
                }
                match self.k(t).clone() {
                    K::And(a, b) => {
                        let (x, y) = (self.rngd(a, depth), self.rngd(b, depth));
                        let bits = |h: u128| mask(128 - h.leading_zeros());
                        let mut m = bits(x.1) & bits(y.1);
                        for t in [a, b] {
                            if let Some(c) = self.cval(t) {
                                m &= c;
                            }
                        }
                        (0, x.1.min(y.1).min(m))
                    }
                    K::Or(a, b) | K::Xor(a, b) => {
                        let (x, y) = (self.rngd(a, depth), self.rngd(b, depth));
                        let m = x.1.max(y.1);
                        let bits = 128 - m.leading_zeros();
                        (0, mask(bits))
                    }
                    K::UDiv(a, b) => {
                        let (x, y) = (self.rngd(a, depth), self.rngd(b, depth));
                        if y.0 > 0 {
                            (x.0 / y.1, x.1 / y.0)
                        } else {
                            full
                        }
                    }
                    K::URem(a, b) => {
                        let (x, y) = (self.rngd(a, depth), self.rngd(b, depth));
                        if y.0 == y.1 && y.0 > 0 && x.0 / y.0 == x.1 / y.0 {
                            (x.0 % y.0, x.1 % y.0)
                        } else if y.0 > 0 {
                            (0, x.1.min(y.1 - 1))
                        } else {
                            full
                        }
                    }
                    K::LShr(a, b) => {
                        let (x, y) = (self.rngd(a, depth), self.rngd(b, depth));
                        if y.0 < w as u128 {
                            (0, x.1 >> y.0)
                        } else {
                            (0, x.1)
                        }
                    }
                    K::Ext(a, lo) => {
                        let x = self.rngd(a, depth);
                        if lo == 0 && x.1 <= mask(w) {
                            x
                        } else if x.1 >> lo <= mask(w) {
                            (x.0 >> lo, x.1 >> lo)
                        } else {
                            full
                        }
                    }
                    K::Ite(_, a, b) => {
                        let (x, y) = (self.rngd(a, depth), self.rngd(b, depth));
                        (x.0.min(y.0), x.1.max(y.1))
                    }
                    K::Tab(_, tab) => {
                        let lo = *tab.iter().min().unwrap() as u128;
                        let hi = *tab.iter().max().unwrap() as u128;
                        (lo, hi)
                    }
                    K::SExt(a) => {
                        let x = self.rngd(a, depth);
                        let wa = self.w(a);
                        if x.1 < 1u128 << (wa - 1) {
                            x
                        } else {
                            full
                        }
                    }
                    _ => full,
                }
            }
        };
        r
    }
    fn rngd(&mut self, t: T, depth: u32) -> (u128, u128) {
        let r = self.rng0(t, depth + 1);
        if let Some(f) = self.facts.get(&t) {
            return (r.0.max(f.0), r.1.min(f.1));
        }
        r
    }
    /// integer range of a formal sum
    fn il_range(&mut self, c: i128, ts: &[(T, i128)]) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (c, c);
        for (t, k) in ts {
            let (a, b) = self.rng(*t);
            if b > i128::MAX as u128 {
                return None;
            }
            let (x, y) = (k.checked_mul(a as i128)?, k.checked_mul(b as i128)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    pub fn lin_signed(&self, t: T) -> (i128, Vec<(T, i128)>) {
        let w = self.w(t);
        match self.k(t) {
            K::Const(c) => (sgn(*c, w), vec![]),
            K::Lin(c, ts) => (sgn(*c, w), ts.iter().map(|(t, k)| (*t, sgn(*k, w))).collect()),
            _ => (0, vec![(t, 1)]),
        }
    }
    /// the unsigned value of t as an exact integer sum (None if it may wrap)
    pub fn as_int(&mut self, t: T) -> Option<IL> {
        let w = self.w(t);
        if let K::Const(c) = self.k(t) {
            if *c > i128::MAX as u128 {
                return None;
            }
            let c = *c as i128;
            return Some(IL { c, t: vec![], lo: c, hi: c });
        }
        if let K::Lin(..) = self.k(t) {
            let (c, ts) = self.lin_signed(t);
            let (lo, hi) = self.il_range(c, &ts)?;
            if w >= 127 {
                let (lo, hi) = self.clampf(t, lo, hi);
                return if lo >= 0 { Some(IL { c, t: ts, lo, hi }) } else { None };
            }
            let m = 1i128 << w;
            let q = lo.div_euclid(m);
            if hi.div_euclid(m) == q {
                let (lo, hi) = self.clampf(t, lo - q * m, hi - q * m);
                return Some(IL { c: c - q * m, t: ts, lo, hi });
            }
            // an interval fact may still exclude wrapping
            if let Some(f) = self.facts.get(&t).copied() {
                // value v = s - q*m for some q; the fact bounds v; only useful if a single q fits
                let (flo, fhi) = (f.0 as i128, f.1 as i128);
                let mut ok = None;
                let mut cnt = 0;
                for qq in lo.div_euclid(m)..=hi.div_euclid(m) {
                    let (l, h) = ((lo - qq * m).max(0).max(flo), (hi - qq * m).min(m - 1).min(fhi));
                    if l <= h {
                        cnt += 1;
                        ok = Some((qq, l, h));
                    }
                    if cnt > 1 || qq - lo.div_euclid(m) > 8 {
                        return None;
                    }
                }
                if let (1, Some((qq, l, h))) = (cnt, ok) {
                    return Some(IL { c: c - qq * m, t: ts, lo: l, hi: h });
                }
            }
            return None;
        }
        let (lo, hi) = self.rng(t);
        if hi > i128::MAX as u128 {
            return None;
        }
        Some(IL { c: 0, t: vec![(t, 1)], lo: lo as i128, hi: hi as i128 })
    }
    fn clampf(&self, t: T, lo: i128, hi: i128) -> (i128, i128) {
        if let Some(f) = self.facts.get(&t) {
            (lo.max(f.0.min(i128::MAX as u128) as i128), hi.min(f.1.min(i128::MAX as u128) as i128))
        } else {
            (lo, hi)
        }
    }
    /// the signed value of t as an exact integer sum
    pub fn as_sint(&mut self, t: T) -> Option<IL> {
        let w = self.w(t);
        if let K::Const(c) = self.k(t) {
            let c = sgn(*c, w);
            return Some(IL { c, t: vec![], lo: c, hi: c });
        }
        if let K::SExt(a) = self.k(t) {
            let a = *a;
            if let Some(il) = self.as_sint(a) {
                return Some(il);
            }
        }
        if let K::Lin(..) = self.k(t) {
            let (c, ts) = self.lin_signed(t);
            let (lo, hi) = self.il_range(c, &ts)?;
            if w >= 127 {
                return Some(IL { c, t: ts, lo, hi });
            }
            let m = 1i128 << w;
            let h = m >> 1;
            let q = (lo + h).div_euclid(m);
            if (hi + h).div_euclid(m) == q {
                return Some(IL { c: c - q * m, t: ts, lo: lo - q * m, hi: hi - q * m });
            }
            let (lo, hi) = self.rng(t);
            if w < 127 && hi < 1u128 << (w - 1) {
                return self.as_int(t);
            }
            let _ = lo;
            return None;
        }
        let (lo, hi) = self.rng(t);
        if w < 128 && hi < 1u128 << (w - 1) {
            return Some(IL { c: 0, t: vec![(t, 1)], lo: lo as i128, hi: hi as i128 });
        }
        if w < 127 && lo >= 1u128 << (w - 1) {
            let m = 1i128 << w;
            return Some(IL { c: -m, t: vec![(t, 1)], lo: lo as i128 - m, hi: hi as i128 - m });
        }
        None
    }
    /// signed range
    pub fn srng(&mut self, t: T) -> (i128, i128) {
        let w = self.w(t);
        match self.as_sint(t) {
            Some(il) => (il.lo, il.hi),
            None => {
                if w >= 128 {
                    (i128::MIN, i128::MAX)
                } else {
                    (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
                }
            }
        }
    }
    fn from_il(&mut self, c: i128, ts: &[(T, i128)], w: u32) -> T {
        let mut v = vec![];
        for (t, k) in ts {
            let t2 = if self.w(*t) > w { self.ext(*t, 0, w) } else { *t };
            v.push((t2, *k as u128));
        }
        self.lin(c as u128, v, w)
    }

    /// x % d (possibly seen through a value preserving truncation)
    fn digit_of(&self, t: T) -> Option<(T, u128)> {
        let t = self.core(t);
        match self.k(t) {
            K::URem(a, b) => self.cval(*b).map(|d| (*a, d)),
            _ => None,
        }
    }
    /// the wider term a value preserving truncation comes from (only for remainders and quotients)
    fn core(&self, t: T) -> T {
        if let K::Ext(a, 0) = self.k(t) {
            match self.k(*a) {
                K::URem(_, b) => {
                    if let Some(d) = self.cval(*b) {
                        if d > 0 && d - 1 <= mask(self.w(t)) {
                            return *a;
                        }
                    }
                }
                _ => {}
            }
        }
        t
    }
    fn join_digits(&mut self, c: &mut u128, out: &mut Vec<(T, u128)>, w: u32) -> bool {
        let m = mask(w);
        for i in 0..out.len() {
            let (t, k) = out[i];
            let Some((a, d)) = self.digit_of(t) else { continue };
            let at = |s: &mut Tm| if s.w(a) > w { s.ext(a, 0, w) } else { a };
            let (lo, hi) = self.rng(a);
            if lo / d == hi / d {
                // a % d is a - j*d
                *c = c.wrapping_sub((lo / d).wrapping_mul(d).wrapping_mul(k)) & m;
                out[i] = (at(self), k);
                return true;
            }
            let dt = self.cst(d, self.w(a));
            let mut q = self.udiv(a, dt);
            let kd = k.wrapping_mul(d) & m;
            let mut hit = None;
            let mut qc = 0;
            if let K::Lin(c2, ts) = self.k(q).clone() {
                // q + c2 (no wrap: quotients are bounded)
                if ts.len() == 1 && ts[0].1 == 1 {
                    if let Some(il) = self.as_int(q) {
                        if il.t.len() == 1 && il.t[0].1 == 1 && il.c >= 0 && c2 as i128 == il.c {
                            q = il.t[0].0;
                            qc = c2;
                        }
                    }
                }
            }
            for (j, (u, ku)) in out.iter().enumerate() {
                if *ku != kd || j == i {
                    continue;
                }
                let same = *u == q
                    || self.core(*u) == q
                    || match self.k(*u) {
                        K::Ext(x, 0) if *x == q => self.rng(q).1 <= mask(self.w(*u)),
                        _ => false,
                    };
                if same {
                    hit = Some(j);
                    break;
                }
            }
            if let Some(j) = hit {
                // k*(a%d) + kd*u, where a/d is u + qc
                *c = c.wrapping_sub(qc.wrapping_mul(kd)) & m;
                out[i] = (at(self), k);
                out.remove(j);
                return true;
            }
        }
        false
    }

    // ---------- constructors ----------
    pub fn lin(&mut self, c: u128, ts: Vec<(T, u128)>, w: u32) -> T {
        let m = mask(w);
        if w == 1 {
            // xor
            let mut r = self.cst(c & 1, 1);
            for (t, k) in ts {
                if k & 1 == 1 {
                    r = self.xor(r, t);
                }
            }
            return r;
        }
        let mut c = c & m;
        let mut acc: Vec<(T, u128)> = Vec::with_capacity(ts.len());
        let mut stack = ts;
        while let Some((t, k)) = stack.pop() {
            let k = k & m;
            if k == 0 {
                continue;
            }
            match self.k(t) {
                K::Const(v) => c = c.wrapping_add(v.wrapping_mul(k)) & m,
                K::Lin(c2, ts2) if self.w(t) == w => {
                    let c2 = *c2;
                    for (a, k2) in ts2.iter() {
                        stack.push((*a, k2.wrapping_mul(k) & m));
                    }
                    c = c.wrapping_add(c2.wrapping_mul(k)) & m;
                }
                K::Lin(..) => {
                    // narrower: expand if it cannot wrap
                    match self.as_int(t) {
                        Some(il) => {
                            for (a, k2) in il.t.iter() {
                                stack.push((*a, (*k2 as u128).wrapping_mul(k) & m));
                            }
                            c = c.wrapping_add((il.c as u128).wrapping_mul(k)) & m;
                        }
                        None => acc.push((t, k)),
                    }
                }
                _ => acc.push((t, k)),
            }
        }
        acc.sort_unstable_by_key(|x| x.0);
        let mut out: Vec<(T, u128)> = Vec::with_capacity(acc.len());
        for (t, k) in acc {
            match out.last_mut() {
                Some(l) if l.0 == t => l.1 = l.1.wrapping_add(k) & m,
                _ => out.push((t, k)),
            }
        }
        out.retain(|x| x.1 != 0);
        // singletons by domain
        let mut i = 0;
        while i < out.len() {
            let (t, k) = out[i];
            if let Some(v) = self.one_var(t) {
                let d = self.curdom(v);
                if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                    let (lo, _) = self.rng(t);
                    c = c.wrapping_add(lo.wrapping_mul(k)) & m;
                    out.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        if !self.facts.is_empty() {
            let mut i = 0;
            while i < out.len() {
                match self.facts.get(&out[i].0) {
                    Some((l, h)) if l == h => {
                        c = c.wrapping_add(l.wrapping_mul(out[i].1)) & m;
                        out.remove(i);
                    }
                    _ => i += 1,
                }
            }
        }
        // q*(x % d) + q*d*(x / d) is q*x
        if w > 8 && out.iter().any(|x| self.digit_of(x.0).is_some()) && self.join_digits(&mut c, &mut out, w) {
            return self.lin(c, out, w);
        }
        // adjacent parts of one value
        if out.len() > 1 && out.len() <= 16 {
            for i in 0..out.len() {
                let K::Ext(a, l0) = *self.k(out[i].0) else { continue };
                let w0 = self.w(out[i].0);
                for j in 0..out.len() {
                    let K::Ext(b, l1) = *self.k(out[j].0) else { continue };
                    let w1 = self.w(out[j].0);
                    if a == b && l1 == l0 + w0 && w0 + w1 <= w && out[i].1 <= m >> w0 && out[j].1 == out[i].1 << w0 {
                        let t = self.ext(a, l0, w0 + w1);
                        let k = out[i].1;
                        out.remove(i.max(j));
                        out.remove(i.min(j));
                        out.push((t, k));
                        return self.lin(c, out, w);
                    }
                }
            }
        }
        // the same, the low part having been reduced on its own
        if out.len() > 1 && out.len() <= 24 {
            for j in 0..out.len() {
                let K::Ext(b, l1) = *self.k(out[j].0) else { continue };
                if l1 == 0 {
                    continue;
                }
                let w1 = self.w(out[j].0);
                for i in 0..out.len() {
                    let w0 = self.w(out[i].0);
                    if i == j || w0 > l1 || w0 + w1 > w || !matches!(self.k(out[i].0), K::Lin(..) | K::And(..)) {
                        continue;
                    }
                    if out[i].1 > m >> w0 || out[j].1 != out[i].1 << w0 {
                        continue;
                    }
                    if self.ext(b, l1 - w0, w0) == out[i].0 {
                        let t = self.ext(b, l1 - w0, w0 + w1);
                        let k = out[i].1;
                        out.remove(i.max(j));
                        out.remove(i.min(j));
                        out.push((t, k));
                        return self.lin(c, out, w);
                    }
                }
            }
        }
        if out.is_empty() {
            return self.cst(c, w);
        }
        if c == 0 && out.len() == 1 && out[0].1 == 1 && self.w(out[0].0) == w {
            return out[0].0;
        }
        let n = out.len();
        let t = self.intern(K::Lin(c, out.into_boxed_slice()), w);
        if n > 1 {
            return self.fold1(t);
        }
        t
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.lin(0, vec![(a, 1), (b, 1)], w)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.lin(0, vec![(a, 1), (b, mask(w))], w)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        if let Some(c) = self.cval(a) {
            return self.lin(0, vec![(b, c)], w);
        }
        if let Some(c) = self.cval(b) {
            return self.lin(0, vec![(a, c)], w);
        }
        // distribute over ite of constants
        for (x, y) in [(a, b), (b, a)] {
            if let K::Ite(c, p, q) = self.k(x).clone() {
                if self.cval(p).is_some() && self.cval(q).is_some() {
                    let (r, s) = (self.mul(p, y), self.mul(q, y));
                    return self.ite(c, r, s);
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::Mul(a, b), w)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if w == 1 {
            match self.k(a).clone() {
                K::Const(c) => return (c == 0) as T,
                K::InSet(v, s) => {
                    let d = self.vars[v as usize].dom;
                    let n = [!s[0] & d[0], !s[1] & d[1], !s[2] & d[2], !s[3] & d[3]];
                    let t = self.intern(K::InSet(v, n), 1);
                    return self.fold1(t);
                }
                K::Xor(x, 1) => return x,
                _ => return self.intern(K::Xor(a, 1), 1),
            }
        }
        self.lin(mask(w), vec![(a, mask(w))], w)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        let w = self.w(a);
        let (a, b) = match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.cst(x & y, w),
            (Some(_), None) => (b, a),
            (None, Some(_)) => (a, b),
            _ => {
                if a < b {
                    (a, b)
                } else {
                    (b, a)
                }
            }
        };
        if let (K::Tab(i, tab), Some(m)) = (self.k(a).clone(), self.cval(b)) {
            let tab = tab.iter().map(|x| x & m as u64).collect();
            return self.tab(i, tab, w);
        }
        if w == 1 {
            if b == 1 {
                return a;
            }
            if b == 0 {
                return 0;
            }
            if a == 1 {
                return b;
            }
            if a == 0 {
                return 0;
            }
            if let (K::InSet(v, s), K::InSet(v2, s2)) = (self.k(a).clone(), self.k(b).clone()) {
                if v == v2 {
                    let n = [s[0] & s2[0], s[1] & s2[1], s[2] & s2[2], s[3] & s2[3]];
                    let t = self.intern(K::InSet(v, n), 1);
                    return self.fold1(t);
                }
            }
            if self.not(a) == b {
                return 0;
            }
            // absorption
            for (x, y) in [(a, b), (b, a)] {
                if let K::And(p, q) = *self.k(x) {
                    if p == y || q == y {
                        return x;
                    }
                    let ny = self.not(y);
                    if p == ny || q == ny {
                        return 0;
                    }
                }
                if let K::Or(p, q) = *self.k(x) {
                    if p == y || q == y {
                        return y;
                    }
                }
            }
            return self.mk(K::And(a, b), 1);
        }
        if let Some(c) = self.cval(b) {
            return self.and_const(a, c, w);
        }
        self.mk(K::And(a, b), w)
    }
    /// if the unsigned value of t is a sum of bit-disjoint pieces: (atom, shift)
    fn disjoint_parts(&mut self, t: T) -> Option<(u128, Vec<(T, u32)>)> {
        let il = self.as_int(t)?;
        if il.c < 0 {
            return None;
        }
        let mut used = il.c as u128;
        let mut out = vec![];
        for (a, k) in il.t.iter() {
            if *k <= 0 || k & (k - 1) != 0 {
                return None;
            }
            let s = k.trailing_zeros();
            let (_, hi) = self.rng(*a);
            let bits = 128 - hi.leading_zeros();
            if bits + s > 127 {
                return None;
            }
            let m = mask(bits) << s;
            if used & m != 0 {
                return None;
            }
            used |= m;
            out.push((*a, s));
        }
        Some((il.c as u128, out))
    }
    /// bits that may be set, one byte at a time (None: not a sum of separate bytes)
    fn byte_bits(&mut self, t: T, depth: u32) -> Option<u128> {
        let w = self.w(t);
        if w > 64 || w % 8 != 0 || depth > 8 {
            return None;
        }
        match self.k(t).clone() {
            K::Const(c) => Some(c),
            K::Or(a, b) => Some(self.byte_bits(a, depth + 1)? | self.byte_bits(b, depth + 1)?),
            K::And(a, b) => Some(self.byte_bits(a, depth + 1)? & self.byte_bits(b, depth + 1)?),
            K::Lin(c, ts) => {
                let mut lo = [0i128; 8];
                let mut hi = [0i128; 8];
                for (a, k) in ts.iter() {
                    let k = sgn(*k, w);
                    let j = (k.trailing_zeros() / 8) as usize;
                    if j >= 8 {
                        return None;
                    }
                    let q = k >> (8 * j);
                    let (l, h) = self.rng(*a);
                    if !(-255..=255).contains(&q) || h > 1 << 40 {
                        return None;
                    }
                    let (l, h) = (q * l as i128, q * h as i128);
                    lo[j] += l.min(h);
                    hi[j] += l.max(h);
                }
                let mut r = 0;
                let mut c = sgn(c, w);
                for j in 0..(w as usize / 8) {
                    let x = c & 0xff;
                    let (l, h) = (lo[j] + x, hi[j] + x);
                    let m = l.div_euclid(256);
                    if h.div_euclid(256) != m {
                        return None;
                    }
                    let (l, h) = ((l - m * 256) as u128, (h - m * 256) as u128);
                    let top = if l == h { l } else { l | mask(128 - (l ^ h).leading_zeros()) };
                    r |= top << (8 * j);
                    c = (c >> 8) + m;
                }
                Some(r & mask(w))
            }
            _ => {
                let h = self.rng(t).1;
                Some(mask(128 - h.leading_zeros()))
            }
        }
    }
    fn and_const(&mut self, a: T, c: u128, w: u32) -> T {
        let c = c & mask(w);
        if let Some(m) = self.byte_bits(a, 0) {
            if m & c == 0 {
                return self.cst(0, w);
            }
        }
        if c == 0 {
            return self.cst(0, w);
        }
        if c == mask(w) {
            return a;
        }
        let (_, hi) = self.rng(a);
        let bits = 128 - hi.leading_zeros();
        if mask(bits) & !c == 0 {
            return a;
        }
        match self.k(a).clone() {
            K::Ite(x, p, q) if self.cval(p).is_some() || self.cval(q).is_some() => {
                let (p, q) = (self.and_const(p, c, w), self.and_const(q, c, w));
                return self.ite(x, p, q);
            }
            K::And(x, y) => {
                if let Some(c2) = self.cval(y) {
                    return self.and_const(x, c & c2, w);
                }
            }
            _ => {}
        }
        if let Some((cc, parts)) = self.disjoint_parts(a) {
            if parts.len() > 1 || cc != 0 || (parts.len() == 1 && parts[0].1 != 0) || self.w(parts[0].0) != w {
                let mut ts = vec![];
                for (t, s) in parts {
                    let wt = self.w(t);
                    let m = (c >> s) & mask(wt);
                    if m == 0 {
                        continue;
                    }
                    let p = if self.w(t) == 1 { t } else { self.and_const(t, m, wt) };
                    ts.push((p, 1u128 << s));
                }
                return self.lin(cc & c, ts, w);
            }
        }
        if c & (c + 1) == 0 {
            // low mask: remainder
            let n = c.count_ones();
            let r = self.ext(a, 0, n);
            if !matches!(self.k(r), K::Ext(..)) {
                return self.zext(r, w);
            }
        }
        let cc = self.cst(c, w);
        self.mk(K::And(a, cc), w)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            let (x, y) = (self.not(a), self.not(b));
            if self.cval(a).is_some() || self.cval(b).is_some() {
                let r = self.and(x, y);
                return self.not(r);
            }
            if let (K::InSet(v, _), K::InSet(v2, _)) = (self.k(a), self.k(b)) {
                if v == v2 {
                    let r = self.and(x, y);
                    return self.not(r);
                }
            }
            if x == b {
                return 1;
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            for (p0, y) in [(a, b), (b, a)] {
                if let K::Or(p, q) = *self.k(p0) {
                    if p == y || q == y {
                        return p0;
                    }
                }
                if let K::And(p, q) = *self.k(p0) {
                    if p == y || q == y {
                        return y;
                    }
                }
            }
            return self.mk(K::Or(a, b), 1);
        }
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.cst(x | y, w),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        if w <= 64 {
            if let (Some(pa), Some(pb)) = (self.disjoint_parts(a), self.disjoint_parts(b)) {
                let ma = self.parts_mask(&pa);
                let mb = self.parts_mask(&pb);
                if ma & mb == 0 {
                    return self.add(a, b);
                }
                // constant | value
                for (c, x, px) in [(self.cval(b), a, &pa), (self.cval(a), b, &pb)] {
                    if let Some(c) = c {
                        let _ = px;
                        let keep = self.and_const(x, mask(w) & !c, w);
                        return self.lin(c, vec![(keep, 1)], w);
                    }
                }
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            if let (K::Ite(c, p, q), Some(_)) = (self.k(x).clone(), self.cval(y)) {
                if self.cval(p).is_some() && self.cval(q).is_some() {
                    let (p, q) = (self.or(p, y), self.or(q, y));
                    return self.ite(c, p, q);
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::Or(a, b), w)
    }
    fn parts_mask(&mut self, p: &(u128, Vec<(T, u32)>)) -> u128 {
        let mut m = p.0;
        for (t, s) in &p.1 {
            let (_, hi) = self.rng(*t);
            m |= mask(128 - hi.leading_zeros()) << s;
        }
        m
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.cst(x ^ y, w),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        if w == 1 {
            if b == 1 {
                return self.not(a);
            }
            if a == 1 {
                return self.not(b);
            }
            // boolean difference = !(a==b)
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            if let (K::InSet(v, _), K::InSet(v2, _)) = (self.k(a), self.k(b)) {
                if v == v2 {
                    return self.mk(K::Xor(a, b), 1);
                }
            }
            if self.not(a) == b {
                return 1;
            }
            return self.mk(K::Xor(a, b), 1);
        }
        if self.cval(b) == Some(mask(w)) {
            return self.not(a);
        }
        if self.cval(a) == Some(mask(w)) {
            return self.not(b);
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let K::Ite(c, p, q) = self.k(a).clone() {
            if self.cval(p).is_some() && self.cval(q).is_some() && self.cval(b).is_some() {
                let (p, q) = (self.xor(p, b), self.xor(q, b));
                return self.ite(c, p, q);
            }
        }
        if let Some(c) = self.cval(b) {
            // x ^ c on disjoint parts
            if let Some((cc, parts)) = self.disjoint_parts(a) {
                if parts.len() > 1 || cc != 0 || (parts.len() == 1 && parts[0].1 != 0) {
                    let m = self.parts_mask(&(0, parts.clone()));
                    if m & c == 0 {
                        let mut v = vec![];
                        for (t, s) in parts {
                            v.push((t, 1u128 << s));
                        }
                        return self.lin(cc ^ c, v, w);
                    }
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::Xor(a, b), w)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.cval(b) {
            if c >= w as u128 {
                return self.cst(0, w);
            }
            return self.lin(0, vec![(a, 1u128 << c)], w);
        }
        self.mk(K::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.cval(b) {
            if c >= w as u128 {
                return self.cst(0, w);
            }
            if c == 0 {
                return a;
            }
            let wh = w - c as u32;
            let e = self.ext(a, c as u32, wh);
            return self.zext(e, w);
        }
        self.mk(K::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (_, hi) = self.rng(a);
        if w < 128 && hi < 1u128 << (w - 1) {
            return self.lshr(a, b);
        }
        if let Some(c) = self.cval(b) {
            if c == 0 {
                return a;
            }
            let (lo, _) = self.rng(a);
            if w < 128 && lo >= 1u128 << (w - 1) && c >= (w - 1) as u128 {
                return self.cst(mask(w), w);
            }
        }
        self.mk(K::AShr(a, b), w)
    }
    /// split an exact integer sum by a constant divisor: (quotient part, rest) with value = D*q + rest
    fn split(&mut self, il: &IL, d: i128) -> ((i128, Vec<(T, i128)>), (i128, Vec<(T, i128)>)) {
        let mut q = vec![];
        let mut r = vec![];
        for (t, k) in &il.t {
            let kq = k.div_euclid(d);
            let kr = k - kq * d;
            // balanced remainder keeps things small
            if kr == 0 {
                q.push((*t, kq));
            } else {
                r.push((*t, *k));
            }
        }
        let cq = il.c.div_euclid(d);
        ((cq, q), (il.c - cq * d, r))
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(d) = self.cval(b) {
            if d == 1 {
                return a;
            }
            if d != 0 && d <= i128::MAX as u128 {
                let d = d as i128;
                if let Some(il) = self.as_int(a) {
                    if il.lo.div_euclid(d) == il.hi.div_euclid(d) {
                        return self.cst(il.lo.div_euclid(d) as u128, w);
                    }
                    // nested division: (c + x/y) / d is (c*y + x) / (y*d)
                    if il.t.len() == 1 && il.t[0].1 == 1 && il.c > 0 {
                        if let K::UDiv(x, y) = self.k(il.t[0].0).clone() {
                            if let Some(d2) = self.cval(y) {
                                if let (Some(p), Some(cy), Some(xl)) = (d2.checked_mul(d as u128), d2.checked_mul(il.c as u128), self.as_int(x)) {
                                    if p <= mask(w) && xl.lo >= 0 && cy <= (mask(w) >> 1).min(i128::MAX as u128) && xl.hi <= ((mask(w) >> 1).min(i128::MAX as u128) - cy) as i128 && self.w(x) == w {
                                        let xs = self.lin(cy, vec![(x, 1)], w);
                                        let pt = self.cst(p, w);
                                        return self.udiv(xs, pt);
                                    }
                                }
                            }
                        }
                    }
                    let ((cq, mut q), (cr, r)) = self.split(&il, d);
                    if let Some((rlo, rhi)) = self.il_range(cr, &r) {
                        // (the form must not depend on what is known about the bounds)
                        let j = rlo.div_euclid(d);
                        if rhi.div_euclid(d) == j {
                            return self.from_il(cq + j, &q, w);
                        }
                        if rlo >= 0 && (!q.is_empty() || cq != 0) {
                            let rest = self.from_il(cr, &r, w);
                            let bt = self.cst(d as u128, w);
                            let rd = self.udiv(rest, bt);
                            q.push((rd, 1));
                            return self.from_il(cq, &q, w);
                        }
                    }
                    // nested division
                    if let K::UDiv(x, y) = self.k(a).clone() {
                        if let Some(d2) = self.cval(y) {
                            if let Some(p) = d2.checked_mul(d as u128) {
                                if p <= mask(w) {
                                    let pt = self.cst(p, w);
                                    return self.udiv(x, pt);
                                }
                            }
                        }
                    }
                }
                if let K::Ite(c, p, q) = self.k(a).clone() {
                    if self.cval(p).is_some() || self.cval(q).is_some() {
                        let (p, q) = (self.udiv(p, b), self.udiv(q, b));
                        return self.ite(c, p, q);
                    }
                }
            }
        }
        self.mk(K::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(d) = self.cval(b) {
            if d == 1 {
                return self.cst(0, w);
            }
            if d != 0 && d <= i128::MAX as u128 {
                let d = d as i128;
                if let Some(il) = self.as_int(a) {
                    if il.hi < d {
                        return a;
                    }
                    let (_, (cr, r)) = self.split(&il, d);
                    if let Some((rlo, rhi)) = self.il_range(cr, &r) {
                        let j = rlo.div_euclid(d);
                        if rhi.div_euclid(d) == j {
                            return self.from_il(cr - j * d, &r, w);
                        }
                        if rlo < 0 {
                            return self.mk(K::URem(a, b), w);
                        }
                        let rest = self.from_il(cr, &r, w);
                        if rest != a {
                            return self.urem(rest, b);
                        }
                    }
                }
                if let K::Ite(c, p, q) = self.k(a).clone() {
                    if self.cval(p).is_some() || self.cval(q).is_some() {
                        let (p, q) = (self.urem(p, b), self.urem(q, b));
                        return self.ite(c, p, q);
                    }
                }
            }
        }
        self.mk(K::URem(a, b), w)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        self.lin(0, vec![(a, mask(w))], w)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (alo, ahi) = self.srng(a);
        let (blo, bhi) = self.srng(b);
        if blo > 0 {
            if alo >= 0 {
                return self.udiv(a, b);
            }
            if ahi <= 0 && alo > i128::MIN {
                let na = self.neg(a);
                let q = self.udiv(na, b);
                return self.neg(q);
            }
        } else if bhi < 0 {
            let nb = self.neg(b);
            let q = self.sdiv(a, nb);
            if alo > -(1i128 << (w.min(126) - 1)) {
                return self.neg(q);
            }
        }
        self.mk(K::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (alo, ahi) = self.srng(a);
        let (blo, bhi) = self.srng(b);
        if blo > 0 {
            if alo >= 0 {
                return self.urem(a, b);
            }
            if ahi <= 0 && alo > i128::MIN {
                let na = self.neg(a);
                let q = self.urem(na, b);
                return self.neg(q);
            }
        } else if bhi < 0 && blo > i128::MIN {
            let nb = self.neg(b);
            return self.srem(a, nb);
        }
        self.mk(K::SRem(a, b), w)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.cst(c, w);
        }
        if let K::Ite(c, p, q) = self.k(a).clone() {
            if self.cval(p).is_some() && self.cval(q).is_some() {
                let (p, q) = (self.zext(p, w), self.zext(q, w));
                return self.ite(c, p, q);
            }
        }
        self.lin(0, vec![(a, 1)], w)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.cst(sgn(c, wa) as u128, w);
        }
        if wa > 1 {
            if let Some(il) = self.as_sint(a) {
                return self.from_il(il.c, &il.t, w);
            }
        }
        if wa == 1 {
            let (p, q) = (self.cst(mask(w), w), self.cst(0, w));
            return self.ite(a, p, q);
        }
        if let K::Ite(c, p, q) = self.k(a).clone() {
            if self.cval(p).is_some() || self.cval(q).is_some() {
                let (p, q) = (self.sext(p, w), self.sext(q, w));
                return self.ite(c, p, q);
            }
        }
        self.mk(K::SExt(a), w)
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T {
        self.ext(a, 0, w)
    }
    /// bits lo..lo+w
    pub fn ext(&mut self, a: T, lo: u32, w: u32) -> T {
        let wa = self.w(a);
        if lo == 0 && wa == w {
            return a;
        }
        if lo >= wa {
            return self.cst(0, w);
        }
        if let Some(c) = self.cval(a) {
            return self.cst(c >> lo, w);
        }
        // value provably below 2^lo
        let (_, hi) = self.rng(a);
        if hi >> lo == 0 {
            return self.cst(0, w);
        }
        match self.k(a).clone() {
            K::Ext(x, l2) => {
                if lo + w <= wa {
                    return self.ext(x, l2 + lo, w);
                }
            }
            K::Ite(c, p, q) => {
                if self.cval(p).is_some() || self.cval(q).is_some() {
                    let (p, q) = (self.ext(p, lo, w), self.ext(q, lo, w));
                    return self.ite(c, p, q);
                }
            }
            K::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.ext(x, lo, w);
                }
                if lo == 0 && w > wx {
                    return self.sext(x, w);
                }
            }
            _ => {}
        }
        if lo == 0 {
            // truncation
            if let K::Lin(c, ts) = self.k(a).clone() {
                let mut v = vec![];
                for (t, k) in ts.iter() {
                    if k & mask(w) == 0 {
                        continue;
                    }
                    let t2 = if self.w(*t) > w { self.ext(*t, 0, w) } else { *t };
                    v.push((t2, *k));
                }
                return self.lin(c, v, w);
            }
            if let K::And(x, y) = *self.k(a) {
                let (x, y) = (self.ext(x, 0, w), self.ext(y, 0, w));
                return self.and(x, y);
            }
            if let K::Or(x, y) = *self.k(a) {
                let (x, y) = (self.ext(x, 0, w), self.ext(y, 0, w));
                return self.or(x, y);
            }
            if let K::Xor(x, y) = *self.k(a) {
                let (x, y) = (self.ext(x, 0, w), self.ext(y, 0, w));
                return self.xor(x, y);
            }
        } else if let Some(il) = self.as_int(a) {
            if lo < 126 {
                let d = 1i128 << lo;
                let ((cq, mut q), (mut cr, r)) = self.split(&il, d);
                let mut cq = cq;
                if let Some((rlo, rhi)) = self.il_range(cr, &r) {
                    let j = rlo.div_euclid(d);
                    cq += j;
                    cr -= j * d;
                    if rhi.div_euclid(d) == j {
                        return self.from_il(cq, &q, w);
                    }
                    if !q.is_empty() || cq != 0 {
                        let rest = self.from_il(cr, &r, wa);
                        let (_, rh) = self.rng(rest);
                        let bits = (128 - rh.leading_zeros()).max(lo + 1);
                        let wq = bits - lo;
                        let e = self.mk(K::Ext(rest, lo), wq.min(wa - lo));
                        q.push((e, 1));
                        return self.from_il(cq, &q, w);
                    }
                }
            }
        }
        if lo + w > wa {
            let e = self.mk(K::Ext(a, lo), wa - lo);
            return self.zext(e, w);
        }
        self.mk(K::Ext(a, lo), w)
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        // adjacent extracts
        if let (K::Ext(a, l1), K::Ext(b, l0)) = (self.k(hi).clone(), self.k(lo).clone()) {
            if a == b && l1 == l0 + wl {
                return self.ext(a, l0, w);
            }
        }
        self.lin(0, vec![(hi, 1u128 << wl), (lo, 1)], w)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return 1;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return (x == y) as T;
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        let (ra, rb) = (self.rng(a), self.rng(b));
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return 0;
        }
        if let K::Ite(c, p, q) = self.k(a).clone() {
            if self.cval(b).is_some() {
                let (pc, qc) = (self.cval(p).is_some(), self.cval(q).is_some());
                if pc || qc || self.depth_ite(a) < 40 {
                    let (x, y) = (self.eq(p, b), self.eq(q, b));
                    return self.ite(c, x, y);
                }
            }
        }
        if let (K::Ite(c, p, q), K::Ite(c2, p2, q2)) = (self.k(a).clone(), self.k(b).clone()) {
            if c == c2 {
                let (x, y) = (self.eq(p, p2), self.eq(q, q2));
                return self.ite(c, x, y);
            }
        }
        if w <= 64 || true {
            if let (Some(x), Some(y)) = (self.as_int(a), self.as_int(b)) {
                if let Some(r) = self.eq_int(&x, &y) {
                    return r;
                }
            } else if let (Some(x), Some(y)) = (self.as_sint(a), self.as_sint(b)) {
                if let Some(r) = self.eq_int(&x, &y) {
                    return r;
                }
            } else {
                // modular difference
                let d = self.sub(a, b);
                if let Some(c) = self.cval(d) {
                    return (c == 0) as T;
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::Eq(a, b), 1)
    }
    fn depth_ite(&self, t: T) -> u32 {
        match self.k(t) {
            K::Ite(_, p, q) => 1 + self.depth_ite(*p) + self.depth_ite(*q),
            _ => 0,
        }
    }
    /// equality of two exact integer sums; None if it cannot be simplified
    fn eq_int(&mut self, x: &IL, y: &IL) -> Option<T> {
        let c = x.c.checked_sub(y.c)?;
        let mut m: Vec<(T, i128)> = x.t.clone();
        for (t, k) in &y.t {
            m.push((*t, k.checked_neg()?));
        }
        m.sort_unstable_by_key(|q| q.0);
        let mut ts: Vec<(T, i128)> = vec![];
        for (t, k) in m {
            match ts.last_mut() {
                Some(l) if l.0 == t => l.1 += k,
                _ => ts.push((t, k)),
            }
        }
        ts.retain(|q| q.1 != 0);
        if ts.is_empty() {
            return Some((c == 0) as T);
        }
        self.eq_zero(c, ts, x.t.len() + y.t.len())
    }
    fn eq_zero(&mut self, mut c: i128, mut ts: Vec<(T, i128)>, _orig: usize) -> Option<T> {
        let mut conj: T = 1;
        loop {
            if ts.is_empty() {
                return Some(if c == 0 { conj } else { 0 });
            }
            let (lo, hi) = self.il_range(c, &ts)?;
            if lo > 0 || hi < 0 {
                return Some(0);
            }
            // g = gcd of all coefs
            let g = ts.iter().fold(0i128, |g, (_, k)| gcd(g, k.abs()));
            if c % g != 0 {
                return Some(0);
            }
            if g > 1 {
                c /= g;
                for q in ts.iter_mut() {
                    q.1 /= g;
                }
            }
            if ts.len() == 1 {
                let (t, k) = ts[0];
                // k == ±1 now (gcd normalised)
                let v = -c * k;
                if v < 0 {
                    return Some(0);
                }
                let w = self.w(t);
                if v as u128 > mask(w) {
                    return Some(0);
                }
                let e = self.eq_atom_const(t, v as u128);
                return Some(self.and(conj, e));
            }
            // peel off the group of atoms which are not multiples of some radix
            let mut cands: Vec<i128> = ts.iter().map(|(_, k)| k.abs()).collect();
            cands.sort_unstable();
            cands.dedup();
            let mut peeled = false;
            for d in cands.into_iter().filter(|d| *d > 1) {
                let (rest, big): (Vec<_>, Vec<_>) = ts.iter().cloned().partition(|(_, k)| k % d != 0);
                if rest.is_empty() || big.is_empty() {
                    continue;
                }
                let cr = c.rem_euclid(d);
                let (rlo, rhi) = self.il_range(cr, &rest)?;
                // rest must be a multiple of d
                let jl = rlo.div_euclid(d) + if rlo.rem_euclid(d) == 0 { 0 } else { 1 };
                let jh = rhi.div_euclid(d);
                if jl > jh {
                    return Some(0);
                }
                if jl == jh {
                    let e = self.eq_zero(cr - jl * d, rest, 0)?;
                    conj = self.and(conj, e);
                    if conj == 0 {
                        return Some(0);
                    }
                    c = c - cr + jl * d;
                    ts = big;
                    peeled = true;
                    break;
                }
            }
            if !peeled {
                if ts.len() == 2 && c == 0 && ts[0].1 == -ts[1].1 && ts[0].1.abs() == 1 {
                    let (a, b) = (ts[0].0, ts[1].0);
                    let w = self.w(a).max(self.w(b));
                    let (a, b) = (self.zext(a, w), self.zext(b, w));
                    let (a, b) = if a < b { (a, b) } else { (b, a) };
                    let e = self.mk(K::Eq(a, b), 1);
                    return Some(self.and(conj, e));
                }
                let bits = 128 - lo.unsigned_abs().max(hi.unsigned_abs()).leading_zeros() + 1;
                let wmax = ts.iter().map(|q| self.w(q.0)).max().unwrap();
                let w = bits.max(wmax).max(8);
                if w > 127 {
                    return None;
                }
                let w = if w <= 64 { 64 } else { 128 };
                // keep small constants on the right-hand side
                let l = self.from_il(0, &ts, w);
                let r = self.cst((-c) as u128, w);
                let e = self.mk(K::Eq(l, r), 1);
                return Some(self.and(conj, e));
            }
        }
    }
    fn eq_atom_const(&mut self, t: T, v: u128) -> T {
        let w = self.w(t);
        let c = self.cst(v, w);
        match self.k(t) {
            K::Var(_) | K::Const(_) => self.mk(K::Eq(t, c), 1),
            K::Ite(..) => self.eq(t, c),
            _ if w == 1 => {
                if v == 1 {
                    t
                } else {
                    self.not(t)
                }
            }
            _ => self.mk(K::Eq(t, c), 1),
        }
    }
    fn lt_int(&mut self, x: &IL, y: &IL) -> Option<bool> {
        if x.hi < y.lo {
            return Some(true);
        }
        if x.lo >= y.hi {
            return Some(false);
        }
        let c = x.c.checked_sub(y.c)?;
        let mut m: Vec<(T, i128)> = x.t.clone();
        for (t, k) in &y.t {
            m.push((*t, k.checked_neg()?));
        }
        m.sort_unstable_by_key(|q| q.0);
        let mut ts: Vec<(T, i128)> = vec![];
        for (t, k) in m {
            match ts.last_mut() {
                Some(l) if l.0 == t => l.1 += k,
                _ => ts.push((t, k)),
            }
        }
        ts.retain(|q| q.1 != 0);
        let (lo, hi) = self.il_range(c, &ts)?;
        if hi < 0 {
            return Some(true);
        }
        if lo >= 0 {
            return Some(false);
        }
        None
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return (x < y) as T;
        }
        let (ra, rb) = (self.rng(a), self.rng(b));
        if ra.1 < rb.0 {
            return 1;
        }
        if ra.0 >= rb.1 {
            return 0;
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let K::Ite(c, p, q) = self.k(a).clone() {
            if self.cval(b).is_some() && (self.cval(p).is_some() || self.cval(q).is_some()) {
                let (x, y) = (self.ult(p, b), self.ult(q, b));
                return self.ite(c, x, y);
            }
        }
        if let K::Ite(c, p, q) = self.k(b).clone() {
            if self.cval(a).is_some() && (self.cval(p).is_some() || self.cval(q).is_some()) {
                let (x, y) = (self.ult(a, p), self.ult(a, q));
                return self.ite(c, x, y);
            }
        }
        if let (K::Ite(c, p, q), K::Ite(c2, p2, q2)) = (self.k(a).clone(), self.k(b).clone()) {
            if (self.cval(p).is_some() || self.cval(q).is_some()) && (self.cval(p2).is_some() || self.cval(q2).is_some()) {
                let (x, y) = (self.ult(p, p2), self.ult(p, q2));
                let l = self.ite(c2, x, y);
                let (x, y) = (self.ult(q, p2), self.ult(q, q2));
                let r = self.ite(c2, x, y);
                return self.ite(c, l, r);
            }
        }
        if let (Some(x), Some(y)) = (self.as_int(a), self.as_int(b)) {
            if let Some(r) = self.lt_int(&x, &y) {
                return r as T;
            }
            if let Some(r) = self.lt_norm(&x, &y, false) {
                return r;
            }
        } else if let (Some(x), Some(y)) = (self.cases(a, false), self.cases(b, false)) {
            if let Some(r) = self.lt_cases(&x, &y) {
                return r;
            }
        }
        self.mk(K::Ult(a, b), 1)
    }
    fn ult_atom(&mut self, t: T, l: T) -> T {
        if let K::Ite(c, p, q) = self.k(t).clone() {
            if self.cval(p).is_some() || self.cval(q).is_some() {
                let (x, y) = (self.ult(p, l), self.ult(q, l));
                return self.ite(c, x, y);
            }
        }
        self.mk(K::Ult(t, l), 1)
    }
    /// x < y for exact sums: reduce single-atom forms to a comparison of the atom with a constant
    fn lt_norm(&mut self, x: &IL, y: &IL, any: bool) -> Option<T> {
        if x.t.len() + y.t.len() == 1 {
            // k*t + c < 0
            let c = x.c - y.c;
            let (t, k) = if x.t.len() == 1 { x.t[0] } else { (y.t[0].0, -y.t[0].1) };
            let w = self.w(t);
            // k>0: t < ceil(-c/k);  k<0: t > floor(c/(-k)) ie t >= floor(c/-k)+1
            if k > 0 {
                let b = -c;
                let lim = b.div_euclid(k) + if b.rem_euclid(k) != 0 { 1 } else { 0 };
                if lim <= 0 {
                    return Some(0);
                }
                if lim as u128 > mask(w) {
                    return Some(1);
                }
                let l = self.cst(lim as u128, w);
                return Some(self.ult_atom(t, l));
            } else {
                let lim = c.div_euclid(-k) + 1;
                if lim <= 0 {
                    return Some(1);
                }
                if lim as u128 > mask(w) {
                    return Some(0);
                }
                let l = self.cst(lim as u128, w);
                let r = self.ult_atom(t, l);
                return Some(self.not(r));
            }
        }
        // common factor (seconds against seconds, all counted in nanoseconds): compare the quotients
        let mut c = x.c.checked_sub(y.c)?;
        let mut m: Vec<(T, i128)> = x.t.clone();
        for (t, k) in &y.t {
            m.push((*t, k.checked_neg()?));
        }
        m.sort_unstable_by_key(|q| q.0);
        let mut ts: Vec<(T, i128)> = vec![];
        for (t, k) in m {
            match ts.last_mut() {
                Some(l) if l.0 == t => l.1 += k,
                _ => ts.push((t, k)),
            }
        }
        ts.retain(|q| q.1 != 0);
        let g = ts.iter().fold(0i128, |g, (_, k)| gcd(g, k.abs()));
        if g < 1 || (g == 1 && !any) {
            return None;
        }
        c = c.div_euclid(g);
        for q in ts.iter_mut() {
            q.1 /= g;
        }
        if ts.len() == 1 {
            let z = IL { c: 0, t: vec![], lo: 0, hi: 0 };
            let (lo, hi) = self.il_range(c, &ts)?;
            let l = IL { c, t: ts, lo, hi };
            return self.lt_norm(&l, &z, any);
        }
        let (pos, neg): (Vec<_>, Vec<_>) = ts.into_iter().partition(|q| q.1 > 0);
        let neg: Vec<_> = neg.into_iter().map(|(t, k)| (t, -k)).collect();
        let (cp, cn) = if c > 0 { (c, 0) } else { (0, -c) };
        let (_, h1) = self.il_range(cp, &pos)?;
        let (_, h2) = self.il_range(cn, &neg)?;
        let bits = 128 - h1.max(h2).leading_zeros();
        let wmax = pos.iter().chain(neg.iter()).map(|q| self.w(q.0)).max().unwrap();
        let bits = bits.max(wmax);
        let w = if bits <= 32 {
            32
        } else if bits <= 64 {
            64
        } else if bits <= 126 {
            128
        } else {
            return None;
        };
        let l = self.from_il(cp, &pos, w);
        let r = self.from_il(cn, &neg, w);
        Some(self.mk(K::Ult(l, r), 1))
    }
    /// exact value of a sum that wraps at most once: (condition, value) or its complement
    fn cases(&mut self, t: T, signed: bool) -> Option<(T, IL, IL)> {
        let one = if signed { self.as_sint(t) } else { self.as_int(t) };
        if let Some(x) = one {
            return Some((1, x.clone(), x));
        }
        let w = self.w(t);
        if w > 120 {
            return None;
        }
        if !matches!(self.k(t), K::Lin(..)) {
            return None;
        }
        let (c, ts) = self.lin_signed(t);
        let (lo, hi) = self.il_range(c, &ts)?;
        let m = 1i128 << w;
        let h = if signed { m >> 1 } else { 0 };
        let (q0, q1) = ((lo + h).div_euclid(m), (hi + h).div_euclid(m));
        if q1 != q0 + 1 {
            return None;
        }
        // below the border: no more than q0 turns
        let edge = q1 * m - h;
        let s = IL { c, t: ts.clone(), lo, hi };
        let e = IL { c: edge, t: vec![], lo: edge, hi: edge };
        let cnd = match self.lt_int(&s, &e) {
            Some(r) => r as T,
            None => self.lt_norm(&s, &e, true)?,
        };
        let low = IL { c: c - q0 * m, t: ts.clone(), lo: lo - q0 * m, hi: edge - 1 - q0 * m };
        let high = IL { c: c - q1 * m, t: ts, lo: edge - q1 * m, hi: hi - q1 * m };
        Some((cnd, low, high))
    }
    fn lt_cases(&mut self, x: &(T, IL, IL), y: &(T, IL, IL)) -> Option<T> {
        let mut r = [0; 4];
        for (i, (p, q)) in [(&x.1, &y.1), (&x.1, &y.2), (&x.2, &y.1), (&x.2, &y.2)].into_iter().enumerate() {
            if (y.0 == 1 && i & 1 == 1) || (x.0 == 1 && i >= 2) {
                continue;
            }
            r[i] = if p.hi < q.lo {
                1
            } else if p.lo >= q.hi {
                0
            } else {
                match self.lt_int(p, q) {
                    Some(v) => v as T,
                    None => self.lt_norm(p, q, true)?,
                }
            };
        }
        let a = self.ite(y.0, r[0], r[1]);
        let b = self.ite(y.0, r[2], r[3]);
        Some(self.ite(x.0, a, b))
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let r = self.ult(b, a);
        self.not(r)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return (sgn(x, w) < sgn(y, w)) as T;
        }
        let (ra, rb) = (self.srng(a), self.srng(b));
        if ra.1 < rb.0 {
            return 1;
        }
        if ra.0 >= rb.1 {
            return 0;
        }
        if w == 1 {
            let nb = self.not(b);
            return self.and(a, nb);
        }
        if let K::Ite(c, p, q) = self.k(a).clone() {
            if self.cval(b).is_some() && (self.cval(p).is_some() || self.cval(q).is_some()) {
                let (x, y) = (self.slt(p, b), self.slt(q, b));
                return self.ite(c, x, y);
            }
        }
        if let K::Ite(c, p, q) = self.k(b).clone() {
            if self.cval(a).is_some() && (self.cval(p).is_some() || self.cval(q).is_some()) {
                let (x, y) = (self.slt(a, p), self.slt(a, q));
                return self.ite(c, x, y);
            }
        }
        if let (K::Ite(c, p, q), K::Ite(c2, p2, q2)) = (self.k(a).clone(), self.k(b).clone()) {
            if (self.cval(p).is_some() || self.cval(q).is_some()) && (self.cval(p2).is_some() || self.cval(q2).is_some()) {
                let (x, y) = (self.slt(p, p2), self.slt(p, q2));
                let l = self.ite(c2, x, y);
                let (x, y) = (self.slt(q, p2), self.slt(q, q2));
                let r = self.ite(c2, x, y);
                return self.ite(c, l, r);
            }
        }
        if let (Some(x), Some(y)) = (self.as_sint(a), self.as_sint(b)) {
            if let Some(r) = self.lt_int(&x, &y) {
                return r as T;
            }
            if let Some(r) = self.lt_norm(&x, &y, false) {
                return r;
            }
        } else if let (Some(x), Some(y)) = (self.cases(a, true), self.cases(b, true)) {
            if let Some(r) = self.lt_cases(&x, &y) {
                return r;
            }
        }
        if ra.0 >= 0 && rb.0 >= 0 {
            return self.mk(K::Ult(a, b), 1);
        }
        self.mk(K::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let r = self.slt(b, a);
        self.not(r)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == 1 {
            return a;
        }
        if c == 0 {
            return b;
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            if a == 1 && b == 0 {
                return c;
            }
            if a == 0 && b == 1 {
                return self.not(c);
            }
            if a == 1 {
                return self.or(c, b);
            }
            if a == 0 {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == 0 {
                return self.and(c, a);
            }
            if b == 1 {
                let n = self.not(c);
                return self.or(n, a);
            }
        }
        if let K::Xor(x, 1) = *self.k(c) {
            return self.ite(x, b, a);
        }
        if let K::Ite(c2, x, _) = *self.k(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let K::Ite(c2, _, y) = *self.k(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        // zext(bool)
        if w > 1 && w <= 64 {
            if let (Some(x), Some(0)) = (self.cval(a), self.cval(b)) {
                if x == 1 && false {
                    return self.zext(c, w);
                }
            }
        }
        self.mk(K::Ite(c, a, b), w)
    }
    pub fn tab(&mut self, idx: T, mut tab: Vec<u64>, w: u32) -> T {
        let (lo, hi) = self.rng(idx);
        if hi < tab.len() as u128 {
            let (lo, hi) = (lo as usize, hi as usize);
            let v = tab[lo];
            if tab[lo..=hi].iter().all(|x| *x == v) {
                return self.cst(v as u128, w);
            }
            tab.truncate(hi + 1);
            for x in tab[..lo].iter_mut() {
                *x = v;
            }
        }
        self.mk(K::Tab(idx, Rc::new(tab)), w)
    }
    /// bytes of a wide term
    pub fn byte(&mut self, t: T, i: u32) -> T {
        let w = self.w(t);
        if w <= 8 {
            return self.zext(t, 8);
        }
        if 8 * i + 8 > w {
            let e = self.ext(t, 8 * i, w - 8 * i);
            return self.zext(e, 8);
        }
        self.ext(t, 8 * i, 8)
    }

    // ---------- floats (64-bit) ----------
    pub fn dec(&mut self, k: T, s: u8) -> T {
        if let Some(c) = self.cval(k) {
            let f = dec_to_f64(c as u64 as i64, s as u32);
            return self.cst(f.to_bits() as u128, 64);
        }
        // same number with fewer decimals
        if s > 0 && matches!(self.k(k), K::Lin(..)) {
            if let Some(il) = self.as_sint(k) {
                let (mut p, mut n) = (1i128, 0);
                while n < s && n < 30 && il.c % (p * 10) == 0 && il.t.iter().all(|q| q.1 % (p * 10) == 0) {
                    p *= 10;
                    n += 1;
                }
                if n > 0 {
                    let ts: Vec<(T, i128)> = il.t.iter().map(|q| (q.0, q.1 / p)).collect();
                    let k = self.from_il(il.c / p, &ts, 64);
                    return self.dec(k, s - n);
                }
            }
        }
        self.intern(K::Dec(k, s), 64)
    }
    /// normal decimal view of a float term: (k, s) when it is the double nearest to k/10^s
    pub fn as_dec(&mut self, t: T) -> Option<(T, u8)> {
        match *self.k(t) {
            K::Dec(k, s) => Some((k, s)),
            K::Const(c) => {
                let f = f64::from_bits(c as u64);
                if !f.is_finite() || (f == 0.0 && f.is_sign_negative()) {
                    return None;
                }
                for s in 0..=15u32 {
                    let x = f * 10f64.powi(s as i32);
                    if x.abs() > 9.0e15 {
                        return None;
                    }
                    let r = x.round();
                    if dec_to_f64(r as i64, s) == f {
                        let k = self.cst(r as i64 as u64 as u128, 64);
                        return Some((k, s as u8));
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// bring two decimal views to the same scale if every value keeps at most 15 significant digits
    fn same_scale(&mut self, a: T, b: T) -> Option<(T, T, u8)> {
        let (ka, sa) = self.as_dec(a)?;
        let (kb, sb) = self.as_dec(b)?;
        let s = sa.max(sb);
        let scale = |tmm: &mut Tm, k: T, d: u8| -> Option<T> {
            let (lo, hi) = tmm.srng(k);
            let m = lo.unsigned_abs().max(hi.unsigned_abs());
            let p = pow10(d as u32) as u128;
            if d > 18 || m.checked_mul(p)? >= 1_000_000_000_000_000 {
                return None;
            }
            Some(tmm.lin(0, vec![(k, p)], 64))
        };
        let ka = scale(self, ka, s - sa)?;
        let kb = scale(self, kb, s - sb)?;
        Some((ka, kb, s))
    }
    fn pow10_of(&self, t: T) -> Option<u32> {
        let c = self.cval(t)?;
        let f = f64::from_bits(c as u64);
        (0..=22u32).find(|i| f == 10f64.powi(*i as i32))
    }
    fn int_of(&self, t: T) -> Option<i64> {
        let c = self.cval(t)?;
        let f = f64::from_bits(c as u64);
        if f.fract() == 0.0 && f.abs() < 9.0e15 && !(f == 0.0 && f.is_sign_negative()) {
            Some(f as i64)
        } else {
            None
        }
    }
    pub fn fbin(&mut self, op: FB, a: T, b: T) -> T {
        const M53: u128 = 1 << 53;
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.cst(feval(op, x as u64, y as u64) as u128, 64);
        }
        // exact integer arithmetic
        let ia = match *self.k(a) {
            K::Dec(k, 0) => Some(k),
            K::Const(_) => self.int_of(a).map(|v| self.cst(v as u64 as u128, 64)),
            _ => None,
        };
        let ib = match *self.k(b) {
            K::Dec(k, 0) => Some(k),
            K::Const(_) => self.int_of(b).map(|v| self.cst(v as u64 as u128, 64)),
            _ => None,
        };
        if let (Some(x), Some(y)) = (ia, ib) {
            let (xl, xh) = self.srng(x);
            let (yl, yh) = self.srng(y);
            match op {
                FB::Add | FB::Sub => {
                    // zero results are +0.0 unless both operands are -0.0 (excluded above)
                    let m = xl.unsigned_abs().max(xh.unsigned_abs()) + yl.unsigned_abs().max(yh.unsigned_abs());
                    if m < M53 {
                        let r = if op == FB::Add { self.add(x, y) } else { self.sub(x, y) };
                        return self.dec(r, 0);
                    }
                }
                FB::Mul => {
                    let (xc, yc) = (self.cval(x), self.cval(y));
                    let c = xc.or(yc);
                    if let Some(c) = c {
                        let c = sgn(c, 64);
                        let v = if xc.is_some() { y } else { x };
                        let (vl, vh) = self.srng(v);
                        let m = vl.unsigned_abs().max(vh.unsigned_abs());
                        // negative zero must not arise
                        let nz = (c > 0) && (vl >= 0 || vl > 0 || vh < 0 || true);
                        if let Some(p) = m.checked_mul(c.unsigned_abs()) {
                            if p < M53 && nz {
                                let r = self.lin(0, vec![(v, c as u128)], 64);
                                return self.dec(r, 0);
                            }
                        }
                    }
                }
                FB::Div => {
                    if let Some(p) = self.pow10_of(b) {
                        let m = xl.unsigned_abs().max(xh.unsigned_abs());
                        if m <= M53 {
                            return self.dec(x, p as u8);
                        }
                    }
                }
                _ => {}
            }
        }
        if op == FB::Div {
            // x / 1.0
            if self.cval(b) == Some(1f64.to_bits() as u128) {
                return a;
            }
        }
        if op == FB::Mul {
            if self.cval(b) == Some(1f64.to_bits() as u128) {
                return a;
            }
            if self.cval(a) == Some(1f64.to_bits() as u128) {
                return b;
            }
            // (k / 10) * 10 = k: Kahan's theorem, 10 being 2^3 + 2^1
            for (x, c) in [(a, b), (b, a)] {
                if let (K::Dec(k, 1), Some(v)) = (self.k(x).clone(), self.cval(c)) {
                    let (lo, hi) = self.srng(k);
                    if v == 10f64.to_bits() as u128 && lo.unsigned_abs().max(hi.unsigned_abs()) < 1 << 51 {
                        return self.dec(k, 0);
                    }
                }
            }
        }
        if (op == FB::Sub || op == FB::Add) && self.cval(b) == Some(0) {
            if let K::Dec(..) = self.k(a) {
                return a;
            }
        }
        if op == FB::Add && self.cval(a) == Some(0) {
            if let K::Dec(..) = self.k(b) {
                return b;
            }
        }
        if op == FB::Sub && a == b {
            if let K::Dec(..) = self.k(a) {
                return self.cst(0, 64);
            }
            // finite values
            if let Some(f) = self.aff(a, 8) {
                if self.aff_range(&f).is_some() {
                    return self.cst(0, 64);
                }
            }
        }
        let (a, b) = if (op == FB::Add || op == FB::Mul) && a > b { (b, a) } else { (a, b) };
        self.mk(K::F(op, a, b), 64)
    }
    pub fn fun(&mut self, op: FU, a: T) -> T {
        if let Some(c) = self.cval(a) {
            return self.cst(fueval(op, c as u64) as u128, 64);
        }
        match op {
            FU::Round | FU::RoundEven | FU::Floor | FU::Trunc | FU::Ceil => {
                if let K::Dec(k, s) = *self.k(a) {
                    let (lo, hi) = self.srng(k);
                    if lo.unsigned_abs().max(hi.unsigned_abs()) < 1 << 51 && s <= 18 {
                        if s == 0 {
                            return a;
                        }
                        if op == FU::Trunc || (op == FU::Floor && lo >= 0) {
                            if lo >= 0 || hi < 0 {
                                let p = self.cst(pow10(s as u32) as u128, 64);
                                let q = self.sdiv(k, p);
                                // -0.0 on (-1,0)
                                if lo >= 0 || hi <= -pow10(s as u32) {
                                    return self.dec(q, 0);
                                }
                            }
                        }
                        // half away from zero: the double nearest to k/10^s is on the same side of
                        // (or at) the halfway point, which is representable
                        if op == FU::Round && (lo >= 0 || hi <= -pow10(s as u32)) {
                            let p10 = pow10(s as u32);
                            let half = self.cst((p10 / 2) as u128, 64);
                            let x = if lo >= 0 { self.add(k, half) } else { self.sub(k, half) };
                            let p = self.cst(p10 as u128, 64);
                            let q = self.sdiv(x, p);
                            return self.dec(q, 0);
                        }
                    }
                }
                if op == FU::Round || op == FU::RoundEven {
                    // round(dec(k,s)*10^t) = k*10^(t-s) when t>=s
                    if let K::F(FB::Mul, x, y) = *self.k(a) {
                        for (d, c) in [(x, y), (y, x)] {
                            if let (K::Dec(k, s), Some(t)) = (self.k(d).clone(), self.pow10_of(c)) {
                                if t >= s as u32 && t - s as u32 <= 18 {
                                    let (lo, hi) = self.srng(k);
                                    let p = pow10(t - s as u32);
                                    let m = lo.unsigned_abs().max(hi.unsigned_abs());
                                    if m.checked_mul(p as u128).map(|v| v < 1 << 50).unwrap_or(false) {
                                        let r = self.lin(0, vec![(k, p as u128)], 64);
                                        return self.dec(r, 0);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            FU::Abs => {
                if let K::Dec(k, s) = *self.k(a) {
                    let (lo, hi) = self.srng(k);
                    if lo >= 0 {
                        return a;
                    }
                    if hi <= 0 {
                        let n = self.neg(k);
                        return self.dec(n, s);
                    }
                }
            }
            FU::Neg => {
                if let K::Dec(k, s) = *self.k(a) {
                    let (lo, hi) = self.srng(k);
                    if lo > 0 || hi < 0 {
                        let n = self.neg(k);
                        return self.dec(n, s);
                    }
                }
                if let K::FU(FU::Neg, x) = *self.k(a) {
                    return x;
                }
            }
            _ => {}
        }
        self.mk(K::FU(op, a), 64)
    }
    /// predicate bits: 1=eq 2=gt 4=lt 8=unordered
    pub fn fcmp(&mut self, p: FP, a: T, b: T) -> T {
        if p == 0 {
            return 0;
        }
        if p == 15 {
            return 1;
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return fcmp_eval(p, x as u64, y as u64) as T;
        }
        // Dec terms are never NaN
        let fin = |s: &Tm, t: T| match s.k(t) {
            K::Dec(..) => true,
            K::Const(c) => !f64::from_bits(*c as u64).is_nan(),
            _ => false,
        };
        let (fa, fb) = (fin(self, a), fin(self, b));
        if (self.cval(a).is_some() && !fa) || (self.cval(b).is_some() && !fb) {
            return (p & 8 != 0) as T;
        }
        if a == b && fa {
            return (p & 1 != 0) as T;
        }
        // finite x - y compares to 0 as x to y
        if self.cval(b) == Some(0) {
            if let K::F(FB::Sub, x, y) = *self.k(a) {
                if fin(self, x) && fin(self, y) {
                    return self.fcmp(p, x, y);
                }
            }
        }
        if fa && fb {
            let p = p & 7;
            if p == 7 {
                return 1;
            }
            if p == 0 {
                return 0;
            }
            if let Some((x, y, _)) = self.same_scale(a, b) {
                return self.icmp_mask(p, x, y);
            }
            // threshold against a constant
            let (d, c, p) = if self.cval(b).is_some() {
                (a, b, p)
            } else if self.cval(a).is_some() {
                (b, a, (p & 1) | (p & 2) << 1 | (p & 4) >> 1)
            } else {
                return self.mk(K::FCmp(p, a, b), 1);
            };
            if let K::Dec(k, s) = *self.k(d) {
                let cf = f64::from_bits(self.cval(c).unwrap() as u64);
                let (lo, hi) = self.srng(k);
                let find = |strict: bool| -> i128 {
                    // smallest k in [lo,hi+1] with dec(k) >= cf (or > cf if strict)
                    let (mut l, mut h) = (lo, hi + 1);
                    while l < h {
                        let m = l + (h - l) / 2;
                        let f = dec_to_f64(m as i64, s as u32);
                        let ok = if strict { f > cf } else { f >= cf };
                        if ok {
                            h = m
                        } else {
                            l = m + 1
                        }
                    }
                    l
                };
                if lo >= i64::MIN as i128 && hi < i64::MAX as i128 {
                    let ge = find(false); // k < ge <=> dec < c
                    let gt = find(true); // k >= gt <=> dec > c
                    let ltt = {
                        let c = self.cst(ge as u128, 64);
                        if ge > hi {
                            1
                        } else {
                            self.slt(k, c)
                        }
                    };
                    let gtt = {
                        let c = self.cst(gt as u128, 64);
                        if gt > hi {
                            0
                        } else {
                            let l = self.slt(k, c);
                            self.not(l)
                        }
                    };
                    let mut r = 0;
                    if p & 4 != 0 {
                        r = self.or(r, ltt);
                    }
                    if p & 2 != 0 {
                        r = self.or(r, gtt);
                    }
                    if p & 1 != 0 {
                        let (x, y) = (self.not(ltt), self.not(gtt));
                        let e = self.and(x, y);
                        r = self.or(r, e);
                    }
                    return r;
                }
            }
        }
        // far apart, for every value of the variables
        if let Some(m) = self.far(a, b) {
            return (p & m != 0) as T;
        }
        self.mk(K::FCmp(p, a, b), 1)
    }
    /// which of gt (2), lt (4) holds between two doubles, when affine bounds decide
    fn far(&mut self, a: T, b: T) -> Option<FP> {
        for (x, y, gt, lt) in [(a, b, 2, 4), (b, a, 4, 2)] {
            if let (K::FU(FU::Abs, v), Some(c)) = (self.k(x).clone(), self.cval(y)) {
                let c = f64::from_bits(c as u64);
                let v = self.aff(v, 8)?;
                let (lo, hi) = self.aff_range(&v)?;
                return if c.is_nan() {
                    None
                } else if lo.abs().max(hi.abs()) < c {
                    Some(lt)
                } else if lo > c || hi < -c {
                    Some(gt)
                } else {
                    None
                };
            }
        }
        for (x, y, gt, lt) in [(a, b, 2, 4), (b, a, 4, 2)] {
            if let Some(c) = self.cval(y) {
                let c = f64::from_bits(c as u64);
                if c.abs() > 1e150 {
                    let v = self.aff(x, 8)?;
                    let (lo, hi) = self.aff_range(&v)?;
                    if lo.abs().max(hi.abs()) > 1e149 {
                        return None;
                    }
                    return Some(if c > 0.0 { lt } else { gt });
                }
            }
        }
        let x = self.aff(a, 8)?;
        let y = self.aff(b, 8)?;
        let d = self.aff_add(&x, &y, -1.0);
        let (lo, hi) = self.aff_range(&d)?;
        if lo > 0.0 {
            Some(2)
        } else if hi < 0.0 {
            Some(4)
        } else {
            None
        }
    }
    fn aff_mag(&mut self, f: &Aff) -> f64 {
        let mut m = f.c.abs() + f.e;
        for (t, c) in &f.t {
            let (lo, hi) = self.srng(*t);
            m += c.abs() * lo.unsigned_abs().max(hi.unsigned_abs()) as f64;
        }
        m * 1.0001
    }
    fn aff_range(&mut self, f: &Aff) -> Option<(f64, f64)> {
        let (mut lo, mut hi) = (f.c - f.e, f.c + f.e);
        for (t, c) in &f.t {
            let (l, h) = self.srng(*t);
            let (x, y) = (l as f64 * c, h as f64 * c);
            lo += x.min(y);
            hi += x.max(y);
        }
        let m = self.aff_mag(f) * 1e-15;
        (lo.is_finite() && hi.is_finite() && lo.abs().max(hi.abs()) < 1e250).then_some((lo - m, hi + m))
    }
    fn aff_add(&mut self, a: &Aff, b: &Aff, k: f64) -> Aff {
        let mut t: Vec<(T, f64)> = a.t.clone();
        let mut e = a.e + b.e * k.abs();
        e += (self.aff_mag(a) + self.aff_mag(b) * k.abs()) * 4e-16;
        for (x, c) in &b.t {
            match t.iter_mut().find(|q| q.0 == *x) {
                Some(q) => q.1 += c * k,
                None => t.push((*x, c * k)),
            }
        }
        t.retain(|q| q.1 != 0.0);
        Aff { c: a.c + b.c * k, t, e }
    }
    /// affine view of a double: c + sum of coefficient * integer, within e
    fn aff(&mut self, t: T, depth: u32) -> Option<Aff> {
        if let Some(c) = self.cval(t) {
            let c = f64::from_bits(c as u64);
            return c.is_finite().then_some(Aff { c, t: vec![], e: 0.0 });
        }
        if depth == 0 {
            return None;
        }
        match *self.k(t) {
            K::Dec(k, s) => {
                let p = 10f64.powi(s as i32);
                let il = self.as_sint(k)?;
                let mut f = Aff { c: il.c as f64 / p, t: il.t.iter().map(|q| (q.0, q.1 as f64 / p)).collect(), e: 0.0 };
                f.e = self.aff_mag(&f) * 8e-16;
                Some(f)
            }
            K::F(op, a, b) => {
                let x = self.aff(a, depth - 1)?;
                let y = self.aff(b, depth - 1)?;
                let mut r = match op {
                    FB::Add => self.aff_add(&x, &y, 1.0),
                    FB::Sub => self.aff_add(&x, &y, -1.0),
                    FB::Mul | FB::Div => {
                        let (v, c) = if y.t.is_empty() && y.e == 0.0 {
                            (x, if op == FB::Mul { y.c } else { 1.0 / y.c })
                        } else if op == FB::Mul && x.t.is_empty() && x.e == 0.0 {
                            (y, x.c)
                        } else {
                            return None;
                        };
                        if !c.is_finite() || (c != 0.0 && c.abs() < 1e-200) {
                            return None;
                        }
                        let m = self.aff_mag(&v) * c.abs();
                        Aff { c: v.c * c, t: v.t.iter().map(|q| (q.0, q.1 * c)).collect(), e: v.e * c.abs() + m * 8e-16 }
                    }
                    _ => return None,
                };
                let m = self.aff_mag(&r);
                if m > 1e200 {
                    return None;
                }
                // rounding of the operation (and of denormals)
                r.e = (r.e + m * 2e-16) * 1.0001 + 1e-300;
                Some(r)
            }
            K::FU(FU::Neg, a) => {
                let x = self.aff(a, depth - 1)?;
                Some(Aff { c: -x.c, t: x.t.iter().map(|q| (q.0, -q.1)).collect(), e: x.e })
            }
            K::FU(FU::Round | FU::RoundEven | FU::Floor | FU::Trunc | FU::Ceil, a) => {
                let mut x = self.aff(a, depth - 1)?;
                x.e += 1.0;
                Some(x)
            }
            _ => None,
        }
    }
    fn icmp_mask(&mut self, p: FP, x: T, y: T) -> T {
        match p {
            1 => self.eq(x, y),
            2 => self.slt(y, x),
            3 => self.sle(y, x),
            4 => self.slt(x, y),
            5 => self.sle(x, y),
            6 => {
                let e = self.eq(x, y);
                self.not(e)
            }
            _ => 1,
        }
    }
    /// (k, s, e): the double is within e of k/10^s, for every value of the variables
    fn near(&mut self, t: T, depth: u32) -> Option<(T, i32, f64)> {
        const U: f64 = 1.2e-16; // (unit roundoff, rounded up)
        if let Some((k, s)) = self.as_dec(t) {
            let (lo, hi) = self.srng(k);
            let m = lo.unsigned_abs().max(hi.unsigned_abs()) as f64;
            return Some((k, s as i32, m * 1.0001 / 10f64.powi(s as i32) * U));
        }
        if depth == 0 {
            return None;
        }
        let K::F(op, a, b) = *self.k(t) else { return None };
        let mag = |s: &mut Tm, k: T, sc: i32| {
            let (lo, hi) = s.srng(k);
            lo.unsigned_abs().max(hi.unsigned_abs()) as f64 * 1.0001 * 10f64.powi(-sc)
        };
        match op {
            FB::Add | FB::Sub => {
                let (ka, sa, ea) = self.near(a, depth - 1)?;
                let (kb, sb, eb) = self.near(b, depth - 1)?;
                let s = sa.max(sb);
                let up = |t: &mut Tm, k: T, d: i32| -> Option<T> {
                    let (lo, hi) = t.srng(k);
                    let m = lo.unsigned_abs().max(hi.unsigned_abs());
                    if d > 18 || m.checked_mul(pow10(d as u32) as u128)? >= 1 << 60 {
                        return None;
                    }
                    Some(t.lin(0, vec![(k, pow10(d as u32) as u128)], 64))
                };
                let (ka, kb) = (up(self, ka, s - sa)?, up(self, kb, s - sb)?);
                let k = if op == FB::Add { self.add(ka, kb) } else { self.sub(ka, kb) };
                let e = ea + eb;
                // (magnitude before the result of a cancelling subtraction)
                let m = mag(self, ka, s) + mag(self, kb, s) + e;
                Some((k, s, (e + m * U) * 1.0001))
            }
            FB::Mul => {
                let (x, c) = if self.cval(b).is_some() { (a, b) } else { (b, a) };
                let p = self.pow10_of(c)?;
                let (k, s, e) = self.near(x, depth - 1)?;
                let f = 10f64.powi(p as i32);
                let m = mag(self, k, s) * f + e * f;
                Some((k, s - p as i32, (e * f + m * U) * 1.0001))
            }
            FB::Div => {
                // by a divisor of the numerator
                let c = self.int_of(b)? as i128;
                if c <= 0 || c > 1 << 40 {
                    return None;
                }
                let (k, s, e) = self.near(a, depth - 1)?;
                let il = self.as_sint(k)?;
                if il.c % c != 0 || il.t.iter().any(|q| q.1 % c != 0) {
                    return None;
                }
                let ts: Vec<(T, i128)> = il.t.iter().map(|q| (q.0, q.1 / c)).collect();
                let q = self.from_il(il.c / c, &ts, 64);
                let m = mag(self, q, s) + e;
                Some((q, s, (e / c as f64 + m * U) * 1.0001))
            }
            _ => None,
        }
    }
    pub fn ftoi(&mut self, signed: bool, a: T, w: u32) -> T {
        if let Some(c) = self.cval(a) {
            return self.cst(ftoi_eval(signed, c as u64, w), w);
        }
        // rounding what is close to an integer
        if let K::FU(FU::Round | FU::RoundEven, x) = *self.k(a) {
            if let Some((k, s, e)) = self.near(x, 4) {
                if e < 0.4 && (-18..=0).contains(&s) {
                    let (lo, hi) = self.srng(k);
                    let p = pow10(-s as u32);
                    let m = lo.unsigned_abs().max(hi.unsigned_abs());
                    if m.checked_mul(p as u128).map(|v| v < 1 << 50).unwrap_or(false) {
                        let q = self.lin(0, vec![(k, p as u128)], 64);
                        let a = self.dec(q, 0);
                        return self.ftoi(signed, a, w);
                    }
                }
            }
        }
        if let K::Dec(k, s) = *self.k(a) {
            let (lo, hi) = self.srng(k);
            if lo.unsigned_abs().max(hi.unsigned_abs()) < 1 << 51 && s <= 18 && (lo >= 0 || hi <= 0) {
                let q = if s == 0 {
                    k
                } else {
                    let p = self.cst(pow10(s as u32) as u128, 64);
                    self.sdiv(k, p)
                };
                let (ql, qh) = self.srng(q);
                let (ml, mh) = if signed {
                    (if w >= 127 { i128::MIN } else { -(1i128 << (w - 1)) }, if w >= 127 { i128::MAX } else { (1i128 << (w - 1)) - 1 })
                } else {
                    (0, if w >= 127 { i128::MAX } else { (1i128 << w) - 1 })
                };
                if ql >= ml && qh <= mh {
                    return if w <= 64 { self.trunc(q, w) } else { self.sext(q, w) };
                }
            }
        }
        self.mk(K::FToI(signed, a), w)
    }
    pub fn itof(&mut self, signed: bool, a: T) -> T {
        let (lo, hi) = if signed {
            self.srng(a)
        } else {
            let (l, h) = self.rng(a);
            if h > 1 << 60 {
                return self.mk(K::IToF(signed, a), 64);
            }
            (l as i128, h as i128)
        };
        if lo.unsigned_abs().max(hi.unsigned_abs()) <= 1 << 53 {
            let w = self.w(a);
            let k = if w > 64 {
                self.trunc(a, 64)
            } else if signed {
                self.sext(a, 64)
            } else {
                self.zext(a, 64)
            };
            return self.dec(k, 0);
        }
        self.mk(K::IToF(signed, a), 64)
    }

    // ---------- evaluation under an assignment ----------
    pub fn eval(&self, t: T, model: &[u128], memo: &mut FxMap<T, u128>) -> u128 {
        match self.k(t) {
            K::Const(c) => return *c,
            K::Var(v) => return model.get(*v as usize).copied().unwrap_or(0) & mask(self.w(t)),
            K::InSet(v, s) => return bit(s, model.get(*v as usize).copied().unwrap_or(0) as usize & 255) as u128,
            _ => {}
        }
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let w = self.w(t);
        let r = match self.k(t) {
            K::Lin(c, ts) => {
                let mut s = *c;
                for (a, k) in ts.iter() {
                    s = s.wrapping_add(self.eval(*a, model, memo).wrapping_mul(*k));
                }
                s & mask(w)
            }
            K::Ite(c, a, b) => {
                if self.eval(*c, model, memo) & 1 == 1 {
                    self.eval(*a, model, memo)
                } else {
                    self.eval(*b, model, memo)
                }
            }
            K::And(a, b) if w == 1 => (self.eval(*a, model, memo) == 1 && self.eval(*b, model, memo) == 1) as u128,
            K::Or(a, b) if w == 1 => (self.eval(*a, model, memo) == 1 || self.eval(*b, model, memo) == 1) as u128,
            k => {
                let (c, n) = Self::children(k);
                let mut args = [0u128; 3];
                let mut ws = [0u32; 3];
                for j in 0..n {
                    args[j] = self.eval(c[j], model, memo);
                    ws[j] = self.w(c[j]);
                }
                eval_op(k, w, &ws, &args)
            }
        };
        memo.insert(t, r);
        r
    }
    pub fn ev(&self, t: T, model: &[u128]) -> u128 {
        let mut m = Default::default();
        self.eval(t, model, &mut m)
    }
    /// floating point operations are involved (decimals are not: they are solved as integers)
    pub fn floats(&self, t: T) -> bool {
        let mut seen: std::collections::HashSet<T> = Default::default();
        let mut work = vec![t];
        while let Some(t) = work.pop() {
            if !seen.insert(t) {
                continue;
            }
            let k = self.k(t);
            if matches!(k, K::F(..) | K::FU(..) | K::FCmp(..) | K::FToI(..)) {
                return true;
            }
            match k {
                K::Lin(_, ts) => work.extend(ts.iter().map(|x| x.0)),
                k => {
                    let (c, n) = Self::children(k);
                    work.extend(&c[..n]);
                }
            }
        }
        false
    }
    pub fn show(&self, t: T, depth: u32) -> String {
        let k = self.k(t);
        if depth == 0 {
            return format!("#{}", t);
        }
        match k {
            K::Const(c) => format!("{}", c),
            K::Var(v) => format!("v{}", v),
            K::InSet(v, s) => format!("v{} in {:x?}", v, s),
            K::Lin(c, ts) => {
                let mut s = format!("({}", sgn(*c, self.w(t)));
                for (a, k) in ts.iter() {
                    s += &format!(" + {}*{}", sgn(*k, self.w(t)), self.show(*a, depth - 1));
                }
                s + &format!("):{}", self.w(t))
            }
            K::Tab(a, _) => format!("tab({})", self.show(*a, depth - 1)),
            K::Dec(a, s) => format!("dec({},{})", self.show(*a, depth - 1), s),
            k => {
                let (c, n) = Self::children(k);
                let name = format!("{:?}", k);
                let name = name.split('(').next().unwrap().to_string();
                let a: Vec<String> = c[..n].iter().map(|x| self.show(*x, depth - 1)).collect();
                format!("{}({}):{}", name, a.join(", "), self.w(t))
            }
        }
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

pub fn feval(op: FB, x: u64, y: u64) -> u64 {
    let (a, b) = (f64::from_bits(x), f64::from_bits(y));
    (match op {
        FB::Add => a + b,
        FB::Sub => a - b,
        FB::Mul => a * b,
        FB::Div => a / b,
        FB::Rem => a % b,
    })
    .to_bits()
}
pub fn fueval(op: FU, x: u64) -> u64 {
    let a = f64::from_bits(x);
    (match op {
        FU::Neg => return x ^ (1 << 63),
        FU::Abs => a.abs(),
        FU::Floor => a.floor(),
        FU::Ceil => a.ceil(),
        FU::Trunc => a.trunc(),
        FU::Round => a.round(),
        FU::RoundEven => a.round_ties_even(),
        FU::Sqrt => a.sqrt(),
    })
    .to_bits()
}
pub fn fcmp_eval(p: FP, x: u64, y: u64) -> bool {
    let (a, b) = (f64::from_bits(x), f64::from_bits(y));
    if a.is_nan() || b.is_nan() {
        return p & 8 != 0;
    }
    (p & 1 != 0 && a == b) || (p & 2 != 0 && a > b) || (p & 4 != 0 && a < b)
}
pub fn ftoi_eval(signed: bool, x: u64, w: u32) -> u128 {
    let a = f64::from_bits(x);
    if signed {
        let v = a as i128;
        let (lo, hi) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
        (v.max(lo).min(hi) as u128) & mask(w)
    } else {
        let v = a as u128;
        v.min(mask(w))
    }
}

pub fn eval_op(k: &K, w: u32, ws: &[u32], a: &[u128; 3]) -> u128 {
    let m = mask(w);
    let (x, y) = (a[0], a[1]);
    let wa = if ws.is_empty() { w } else { ws[0] };
    (match k {
        K::And(..) => x & y,
        K::Or(..) => x | y,
        K::Xor(..) => x ^ y,
        K::Shl(..) => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        K::LShr(..) => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        K::AShr(..) => {
            let s = sgn(x, w);
            (if y >= w as u128 {
                s >> 127
            } else {
                s >> y
            }) as u128
        }
        K::UDiv(..) => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        K::URem(..) => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        K::SDiv(..) => {
            let (p, q) = (sgn(x, w), sgn(y, w));
            if q == 0 {
                if p < 0 {
                    1
                } else {
                    m
                }
            } else {
                p.wrapping_div(q) as u128
            }
        }
        K::SRem(..) => {
            let (p, q) = (sgn(x, w), sgn(y, w));
            if q == 0 {
                x
            } else {
                p.wrapping_rem(q) as u128
            }
        }
        K::Mul(..) => x.wrapping_mul(y),
        K::Ext(_, lo) => x >> lo,
        K::SExt(_) => sgn(x, wa) as u128,
        K::Eq(..) => (x == y) as u128,
        K::Ult(..) => (x < y) as u128,
        K::Slt(..) => (sgn(x, wa) < sgn(y, wa)) as u128,
        K::Ite(..) => {
            if x & 1 == 1 {
                y
            } else {
                a[2]
            }
        }
        K::Tab(_, t) => t.get(x as usize).copied().unwrap_or(0) as u128,
        K::Dec(_, s) => dec_to_f64(x as u64 as i64, *s as u32).to_bits() as u128,
        K::F(op, ..) => feval(*op, x as u64, y as u64) as u128,
        K::FU(op, _) => fueval(*op, x as u64) as u128,
        K::FCmp(p, ..) => fcmp_eval(*p, x as u64, y as u64) as u128,
        K::FToI(s, _) => ftoi_eval(*s, x as u64, w),
        K::IToF(s, _) => {
            let f = if *s { sgn(x, wa) as f64 } else { x as f64 };
            f.to_bits() as u128
        }
        K::Const(_) | K::Var(_) | K::InSet(..) | K::Lin(..) => unreachable!(),
    }) & m
}
