//! Symbolic interpreter: states, memory, forking.
use crate::ll::*;
use crate::term::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(T),
    A(Rc<Vec<Val>>),
}
use Val::*;

const NOSYM: T = u32::MAX;
pub const FN_BASE: u64 = 0xF000_0000_0000_0000;
const STACK_IDX: u64 = 0x4000_0000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<(T, u8)>>,
    pub constant: bool,
}
#[derive(Clone)]
struct Chunk {
    o: Vec<Option<Rc<Obj>>>,
}
const CH: usize = 64;
#[derive(Clone)]
struct Table {
    c: Vec<Rc<Chunk>>,
    n: usize,
}
impl Table {
    fn new() -> Table {
        Table { c: vec![], n: 0 }
    }
    fn get(&self, i: usize) -> Option<&Obj> {
        self.c.get(i / CH)?.o.get(i % CH)?.as_deref()
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.c.get_mut(i / CH)?);
        Some(Rc::make_mut(c.o.get_mut(i % CH)?.as_mut()?))
    }
    fn push(&mut self, o: Obj) -> usize {
        let i = self.n;
        if i / CH >= self.c.len() {
            self.c.push(Rc::new(Chunk { o: Vec::with_capacity(CH) }));
        }
        let c = Rc::make_mut(&mut self.c[i / CH]);
        c.o.push(Some(Rc::new(o)));
        self.n += 1;
        i
    }
    fn free(&mut self, i: usize) {
        if let Some(c) = self.c.get_mut(i / CH) {
            let c = Rc::make_mut(c);
            if let Some(s) = c.o.get_mut(i % CH) {
                *s = None;
            }
        }
    }
    fn truncate(&mut self, n: usize) {
        while self.n > n {
            let i = self.n - 1;
            let c = Rc::make_mut(&mut self.c[i / CH]);
            c.o.pop();
            if c.o.is_empty() {
                self.c.pop();
            }
            self.n -= 1;
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: &'static XFunc,
    regs: Vec<Val>,
    blk: u32,
    ip: u32,
    sp: usize,
    dst: u32,
    next: Option<u32>,
}

pub struct XFunc {
    pub f: Func,
    pub consts: Vec<Val>,
}

#[derive(Clone, Debug)]
pub enum Inp {
    V(T),
    C(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Table,
    stack: Table,
    dom: Rc<Vec<[u64; 4]>>,
    facts: Rc<FxMap<T, (u128, u128)>>,
    known: Rc<FxMap<T, bool>>,
    pc: Rc<Vec<T>>,
    rel: Rc<Vec<bool>>,
    model: Rc<Vec<u128>>,
    inputs: Rc<Vec<Inp>>,
    obs: Rc<Vec<Val>>,
    steps: u64,
    forks: u32,
    nconc: u32,
    choices: u32,
}

pub enum Stop {
    End,
    Silent,
    Infeasible,
    Panic(String, Option<String>),
    Unsupported(String),
    Limit(&'static str),
}
type R<X> = Result<X, Stop>;

fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsupported(s.into()))
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub silent: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub insts: u64,
    pub checks: u64,
    pub checks_folded: u64,
    pub checks_solver: u64,
    pub branch_solver: u64,
    pub branch_dom: u64,
    pub small: u64,
    pub audits: u64,
    pub audits_unsat: u64,
    pub audits_unknown: u64,
    pub audit_bad: Vec<String>,
    pub audit_seen: std::collections::HashMap<String, u32>,
    pub audit_s: f64,
    pub path_sat: u64,
    pub concretized: u64,
    pub limits: BTreeMap<String, u64>,
    pub unsupported: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub checkids: BTreeMap<String, u64>,
    pub max_vars: usize,
    pub panics_allowed: u64,
}

pub struct Cfg {
    pub max_steps: u64,
    pub time: f64,
    pub max_viol: usize,
    pub samples: usize,
    pub shard: (u64, u64),
    pub panic_ok: bool,
    pub trace: bool,
    pub tier: u32,
    /// term rewriting audit: queries, seconds
    pub audit: (u64, f64),
    pub max_states: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Hook {
    None,
    Builtin(u32),
    Model(u32, u8), // model fn index, condition kind
}

struct FnEnt {
    name: String,
    hook: Hook,
    body: Option<Option<&'static XFunc>>,
    used: bool,
}

pub struct Exec {
    pub m: Module,
    fns: Vec<FnEnt>,
    fidx: HashMap<String, u32>,
    gaddr: HashMap<String, u64>,
    pub z3: Z3,
    pub cfg: Cfg,
    pub st: Stats,
    pub viols: Vec<Violation>,
    pub samples: Vec<Sample>,
    work: Vec<State>,
    t0: std::time::Instant,
    nglobals: usize,
    pub timed_out: bool,
    rng: u64,
    prof: HashMap<String, u64>,
}

pub fn val_t(v: &Val, w: u32) -> T {
    match v {
        C(c) => tm().cst(*c, w),
        S(t) => *t,
        A(_) => panic!("aggregate as scalar"),
    }
}
pub fn t_val(t: T) -> Val {
    match tm().cval(t) {
        Some(c) => C(c),
        None => S(t),
    }
}

fn zero_of(t: &Ty) -> Val {
    if t.is_agg() {
        let n = t.count();
        A(Rc::new((0..n).map(|i| zero_of(&t.field(i))).collect()))
    } else {
        C(0)
    }
}

const BUILTINS: &[&str] = &["__alloc", "__dealloc", "__realloc", "__alloc_zeroed", "__panic", "__siphash"];

impl Exec {
    pub fn new(m: Module, z3: Z3, cfg: Cfg) -> Exec {
        let mut e = Exec {
            m,
            fns: vec![],
            fidx: HashMap::new(),
            gaddr: HashMap::new(),
            z3,
            cfg,
            st: Stats::default(),
            viols: vec![],
            samples: vec![],
            work: vec![],
            t0: std::time::Instant::now(),
            nglobals: 0,
            timed_out: false,
            rng: 0x9E3779B97F4A7C15,
            prof: HashMap::new(),
        };
        let mut names: Vec<String> = e.m.funcs.keys().cloned().chain(e.m.decls.keys().cloned()).collect();
        names.sort();
        for n in names {
            if e.fidx.contains_key(&n) {
                continue;
            }
            let i = e.fns.len() as u32;
            e.fidx.insert(n.clone(), i);
            e.fns.push(FnEnt { name: n, hook: Hook::None, body: None, used: false });
        }
        for i in 0..e.fns.len() {
            let h = e.hook_for(&e.fns[i].name.clone());
            e.fns[i].hook = h;
        }
        for (i, g) in e.m.globals.iter().enumerate() {
            e.gaddr.insert(g.name.clone(), ((i as u64) + 1) << 32);
        }
        e.nglobals = e.m.globals.len();
        e
    }
    fn hook_for(&self, n: &str) -> Hook {
        let b = |s: &str| Hook::Builtin(BUILTINS.iter().position(|x| *x == s).unwrap() as u32);
        if n.ends_with("___rustc12___rust_alloc") {
            return b("__alloc");
        }
        if n.ends_with("___rust_dealloc") {
            return b("__dealloc");
        }
        if n.ends_with("___rust_realloc") {
            return b("__realloc");
        }
        if n.ends_with("___rust_alloc_zeroed") {
            return b("__alloc_zeroed");
        }
        let panics = [
            "4core9panicking", "4core6option13expect_failed", "4core6option13unwrap_failed", "4core6result13unwrap_failed",
            "4core3str16slice_error_fail", "5alloc18handle_alloc_error", "12handle_error", "17capacity_overflow",
            "slice5index16slice_index_fail", "slice_start_index_len_fail", "slice_end_index_len_fail", "slice_index_order_fail",
            "copy_from_slice_impl17len_mismatch_fail", "17len_mismatch_fail", "panic_already_borrowed", "panic_already_mutably_borrowed",
            "3vec16assert_failed", "13assert_failed", "15rust_panic", "rust_begin_unwind", "19begin_panic",
        ];
        if panics.iter().any(|p| n.contains(p)) {
            return b("__panic");
        }
        let model = |s: &str, k: u8| match self.fidx.get(s) {
            Some(i) => Hook::Model(*i, k),
            None => Hook::None,
        };
        if n.ends_with("float_parsed7FromStr8from_str") || n.contains("float_parsed") && n.ends_with("7FromStr8from_str") {
            return model("model_f64_from_str", 1);
        }
        if n.contains("float_parsef") && n.ends_with("7FromStr8from_str") {
            return model("model_f32_from_str", 1);
        }
        if n.contains("29float_to_decimal_common_exactd") {
            return model("model_f64_exact", 2);
        }
        if n.contains("32float_to_decimal_common_shortestd") {
            return model("model_f64_shortest", 2);
        }
        if n.contains("3fmt3num3imp") || n.contains("core3fmt3num") {
            for (c, s) in [("h", "u8"), ("t", "u16"), ("m", "u32"), ("j", "u64"), ("y", "u64"), ("a", "i8"), ("s", "i16"), ("l", "i32"), ("x", "i64"), ("i", "i64")] {
                if n.ends_with(&format!("3num3imp{}NtB9_7Display3fmt", c)) || n.ends_with(&format!("imp{}NtB9_7Display3fmt", c)) || (n.contains(&format!("3num3imp{}Nt", c)) && n.ends_with("7Display3fmt")) {
                    return model(&format!("model_fmt_{}", s), 3);
                }
            }
        }
        if n.contains("6memchr14memchr_aligned") {
            return model("model_memchr_aligned", 4);
        }
        if n.contains("6memchr15memrchr_aligned") || n.ends_with("5slice6memchr7memrchr") {
            return model("model_memrchr", 4);
        }
        if n.ends_with("str5count14do_count_chars") {
            return model("model_count_chars", 4);
        }
        Hook::None
    }
    fn sym_addr(&self, n: &str) -> Option<u64> {
        if let Some(a) = self.gaddr.get(n) {
            return Some(*a);
        }
        self.fidx.get(n).map(|i| FN_BASE + ((*i as u64) << 8))
    }
    fn resolve(&self, c: &Cst, t: &Ty) -> Val {
        match c {
            Cst::Int(v) => C(*v & mask(t.bits().max(1))),
            Cst::Undef | Cst::Zero => zero_of(t),
            Cst::Sym(n, o) => C(self.sym_addr(n).unwrap_or(0xDEAD_0000_0000).wrapping_add(*o as u64) as u128),
            Cst::Agg(v) => A(Rc::new(v.iter().map(|(t, c)| self.resolve(c, t)).collect())),
            Cst::Bytes(b) => A(Rc::new(b.iter().map(|x| C(*x as u128)).collect())),
            Cst::Splat(b) => {
                let v = self.resolve(&b.1, &b.0);
                A(Rc::new(vec![v; t.count()]))
            }
        }
    }
    fn write_cst(&self, data: &mut [u8], off: usize, t: &Ty, c: &Cst) {
        match c {
            Cst::Bytes(b) => data[off..off + b.len()].copy_from_slice(b),
            Cst::Agg(v) => {
                let mut o = 0u64;
                let packed = matches!(t, Ty::Struct(_, true));
                for (ft, fc) in v.iter() {
                    if !packed {
                        let a = ft.align();
                        o = (o + a - 1) / a * a;
                    }
                    self.write_cst(data, off + o as usize, ft, fc);
                    o += ft.size();
                }
            }
            Cst::Undef | Cst::Zero => {}
            Cst::Splat(b) => {
                let n = t.count();
                let sz = b.0.size() as usize;
                for i in 0..n {
                    self.write_cst(data, off + i * sz, &b.0, &b.1);
                }
            }
            _ => {
                if let C(v) = self.resolve(c, t) {
                    let n = t.size() as usize;
                    let b = v.to_le_bytes();
                    data[off..off + n].copy_from_slice(&b[..n]);
                }
            }
        }
    }
    fn init_state(&mut self) -> State {
        let mut heap = Table::new();
        heap.push(Obj { data: vec![], sym: None, constant: true }); // null
        heap.free(0);
        for g in &self.m.globals {
            let n = g.ty.size() as usize;
            let mut data = vec![0u8; n.max(1)];
            if let Some(c) = &g.init {
                self.write_cst(&mut data, 0, &g.ty, c);
            }
            heap.push(Obj { data, sym: None, constant: g.constant });
        }
        State {
            frames: vec![],
            heap,
            stack: Table::new(),
            dom: Rc::new(vec![]),
            facts: Default::default(),
            known: Default::default(),
            pc: Rc::new(vec![]),
            rel: Rc::new(vec![]),
            model: Rc::new(vec![]),
            inputs: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            steps: 0,
            forks: 0,
            nconc: 0,
            choices: 0,
        }
    }
    fn body(&mut self, i: u32) -> Option<&'static XFunc> {
        if let Some(b) = self.fns[i as usize].body {
            return b;
        }
        let name = self.fns[i as usize].name.clone();
        let r = self.m.parse_fn(&name).map(|mut f| {
            let mut consts = vec![];
            for b in f.blocks.iter_mut() {
                for (_, t, inc) in b.phis.iter_mut() {
                    for (_, o) in inc.iter_mut() {
                        if let Opd::C(c) = o {
                            consts.push(self.resolve(c, t));
                            *o = Opd::K(consts.len() as u32 - 1);
                        }
                    }
                }
                for ins in b.insts.iter_mut() {
                    visit_opds(&mut ins.op, &mut |o, t| {
                        if let Opd::C(c) = o {
                            consts.push(self.resolve(c, t));
                            *o = Opd::K(consts.len() as u32 - 1);
                        }
                    });
                }
            }
            &*Box::leak(Box::new(XFunc { f, consts }))
        });
        self.fns[i as usize].body = Some(r);
        self.fns[i as usize].used = true;
        r
    }
    pub fn used_functions(&self) -> Vec<(String, usize)> {
        let mut v: Vec<(String, usize)> = self
            .fns
            .iter()
            .filter(|f| f.used)
            .filter_map(|f| f.body.flatten().map(|b| (f.name.clone(), b.f.ninst)))
            .collect();
        v.sort();
        v
    }

    // ---------- memory ----------
    fn obj<'a>(&self, s: &'a State, a: u64) -> R<(&'a Obj, usize)> {
        let i = a >> 32;
        let off = (a & 0xffff_ffff) as usize;
        let o = if i >= STACK_IDX { s.stack.get((i - STACK_IDX) as usize) } else { s.heap.get(i as usize) };
        match o {
            Some(o) => Ok((o, off)),
            None => Err(Stop::Panic(format!("memory: invalid pointer {:#x}", a), None)),
        }
    }
    fn obj_mut<'a>(&self, s: &'a mut State, a: u64) -> R<(&'a mut Obj, usize)> {
        let i = a >> 32;
        let off = (a & 0xffff_ffff) as usize;
        let o = if i >= STACK_IDX { s.stack.get_mut((i - STACK_IDX) as usize) } else { s.heap.get_mut(i as usize) };
        match o {
            Some(o) => Ok((o, off)),
            None => Err(Stop::Panic(format!("memory: invalid pointer {:#x}", a), None)),
        }
    }
    fn rd(&self, s: &State, a: u64, n: usize, w: u32) -> R<Val> {
        let (o, off) = self.obj(s, a)?;
        if off + n > o.data.len() {
            return Err(Stop::Panic(format!("memory: read of {} bytes at {:#x}, object of {} bytes", n, a, o.data.len()), None));
        }
        if let Some(sy) = &o.sym {
            let sl = &sy[off..off + n];
            if sl.iter().any(|x| x.0 != NOSYM) {
                let t = tm();
                let (t0, b0) = sl[0];
                if t0 != NOSYM && b0 == 0 && t.w(t0) as usize == 8 * n && sl.iter().enumerate().all(|(i, x)| x.0 == t0 && x.1 as usize == i) {
                    return Ok(if t.w(t0) == w { S(t0) } else { t_val(t.trunc(t0, w)) });
                }
                // runs
                let full = 8 * n as u32;
                let mut parts: Vec<(T, u128)> = vec![];
                let mut c = 0u128;
                let mut i = 0;
                while i < n {
                    let (ti, bi) = sl[i];
                    if ti == NOSYM {
                        c |= (o.data[off + i] as u128) << (8 * i);
                        i += 1;
                        continue;
                    }
                    let mut j = i + 1;
                    while j < n && sl[j].0 == ti && sl[j].1 as usize == bi as usize + (j - i) {
                        j += 1;
                    }
                    let wt = t.w(ti);
                    let e = if j - i == 1 {
                        t.byte(ti, bi as u32)
                    } else {
                        let bits = (8 * (j - i) as u32).min(wt - 8 * bi as u32);
                        t.ext(ti, 8 * bi as u32, bits)
                    };
                    if n == 1 {
                        return Ok(t_val(t.trunc(e, w)));
                    }
                    parts.push((e, 1u128 << (8 * i)));
                    i = j;
                }
                let l = t.lin(c, parts, full);
                return Ok(t_val(t.trunc(l, w)));
            }
        }
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&o.data[off..off + n]);
        Ok(C(u128::from_le_bytes(b) & mask(w)))
    }
    fn wr(&self, s: &mut State, a: u64, n: usize, v: &Val) -> R<()> {
        let (o, off) = self.obj_mut(s, a)?;
        if off + n > o.data.len() {
            return Err(Stop::Panic(format!("memory: write of {} bytes at {:#x}, object of {} bytes", n, a, o.data.len()), None));
        }
        match v {
            C(c) => {
                let b = c.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(sy) = &mut o.sym {
                    for x in &mut sy[off..off + n] {
                        x.0 = NOSYM;
                    }
                }
            }
            S(t) => {
                let w = tm().w(*t);
                let t = if w != 8 * n as u32 { tm().zext(*t, 8 * n as u32) } else { *t };
                let len = o.data.len();
                let sy = o.sym.get_or_insert_with(|| vec![(NOSYM, 0); len]);
                for i in 0..n {
                    sy[off + i] = (t, i as u8);
                }
            }
            A(_) => unreachable!(),
        }
        Ok(())
    }
    fn load(&mut self, s: &mut State, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) => {
                let n = t.count();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    v.push(self.load(s, a + t.field_off(i), &t.field(i))?);
                }
                Ok(A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                let sz = e.size();
                let mut v = Vec::with_capacity(*n as usize);
                // vectors of odd sized integers are packed
                if e.bits() % 8 != 0 {
                    let it = Ty::I(*n * e.bits());
                    let v = self.load(s, a, &it)?;
                    return self.bitcast(&it, t, &v);
                }
                for i in 0..*n as u64 {
                    v.push(self.load(s, a + i * sz, e)?);
                }
                Ok(A(Rc::new(v)))
            }
            _ => self.rd(s, a, t.store_size() as usize, t.bits()),
        }
    }
    fn store(&mut self, s: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Vec(n, e), A(_)) if e.bits() % 8 != 0 => {
                let it = Ty::I(*n * e.bits());
                let v = self.bitcast(t, &it, v)?;
                self.store(s, a, &it, &v)
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), A(l)) => {
                for (i, x) in l.clone().iter().enumerate() {
                    self.store(s, a + t.field_off(i), &t.field(i), x)?;
                }
                Ok(())
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), _) => Ok(()),
            _ => self.wr(s, a, t.store_size() as usize, v),
        }
    }
    fn alloc(&mut self, s: &mut State, n: u64) -> R<u64> {
        if n > 1 << 28 {
            return Err(Stop::Panic(format!("memory: allocation of {} bytes", n), None));
        }
        let i = s.heap.push(Obj { data: vec![0; n as usize], sym: None, constant: false });
        Ok((i as u64) << 32)
    }
    fn copy(&mut self, s: &mut State, d: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(s, src)?;
        if off + n > o.data.len() {
            return Err(Stop::Panic(format!("memory: copy of {} bytes from {:#x}, object of {} bytes", n, src, o.data.len()), None));
        }
        let data = o.data[off..off + n].to_vec();
        let sy = o.sym.as_ref().and_then(|x| {
            let sl = &x[off..off + n];
            if sl.iter().any(|y| y.0 != NOSYM) {
                Some(sl.to_vec())
            } else {
                None
            }
        });
        let (o, off) = self.obj_mut(s, d)?;
        if off + n > o.data.len() {
            return Err(Stop::Panic(format!("memory: copy of {} bytes to {:#x}, object of {} bytes", n, d, o.data.len()), None));
        }
        o.data[off..off + n].copy_from_slice(&data);
        match sy {
            Some(v) => {
                let len = o.data.len();
                let sy = o.sym.get_or_insert_with(|| vec![(NOSYM, 0); len]);
                sy[off..off + n].copy_from_slice(&v);
            }
            None => {
                if let Some(x) = &mut o.sym {
                    for y in &mut x[off..off + n] {
                        y.0 = NOSYM;
                    }
                }
            }
        }
        Ok(())
    }
    fn has_sym(&self, s: &State, a: u64, n: usize) -> bool {
        match self.obj(s, a) {
            Ok((o, off)) => match &o.sym {
                Some(x) => x.get(off..(off + n).min(x.len())).map(|l| l.iter().any(|y| y.0 != NOSYM)).unwrap_or(false),
                None => false,
            },
            _ => false,
        }
    }
    fn cstring(&self, s: &State, a: u64, n: usize) -> String {
        match self.obj(s, a) {
            Ok((o, off)) => {
                let e = (off + n).min(o.data.len());
                String::from_utf8_lossy(&o.data[off.min(e)..e]).into_owned()
            }
            _ => "?".into(),
        }
    }

    // ---------- path conditions ----------
    fn sync_in(&mut self, s: &State) {
        let t = tm();
        t.dom = s.dom.clone();
        t.facts = s.facts.clone();
    }
    fn add_rel(&mut self, s: &mut State, t: T) {
        let sup = tm().sup(t).clone();
        {
            let r = Rc::make_mut(&mut s.rel);
            for v in sup.iter() {
                if r.len() <= *v as usize {
                    r.resize(*v as usize + 1, false);
                }
                r[*v as usize] = true;
            }
        }
    }
    fn set_fact(&mut self, s: &mut State, t: T, lo: u128, hi: u128) {
        let (a, b) = tm().rng(t);
        let (lo, hi) = (a.max(lo), b.min(hi));
        let f = Rc::make_mut(&mut s.facts);
        f.insert(t, (lo, hi));
        tm().facts = s.facts.clone();
        if lo > hi {
            return;
        }
        match tm().k(t).clone() {
            K::UDiv(x, d) => {
                if let Some(d) = tm().cval(d) {
                    if let (Some(l), Some(h)) = (lo.checked_mul(d), hi.checked_mul(d).and_then(|h| h.checked_add(d - 1))) {
                        self.set_fact(s, x, l, h);
                    }
                }
            }
            K::Lin(..) => {
                if let Some(il) = tm().as_int(t) {
                    if let [(u, 1)] = il.t[..] {
                        if hi <= i128::MAX as u128 && hi as i128 >= il.c {
                            self.set_fact(s, u, (lo as i128 - il.c).max(0) as u128, (hi as i128 - il.c) as u128);
                        }
                    }
                    if let [(u, -1)] = il.t[..] {
                        // t = c - u
                        if hi <= i128::MAX as u128 && il.c >= lo as i128 {
                            self.set_fact(s, u, (il.c - hi as i128).max(0) as u128, (il.c - lo as i128) as u128);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    /// record `t == v` on the path
    fn assume(&mut self, s: &mut State, t: T, v: bool) {
        let k = tm().k(t).clone();
        match k {
            K::Const(_) => return,
            K::Xor(x, 1) => return self.assume(s, x, !v),
            K::And(a, b) if v => {
                self.assume(s, a, true);
                self.assume(s, b, true);
                Rc::make_mut(&mut s.known).insert(t, true);
                return;
            }
            K::Or(a, b) if !v => {
                self.assume(s, a, false);
                self.assume(s, b, false);
                Rc::make_mut(&mut s.known).insert(t, false);
                return;
            }
            K::InSet(var, set) => {
                let d = Rc::make_mut(&mut s.dom);
                while d.len() <= var as usize {
                    let i = d.len();
                    d.push(tm().vars[i].dom);
                }
                for i in 0..4 {
                    d[var as usize][i] &= if v { set[i] } else { !set[i] };
                }
                tm().dom = s.dom.clone();
                return;
            }
            _ => {}
        }
        Rc::make_mut(&mut s.known).insert(t, v);
        let c = if v { t } else { tm().not(t) };
        self.add_rel(s, c);
        Rc::make_mut(&mut s.pc).push(c);
        match k {
            K::Ult(a, b) => {
                let ca = tm().cval(a);
                let cb = tm().cval(b);
                match (ca, cb, v) {
                    (None, Some(c), true) => self.set_fact(s, a, 0, c.wrapping_sub(1)),
                    (None, Some(c), false) => self.set_fact(s, a, c, u128::MAX),
                    (Some(c), None, true) => self.set_fact(s, b, c + 1, u128::MAX),
                    (Some(c), None, false) => self.set_fact(s, b, 0, c),
                    _ => {}
                }
            }
            K::Slt(a, b) => {
                let w = tm().w(a);
                if w <= 64 {
                    let ca = tm().cval(a).map(|c| sgn(c, w));
                    let cb = tm().cval(b).map(|c| sgn(c, w));
                    let half = 1u128 << (w - 1);
                    match (ca, cb, v) {
                        (None, Some(c), false) if c >= 0 => self.set_fact(s, a, c as u128, half - 1),
                        (Some(c), None, true) if c >= -1 => self.set_fact(s, b, (c + 1) as u128, half - 1),
                        (None, Some(c), true) if c <= 0 => self.set_fact(s, a, half, (c - 1) as u128 & mask(w)),
                        (Some(c), None, false) if c < 0 => self.set_fact(s, b, half, c as u128 & mask(w)),
                        (None, Some(c), true) => {
                            if tm().srng(a).0 >= 0 {
                                self.set_fact(s, a, 0, (c - 1) as u128)
                            }
                        }
                        (Some(c), None, false) => {
                            if tm().srng(b).0 >= 0 {
                                self.set_fact(s, b, 0, c as u128)
                            }
                        }
                        _ => {}
                    }
                }
            }
            K::Eq(a, b) if !v => {
                // excluded ends of the range
                let (x, c) = match (tm().cval(a), tm().cval(b)) {
                    (None, Some(c)) => (a, c),
                    (Some(c), None) => (b, c),
                    _ => return,
                };
                let (lo, hi) = tm().rng(x);
                if lo < hi && c == lo {
                    self.set_fact(s, x, lo + 1, hi);
                } else if lo < hi && c == hi {
                    self.set_fact(s, x, lo, hi - 1);
                }
            }
            K::Eq(a, b) if v => {
                if let Some(c) = tm().cval(b) {
                    self.set_fact(s, a, c, c);
                } else if let Some(c) = tm().cval(a) {
                    self.set_fact(s, b, c, c);
                }
            }
            _ => {}
        }
    }
    fn slice(&self, s: &State, t: T) -> Vec<T> {
        let mut vars: Vec<bool> = vec![false; tm().vars.len()];
        for v in tm().sup(t).iter() {
            vars[*v as usize] = true;
        }
        let mut used = vec![false; s.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in s.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let sup = tm().sup(*c);
                if sup.iter().any(|v| vars[*v as usize]) {
                    used[i] = true;
                    out.push(*c);
                    for v in sup.iter() {
                        if !vars[*v as usize] {
                            vars[*v as usize] = true;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// floating point constraints over few assignments: complete evaluation of the formula,
    /// where bit-blasting would stall. None: not applicable
    fn small(&mut self, s: &State, cs: &[T]) -> Option<Option<Vec<u128>>> {
        const LIMIT: u128 = 1 << 17;
        if !cs.iter().any(|c| tm().floats(*c)) {
            return None;
        }
        let mut vars: Vec<u32> = vec![];
        for c in cs {
            for v in tm().sup(*c).iter() {
                if !vars.contains(v) {
                    vars.push(*v);
                }
            }
        }
        let mut doms: Vec<Vec<u128>> = vec![];
        let mut n = 1u128;
        for v in vars.iter() {
            let l: Vec<u128> = if tm().vars[*v as usize].w == 8 {
                let d = tm().curdom(*v);
                (0..256usize).filter(|i| d[i >> 6] >> (i & 63) & 1 == 1).map(|i| i as u128).collect()
            } else {
                let x = tm().var_term(*v);
                let (lo, hi) = tm().rng(x);
                if hi - lo >= LIMIT {
                    return None;
                }
                (lo..=hi).collect()
            };
            n *= l.len() as u128;
            if n > LIMIT {
                return None;
            }
            doms.push(l);
        }
        let mut m = (*s.model).clone();
        let top = vars.iter().max().map_or(0, |v| *v as usize + 1);
        if m.len() < top {
            m.resize(top, 0);
        }
        let mut idx = vec![0usize; vars.len()];
        if doms.iter().any(|d| d.is_empty()) {
            return Some(None);
        }
        self.st.small += 1;
        let mut memo = Default::default();
        loop {
            for (i, v) in vars.iter().enumerate() {
                m[*v as usize] = doms[i][idx[i]];
            }
            let mut ok = true;
            for c in cs.iter().rev() {
                if tm().eval(*c, &m, &mut memo) != 1 {
                    ok = false;
                    break;
                }
            }
            memo.clear();
            if ok {
                return Some(Some(m));
            }
            let mut i = 0;
            while i < idx.len() {
                idx[i] += 1;
                if idx[i] < doms[i].len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
            if i == idx.len() {
                return Some(None);
            }
        }
    }
    /// model of path && t, if any. Ok(None) = infeasible
    fn query(&mut self, s: &State, t: T) -> R<Option<Vec<u128>>> {
        match tm().cval(t) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some((*s.model).clone())),
            None => {}
        }
        // current model
        if tm().ev(t, &s.model) == 1 {
            return Ok(Some((*s.model).clone()));
        }
        if let K::InSet(v, set) = tm().k(t).clone() {
            if !s.rel.get(v as usize).copied().unwrap_or(false) {
                self.st.branch_dom += 1;
                let d = tm().curdom(v);
                for i in 0..256usize {
                    if (d[i >> 6] & set[i >> 6]) >> (i & 63) & 1 == 1 {
                        let mut m = (*s.model).clone();
                        m[v as usize] = i as u128;
                        return Ok(Some(m));
                    }
                }
                return Ok(None);
            }
        }
        let mut cs = self.slice(s, t);
        cs.push(t);
        self.st.branch_solver += 1;
        if let Some(r) = self.small(s, &cs) {
            return Ok(r);
        }
        match self.z3.check(&cs) {
            Res::Unsat => Ok(None),
            Res::Unknown => { if std::env::var("SYMIR_DEBUG").is_ok() { eprintln!("UNKNOWN {}", tm().show(t, 40)); for v in tm().sup(t).clone().iter() { let x = tm().var_term(*v); eprintln!("  v{} {:?}", v, tm().rng(x)); } for (k, f) in tm().facts.clone().iter() { eprintln!("  fact {} {:?}", tm().show(*k, 12), f); } } Err(Stop::Limit("solver timeout")) }
            Res::Sat(l) => {
                let mut m = (*s.model).clone();
                for (v, x) in l {
                    if m.len() <= v as usize {
                        m.resize(v as usize + 1, 0);
                    }
                    m[v as usize] = x;
                }
                let mut memo = Default::default();
                if cs.iter().any(|c| tm().eval(*c, &m, &mut memo) != 1) {
                    if cs.iter().any(|c| tm().floats(*c)) {
                        // doubles are encoded with a tolerance
                        return Err(Stop::Limit("solver model rejected by the evaluator"));
                    }
                    eprintln!("symir: model does not satisfy query: {}", tm().show(t, 5));
                    return Err(Stop::Unsupported("solver model rejected by the evaluator".into()));
                }
                Ok(Some(m))
            }
        }
    }
    /// decide a condition, forking if both outcomes are possible
    fn decide(&mut self, s: &mut State, t: T) -> R<bool> {
        if let Some(c) = tm().cval(t) {
            return Ok(c & 1 == 1);
        }
        if let Some(v) = s.known.get(&t) {
            return Ok(*v);
        }
        let n = tm().not(t);
        if let Some(v) = s.known.get(&n) {
            return Ok(!*v);
        }
        let cur = tm().ev(t, &s.model) == 1;
        let other = if cur { n } else { t };
        match self.query(s, other) {
            Ok(None) => {
                Rc::make_mut(&mut s.known).insert(t, cur);
                Ok(cur)
            }
            Ok(Some(m)) => {
                self.st.forks += 1;
                s.forks += 1;
                let mut o = s.clone();
                o.model = Rc::new(m);
                self.assume(&mut o, t, !cur);
                self.work.push(o);
                self.sync_in(s);
                self.assume(s, t, cur);
                if self.work.len() > self.cfg.max_states {
                    return Err(Stop::Limit("too many pending states"));
                }
                Ok(cur)
            }
            Err(Stop::Limit(l)) => {
                *self.st.limits.entry(l.to_string()).or_default() += 1;
                self.assume(s, t, cur);
                Ok(cur)
            }
            Err(e) => Err(e),
        }
    }
    fn conc(&mut self, s: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            C(c) => Ok(*c),
            A(_) => unsup("aggregate concretised"),
            S(t) => {
                let t = *t;
                let (lo, hi) = tm().rng(t);
                if lo == hi {
                    return Ok(lo);
                }
                let x = tm().ev(t, &s.model);
                let c = tm().cst(x, w);
                let e = tm().eq(t, c);
                self.st.concretized += 1;
                s.nconc += 1;
                if std::env::var("SYMIR_CONC").is_ok() {
                    eprintln!("concretise {} {:?}", tm().show(t, 40), self.backtrace(s));
                }
                if s.nconc > 20000 {
                    return Err(Stop::Limit("concretisations"));
                }
                if self.decide(s, e)? {
                    Ok(x)
                } else {
                    unreachable!("decide keeps the model's side")
                }
            }
        }
    }

    // ---------- run ----------
    pub fn run(&mut self, harness: &str) {
        let fi = match self.fidx.get(harness) {
            Some(i) => *i,
            None => {
                eprintln!("symir: harness {} not in IR", harness);
                std::process::exit(2);
            }
        };
        let mut s = self.init_state();
        let f = self.body(fi).expect("harness body");
        self.push_frame(&mut s, f, vec![], u32::MAX, None);
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.time {
                self.timed_out = true;
                *self.st.limits.entry("time budget".into()).or_default() += 1 + self.work.len() as u64;
                break;
            }
            self.sync_in(&s);
            let r = self.path(&mut s);
            self.st.max_vars = self.st.max_vars.max(s.inputs.len());
            match r {
                Stop::End => {
                    self.st.paths += 1;
                    if self.st.paths <= 4 && !s.pc.is_empty() {
                        // the path condition is satisfiable: nothing held vacuously
                        match self.z3.check(&s.pc) {
                            Res::Sat(_) => self.st.path_sat += 1,
                            Res::Unsat => self.st.audit_bad.push("unsatisfiable path condition at the end of a path".into()),
                            Res::Unknown => {}
                        }
                    }
                    self.sample(&s);
                }
                Stop::Silent => self.st.silent += 1,
                Stop::Infeasible => self.st.infeasible += 1,
                Stop::Panic(m, l) => {
                    self.st.paths += 1;
                    if self.cfg.panic_ok && !m.starts_with("memory") {
                        self.st.panics_allowed += 1;
                    } else {
                        self.violation(&s, "panic", &m, l.unwrap_or_default(), None);
                    }
                }
                Stop::Unsupported(m) => {
                    if self.cfg.trace {
                        eprintln!("unsupported: {} at {:?}", m, self.backtrace(&s));
                    }
                    *self.st.unsupported.entry(format!("{} in {}", m, self.backtrace(&s).first().cloned().unwrap_or_default())).or_default() += 1
                }
                Stop::Limit(m) => {
                    if self.cfg.trace {
                        eprintln!("limit: {} at {:?}", m, self.backtrace(&s));
                    }
                    if m == "step limit" {
                        self.violation(&s, "hang", "no termination within the step limit", String::new(), None);
                    }
                    *self.st.limits.entry(m.into()).or_default() += 1
                }
            }
            if self.viols.len() >= self.cfg.max_viol {
                *self.st.limits.entry("stopped after violations".into()).or_default() += 1;
                break;
            }
        }
        if std::env::var("SYMIR_PROF").is_ok() {
            let mut v: Vec<_> = self.prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (n, c) in v.iter().take(40) {
                eprintln!("{:>10} {}", c, n);
            }
        }
    }
    fn sample(&mut self, s: &State) {
        // reservoir over completed paths
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let k = self.cfg.samples;
        let idx = if self.samples.len() < k {
            self.samples.push(Sample { inputs: vec![], obs: vec![] });
            self.samples.len() - 1
        } else if k > 0 {
            let j = (self.rng % self.st.paths.max(1)) as usize;
            if j >= k {
                return;
            }
            j
        } else {
            return;
        };
        // a model other than the default one: randomise unconstrained digits
        let mut m = (*s.model).clone();
        for v in 0..m.len() {
            if tm().vars[v].w == 8 && !s.rel.get(v).copied().unwrap_or(false) {
                let d = tm().curdom(v as u32);
                let l: Vec<usize> = (0..256).filter(|i| d[i >> 6] >> (i & 63) & 1 == 1).collect();
                if !l.is_empty() {
                    self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    m[v] = l[(self.rng >> 33) as usize % l.len()] as u128;
                }
            }
        }
        self.samples[idx] = Sample { inputs: self.inputs(s, &m), obs: s.obs.iter().map(|v| self.evalv(v, &m)).collect() };
    }
    fn evalv(&self, v: &Val, m: &[u128]) -> u64 {
        match v {
            C(c) => *c as u64,
            S(t) => tm().ev(*t, m) as u64,
            A(_) => 0,
        }
    }
    fn inputs(&self, s: &State, m: &[u128]) -> Vec<u64> {
        s.inputs
            .iter()
            .map(|i| match i {
                Inp::V(t) => tm().ev(*t, m) as u64,
                Inp::C(c) => *c,
            })
            .collect()
    }
    fn backtrace(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().take(12).map(|f| f.f.f.name.clone()).collect()
    }
    fn violation(&mut self, s: &State, kind: &str, msg: &str, loc: String, m: Option<&[u128]>) {
        let key = (kind.to_string(), msg.to_string(), loc.clone());
        if self.viols.iter().any(|v| (v.kind.clone(), v.msg.clone(), v.loc.clone()) == key) {
            return;
        }
        if std::env::var("SYMIR_PC").is_ok() {
            let mo = m.unwrap_or(&s.model);
            eprintln!("violation {} {:?}", msg, self.inputs(s, mo));
            for c in s.pc.iter() {
                eprintln!("   {} {}", tm().ev(*c, mo), tm().show(*c, 30));
            }
        }
        let mm = m.map(|x| x.to_vec()).unwrap_or_else(|| (*s.model).clone());
        self.viols.push(Violation { kind: kind.into(), msg: msg.into(), loc, inputs: self.inputs(s, &mm), stack: self.backtrace(s) });
    }
    fn push_frame(&mut self, s: &mut State, f: &'static XFunc, args: Vec<Val>, dst: u32, next: Option<u32>) {
        let mut regs = vec![C(0); f.f.nlocals as usize];
        for ((l, _), v) in f.f.params.iter().zip(args) {
            regs[*l as usize] = v;
        }
        let sp = s.stack.n;
        s.frames.push(Rc::new(Frame { f, regs, blk: 0, ip: 0, sp, dst, next }));
    }
    fn path(&mut self, s: &mut State) -> Stop {
        let prof = std::env::var("SYMIR_PROF").is_ok();
        loop {
            s.steps += 1;
            self.st.insts += 1;
            if s.steps & 0xfff == 0 {
                if s.steps > self.cfg.max_steps {
                    return Stop::Limit("step limit");
                }
                if self.t0.elapsed().as_secs_f64() > self.cfg.time {
                    self.timed_out = true;
                    return Stop::Limit("time budget");
                }
            }
            if prof && s.steps & 0x3f == 0 {
                let n = s.frames.last().unwrap().f.f.name.clone();
                *self.prof.entry(n).or_default() += 1;
            }
            match self.step(s) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }
    #[inline]
    fn get(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::L(i) => fr.regs[*i as usize].clone(),
            Opd::K(i) => fr.f.consts[*i as usize].clone(),
            Opd::C(_) => panic!("unresolved constant"),
        }
    }
    #[inline]
    fn set(s: &mut State, dst: u32, v: Val) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        if dst != u32::MAX {
            fr.regs[dst as usize] = v;
        }
        fr.ip += 1;
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let b = &fr.f.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let from = fr.blk;
            if b.phis.len() == 1 {
                let (d, _, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).unwrap().1;
                let v = Self::get(fr, o);
                fr.regs[*d as usize] = v;
            } else {
                let mut vs = Vec::with_capacity(b.phis.len());
                for (d, _, inc) in &b.phis {
                    let o = &inc.iter().find(|x| x.0 == from).unwrap().1;
                    vs.push((*d, Self::get(fr, o)));
                }
                for (d, v) in vs {
                    fr.regs[d as usize] = v;
                }
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }
    fn step(&mut self, s: &mut State) -> R<()> {
        let fr: &Frame = s.frames.last().unwrap();
        let f = fr.f;
        let ins: &'static Inst = &f.f.blocks[fr.blk as usize].insts[fr.ip as usize];
        let dst = ins.dst;
        match &ins.op {
            Op::Nop => Self::set(s, u32::MAX, C(0)),
            Op::Alloca(t, n) => {
                let n = match Self::get(fr, n) {
                    C(c) => c as u64,
                    _ => return unsup("symbolic alloca"),
                };
                let sz = t.size() * n;
                let i = s.stack.push(Obj { data: vec![0; sz as usize], sym: None, constant: false });
                Self::set(s, dst, C(((STACK_IDX + i as u64) << 32) as u128));
            }
            Op::Load(t, o) => {
                let a = Self::get(fr, o);
                let v = match a {
                    C(c) => self.load(s, c as u64, t)?,
                    _ => self.load_sym(s, &a, t)?,
                };
                Self::set(s, dst, v);
            }
            Op::Store(t, v, o) => {
                let a = Self::get(fr, o);
                let v = Self::get(fr, v);
                let a = self.conc(s, &a, 64)? as u64;
                self.store(s, a, t, &v)?;
                Self::set(s, u32::MAX, C(0));
            }
            Op::Gep(b, off, idx) => {
                let base = Self::get(fr, b);
                if idx.is_empty() {
                    if let C(c) = base {
                        Self::set(s, dst, C((c as u64).wrapping_add(*off as u64) as u128));
                        return Ok(());
                    }
                }
                let mut cc = *off as u64;
                let mut ts: Vec<(T, u128)> = vec![];
                let mut sx: Vec<(T, u32, i64)> = vec![];
                match base {
                    C(c) => cc = cc.wrapping_add(c as u64),
                    S(t) => ts.push((t, 1)),
                    A(_) => return unsup("gep on vector"),
                }
                for (o, w, sc) in idx {
                    match Self::get(fr, o) {
                        C(c) => cc = cc.wrapping_add((sgn(c, *w) as i64).wrapping_mul(*sc) as u64),
                        S(t) => sx.push((t, *w, *sc)),
                        A(_) => return unsup("gep on vector"),
                    }
                }
                if ts.is_empty() && sx.is_empty() {
                    Self::set(s, dst, C(cc as u128));
                } else {
                    for (t, _, sc) in sx {
                        let e = tm().sext(t, 64);
                        ts.push((e, sc as i64 as u64 as u128));
                    }
                    let r = tm().lin(cc as u128, ts, 64);
                    Self::set(s, dst, t_val(r));
                }
            }
            Op::Bin(op, t, a, b, dj) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let v = self.bin(s, *op, t, &x, &y, *dj)?;
                Self::set(s, dst, v);
            }
            Op::Icmp(p, t, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let v = self.icmp(s, *p, t, &x, &y)?;
                Self::set(s, dst, v);
            }
            Op::Fcmp(p, t, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let v = match (&x, &y, t) {
                    (C(x), C(y), Ty::F64) => C(fcmp_eval(*p, *x as u64, *y as u64) as u128),
                    (C(x), C(y), Ty::F32) => {
                        let f = |v: u128| (f32::from_bits(v as u32) as f64).to_bits();
                        C(fcmp_eval(*p, f(*x), f(*y)) as u128)
                    }
                    (_, _, Ty::F64) => {
                        let (x, y) = (val_t(&x, 64), val_t(&y, 64));
                        t_val(tm().fcmp(*p, x, y))
                    }
                    _ => return unsup("symbolic f32 comparison"),
                };
                Self::set(s, dst, v);
            }
            Op::FNeg(t, a) => {
                let x = Self::get(fr, a);
                let v = match (&x, t) {
                    (C(x), Ty::F64) => C(x ^ (1 << 63)),
                    (C(x), Ty::F32) => C(x ^ (1 << 31)),
                    (S(x), Ty::F64) => self.fun(s, FU::Neg, *x)?,
                    _ => return unsup("fneg"),
                };
                Self::set(s, dst, v);
            }
            Op::Cast(c, t, t2, a) => {
                let x = Self::get(fr, a);
                let v = self.cast(*c, t, t2, &x)?;
                Self::set(s, dst, v);
            }
            Op::Select(t, c, a, b, vecc) => {
                let (c, x, y) = (Self::get(fr, c), Self::get(fr, a), Self::get(fr, b));
                if *vecc {
                    if let (A(c), A(x), A(y)) = (&c, &x, &y) {
                        let et = t.field(0);
                        let mut o = vec![];
                        for i in 0..c.len() {
                            o.push(match &c[i] {
                                C(b) => {
                                    if *b & 1 == 1 {
                                        x[i].clone()
                                    } else {
                                        y[i].clone()
                                    }
                                }
                                S(t) => {
                                    let (p, q) = (val_t(&x[i], et.bits()), val_t(&y[i], et.bits()));
                                    t_val(tm().ite(*t, p, q))
                                }
                                _ => return unsup("select"),
                            });
                        }
                        Self::set(s, dst, A(Rc::new(o)));
                        return Ok(());
                    }
                }
                let v = match c {
                    C(b) => {
                        if b & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    S(c) => {
                        if t.is_agg() || matches!(t, Ty::Ptr | Ty::F32) {
                            if self.decide(s, c)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let (x, y) = (val_t(&x, t.bits()), val_t(&y, t.bits()));
                            if let Some(v) = s.known.get(&c) {
                                t_val(if *v { x } else { y })
                            } else {
                                t_val(tm().ite(c, x, y))
                            }
                        }
                    }
                    _ => return unsup("select"),
                };
                Self::set(s, dst, v);
            }
            Op::Call { ret, callee, args, next } => {
                let c = Self::get(fr, callee);
                let av: Vec<Val> = args.iter().map(|(_, o)| Self::get(fr, o)).collect();
                let a = self.conc(s, &c, 64)? as u64;
                return self.call(s, a, av, args, ret, dst, *next);
            }
            Op::Br(b) => self.jump(s, *b),
            Op::CondBr(c, a, b) => {
                let c = Self::get(fr, c);
                let v = match c {
                    C(c) => c & 1 == 1,
                    S(t) => self.decide(s, t)?,
                    _ => return unsup("branch"),
                };
                self.jump(s, if v { *a } else { *b });
            }
            Op::Switch(w, c, d, cases) => {
                let c = Self::get(fr, c);
                match c {
                    C(v) => {
                        let to = cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*d);
                        self.jump(s, to);
                    }
                    S(t) => {
                        // pick the side of the current model first
                        let x = tm().ev(t, &s.model);
                        if let Some((v, to)) = cases.iter().find(|q| q.0 == x) {
                            let k = tm().cst(*v, *w);
                            let e = tm().eq(t, k);
                            if self.decide(s, e)? {
                                self.jump(s, *to);
                                return Ok(());
                            }
                            return unsup("switch");
                        }
                        for (v, _) in cases.iter() {
                            let k = tm().cst(*v, *w);
                            let e = tm().eq(t, k);
                            if self.decide(s, e)? {
                                return unsup("switch");
                            }
                        }
                        self.jump(s, *d);
                    }
                    _ => return unsup("switch"),
                }
            }
            Op::Ret(v) => {
                let v = match v {
                    Some((_, o)) => Self::get(fr, o),
                    None => C(0),
                };
                let (sp, dst, next) = (fr.sp, fr.dst, fr.next);
                s.stack.truncate(sp);
                s.frames.pop();
                if s.frames.is_empty() {
                    return Err(Stop::End);
                }
                self.ret_to(s, dst, next, v);
            }
            Op::Unreachable => return Err(Stop::Panic("unreachable instruction executed".into(), Some(f.f.name.clone()))),
            Op::Resume => return Err(Stop::Panic("resume".into(), None)),
            Op::ExtractValue(_, o, path) => {
                let mut v = Self::get(fr, o);
                for i in path {
                    v = match v {
                        A(l) => l[*i].clone(),
                        _ => C(0),
                    };
                }
                Self::set(s, dst, v);
            }
            Op::InsertValue(t, o, _, e, path) => {
                let v = Self::get(fr, o);
                let e = Self::get(fr, e);
                fn ins(v: Val, t: &Ty, e: Val, p: &[usize]) -> Val {
                    if p.is_empty() {
                        return e;
                    }
                    let mut l = match v {
                        A(l) => (*l).clone(),
                        _ => (0..t.count()).map(|i| zero_of(&t.field(i))).collect(),
                    };
                    l[p[0]] = ins(l[p[0]].clone(), &t.field(p[0]), e, &p[1..]);
                    A(Rc::new(l))
                }
                let r = ins(v, t, e, path);
                Self::set(s, dst, r);
            }
            Op::ExtractElement(_, o, i) => {
                let (v, i) = (Self::get(fr, o), Self::get(fr, i));
                match (v, i) {
                    (A(l), C(i)) => {
                        let r = l[i as usize].clone();
                        Self::set(s, dst, r)
                    }
                    _ => return unsup("extractelement"),
                }
            }
            Op::InsertElement(t, o, e, i) => {
                let (v, e, i) = (Self::get(fr, o), Self::get(fr, e), Self::get(fr, i));
                let mut l = match v {
                    A(l) => (*l).clone(),
                    _ => vec![C(0); t.count()],
                };
                match i {
                    C(i) => l[i as usize] = e,
                    _ => return unsup("insertelement"),
                }
                Self::set(s, dst, A(Rc::new(l)));
            }
            Op::Shuffle(t, a, b, m) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let n = t.count();
                let g = |v: &Val, i: usize| match v {
                    A(l) => l[i].clone(),
                    _ => C(0),
                };
                let o: Vec<Val> = m.iter().map(|i| if (*i as usize) < n { g(&x, *i as usize) } else { g(&y, *i as usize - n) }).collect();
                Self::set(s, dst, A(Rc::new(o)));
            }
            Op::AtomicRmw(op, t, a, v) => {
                let (a, v) = (Self::get(fr, a), Self::get(fr, v));
                let a = self.conc(s, &a, 64)? as u64;
                let old = self.load(s, a, t)?;
                let bop = match op.as_str() {
                    "add" => Some(BinOp::Add),
                    "sub" => Some(BinOp::Sub),
                    "or" => Some(BinOp::Or),
                    "and" => Some(BinOp::And),
                    "xor" => Some(BinOp::Xor),
                    "xchg" => None,
                    _ => return unsup(format!("atomicrmw {}", op)),
                };
                let n = match bop {
                    Some(b) => self.bin(s, b, t, &old, &v, false)?,
                    None => v,
                };
                self.store(s, a, t, &n)?;
                Self::set(s, dst, old);
            }
            Op::CmpXchg(t, a, x, y) => {
                let (a, x, y) = (Self::get(fr, a), Self::get(fr, x), Self::get(fr, y));
                let a = self.conc(s, &a, 64)? as u64;
                let old = self.load(s, a, t)?;
                let ok = match (&old, &x) {
                    (C(p), C(q)) => p == q,
                    _ => return unsup("symbolic cmpxchg"),
                };
                if ok {
                    self.store(s, a, t, &y)?;
                }
                Self::set(s, dst, A(Rc::new(vec![old, C(ok as u128)])));
            }
            Op::Copy(o) => {
                let v = Self::get(fr, o);
                Self::set(s, dst, v);
            }
            Op::Bad(m) => return unsup(format!("instruction {}", m)),
        }
        Ok(())
    }
    fn ret_to(&mut self, s: &mut State, dst: u32, next: Option<u32>, v: Val) {
        Self::set(s, dst, v);
        if let Some(b) = next {
            self.jump(s, b);
        }
    }
    fn load_sym(&mut self, s: &mut State, a: &Val, t: &Ty) -> R<Val> {
        if let S(x) = a {
            let x = *x;
            let n = t.store_size() as usize;
            let sup = tm().sup(x).clone();
            // table lookup driven by a single byte variable
            if !t.is_agg() && n <= 8 && sup.len() == 1 && tm().vars[sup[0] as usize].w == 8 {
                let v = sup[0];
                let dom = tm().curdom(v);
                let mut tab = vec![0u64; 256];
                let mut model = (*s.model).clone();
                let mut ok = true;
                let mut objid = None;
                for i in 0..256usize {
                    if dom[i >> 6] >> (i & 63) & 1 == 0 {
                        continue;
                    }
                    model[v as usize] = i as u128;
                    let ad = tm().ev(x, &model) as u64;
                    if *objid.get_or_insert(ad >> 32) != ad >> 32 {
                        ok = false;
                        break;
                    }
                    match self.obj(s, ad) {
                        Ok((o, off)) if off + n <= o.data.len() && !self.has_sym(s, ad, n) => {
                            let mut b = [0u8; 8];
                            b[..n].copy_from_slice(&o.data[off..off + n]);
                            tab[i] = u64::from_le_bytes(b) & mask(t.bits()) as u64;
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    let var = tm().var_term(v);
                    return Ok(t_val(tm().tab(var, tab, t.bits())));
                }
            }
            let c = self.conc(s, a, 64)? as u64;
            return self.load(s, c, t);
        }
        unsup("load address")
    }
    fn fun(&mut self, s: &mut State, op: FU, x: T) -> R<Val> {
        // split on the sign / zero of decimal values where the rules need it
        if let K::Dec(k, _) = *tm().k(x) {
            if matches!(op, FU::Neg | FU::Abs | FU::Floor | FU::Trunc | FU::Round | FU::Ceil) {
                let z = tm().cst(0, 64);
                let neg = tm().slt(k, z);
                let n = self.decide(s, neg)?;
                if op == FU::Neg && !n {
                    let e = tm().eq(k, z);
                    if self.decide(s, e)? {
                        return Ok(C(1 << 63));
                    }
                }
            }
        }
        Ok(t_val(tm().fun(op, x)))
    }
    fn bin(&mut self, s: &mut State, op: BinOp, t: &Ty, x: &Val, y: &Val, dj: bool) -> R<Val> {
        if let Ty::Vec(_, e) = t {
            if let (A(a), A(b)) = (x, y) {
                let mut o = Vec::with_capacity(a.len());
                for i in 0..a.len() {
                    o.push(self.bin(s, op, e, &a[i], &b[i], dj)?);
                }
                return Ok(A(Rc::new(o)));
            }
            return unsup("vector op");
        }
        let w = t.bits();
        use BinOp::*;
        if let Ty::F32 = t {
            if let (C(a), C(b)) = (x, y) {
                let (a, b) = (f32::from_bits(*a as u32), f32::from_bits(*b as u32));
                let r = match op {
                    FAdd => a + b,
                    FSub => a - b,
                    FMul => a * b,
                    FDiv => a / b,
                    _ => a % b,
                };
                return Ok(C(r.to_bits() as u128));
            }
            return unsup("symbolic f32 arithmetic");
        }
        let fop = match op {
            FAdd => Some(FB::Add),
            FSub => Some(FB::Sub),
            FMul => Some(FB::Mul),
            FDiv => Some(FB::Div),
            FRem => Some(FB::Rem),
            _ => None,
        };
        if let Some(fo) = fop {
            if let (C(a), C(b)) = (x, y) {
                return Ok(C(feval(fo, *a as u64, *b as u64) as u128));
            }
            let (a, b) = (val_t(x, 64), val_t(y, 64));
            return Ok(t_val(tm().fbin(fo, a, b)));
        }
        if let (C(a), C(b)) = (x, y) {
            let m = mask(w);
            let (a, b) = (*a, *b);
            let r = match op {
                Add => a.wrapping_add(b),
                Sub => a.wrapping_sub(b),
                Mul => a.wrapping_mul(b),
                And => a & b,
                Or => a | b,
                Xor => a ^ b,
                Shl => {
                    if b >= w as u128 {
                        0
                    } else {
                        a << b
                    }
                }
                LShr => {
                    if b >= w as u128 {
                        0
                    } else {
                        a >> b
                    }
                }
                AShr => (sgn(a, w) >> b.min(127)) as u128,
                UDiv | URem | SDiv | SRem if b == 0 => return Err(Stop::Panic("division by zero".into(), None)),
                UDiv => a / b,
                URem => a % b,
                SDiv => sgn(a, w).wrapping_div(sgn(b, w)) as u128,
                SRem => sgn(a, w).wrapping_rem(sgn(b, w)) as u128,
                _ => unreachable!(),
            };
            return Ok(C(r & m));
        }
        let (a, b) = (val_t(x, w), val_t(y, w));
        let t = tm();
        let r = match op {
            Add => t.add(a, b),
            Sub => t.sub(a, b),
            Mul => t.mul(a, b),
            And => t.and(a, b),
            Or => {
                if dj && w > 1 {
                    t.add(a, b)
                } else {
                    t.or(a, b)
                }
            }
            Xor => t.xor(a, b),
            Shl => {
                if let (Some(x), true) = (t.cval(a), t.cval(b).is_none() && w <= 64 && t.rng(b).1 < w as u128) {
                    // a table of the shift amounts
                    let tab = (0..w).map(|i| (x << i) as u64 & mask(w) as u64).collect();
                    let r = tm().tab(b, tab, w);
                    return Ok(t_val(r));
                }
                let b = self.shift_amount(s, b, w)?;
                tm().shl(a, b)
            }
            LShr => {
                if let (Some(x), true) = (t.cval(a), t.cval(b).is_none() && w <= 64 && t.rng(b).1 < w as u128) {
                    // a table of the shift amounts
                    let tab = (0..w).map(|i| (x >> i) as u64).collect();
                    let r = tm().tab(b, tab, w);
                    return Ok(t_val(r));
                }
                let b = self.shift_amount(s, b, w)?;
                tm().lshr(a, b)
            }
            AShr => {
                let b = self.shift_amount(s, b, w)?;
                tm().ashr(a, b)
            }
            UDiv | URem | SDiv | SRem => {
                // signed division: split on the sign
                if matches!(op, SDiv | SRem) && t.cval(b).is_some() {
                    let (lo, hi) = t.srng(a);
                    if lo < 0 && hi > 0 {
                        let z = t.cst(0, w);
                        let c = t.slt(a, z);
                        self.decide(s, c)?;
                    }
                }
                let t = tm();
                match op {
                    UDiv => t.udiv(a, b),
                    URem => t.urem(a, b),
                    SDiv => t.sdiv(a, b),
                    _ => t.srem(a, b),
                }
            }
            _ => unreachable!(),
        };
        if !(dj && matches!(op, Or)) {
            let k = match op {
                Add => K::Lin(0, vec![(a, 1), (b, 1)].into()),
                Sub => K::Lin(0, vec![(a, 1), (b, mask(w))].into()),
                Mul => K::Mul(a, b),
                And => K::And(a, b),
                Or => K::Or(a, b),
                Xor => K::Xor(a, b),
                Shl => K::Shl(a, b),
                LShr => K::LShr(a, b),
                AShr => K::AShr(a, b),
                UDiv => K::UDiv(a, b),
                URem => K::URem(a, b),
                SDiv => K::SDiv(a, b),
                SRem => K::SRem(a, b),
                _ => unreachable!(),
            };
            self.audit(s, k, w, r);
        }
        Ok(t_val(r))
    }
    /// Solver cross-check of the term rewriting: the unsimplified operation and the term
    /// that replaced it may not differ under the path condition. Sampled: the first
    /// occurrences of every (operation, width, shapes) class, within a time allowance.
    fn audit(&mut self, s: &State, k: K, w: u32, r: T) {
        let (n, secs) = self.cfg.audit;
        if self.st.audits >= n || self.st.audit_s > secs {
            return;
        }
        let t = tm();
        if *t.k(r) == k {
            return;
        }
        let name = |x: T| {
            let d = format!("{:?}", t.k(x));
            d[..d.find(|c: char| !c.is_alphanumeric()).unwrap_or(d.len())].to_string()
        };
        let (x, y) = match &k {
            K::Lin(_, ts) => (ts[0].0, ts[1].0),
            K::And(a, b) | K::Or(a, b) | K::Xor(a, b) | K::Mul(a, b) | K::Shl(a, b) | K::LShr(a, b) | K::AShr(a, b) => (*a, *b),
            K::UDiv(a, b) | K::URem(a, b) | K::SDiv(a, b) | K::SRem(a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Slt(a, b) => (*a, *b),
            _ => return,
        };
        let d = format!("{:?}", k);
        let key = format!("{} {} {} {} {}", &d[..d.find('(').unwrap_or(0)], t.w(x), name(x), name(y), name(r));
        let c = self.st.audit_seen.entry(key.clone()).or_default();
        *c += 1;
        if *c > 1 && *c != 100 && *c != 10_000 {
            return;
        }
        let t0 = std::time::Instant::now();
        let t = tm();
        let raw = t.raw(k, w);
        let ne = if w == 1 {
            t.raw(K::Xor(raw, r), 1)
        } else {
            let e = t.raw(K::Eq(raw, r), 1);
            let one = t.tru();
            t.raw(K::Xor(e, one), 1)
        };
        let mut cs = self.slice(s, ne);
        cs.push(ne);
        self.z3.quick = true;
        let res = self.z3.check(&cs);
        self.z3.quick = false;
        self.st.audits += 1;
        match res {
            Res::Unsat => self.st.audits_unsat += 1,
            Res::Unknown => self.st.audits_unknown += 1,
            Res::Sat(_) => self.st.audit_bad.push(format!("{}: {} vs {}", key, tm().show(raw, 4), tm().show(r, 4))),
        }
        self.st.audit_s += t0.elapsed().as_secs_f64();
    }
    fn shift_amount(&mut self, s: &mut State, b: T, w: u32) -> R<T> {
        if tm().cval(b).is_some() {
            return Ok(b);
        }
        let v = self.conc(s, &S(b), w)?;
        Ok(tm().cst(v, w))
    }
    fn icmp(&mut self, s: &State, p: Pred, t: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let Ty::Vec(_, e) = t {
            if let (A(a), A(b)) = (x, y) {
                let mut o = Vec::with_capacity(a.len());
                for i in 0..a.len() {
                    o.push(self.icmp(s, p, e, &a[i], &b[i])?);
                }
                return Ok(A(Rc::new(o)));
            }
            return unsup("vector icmp");
        }
        let w = t.bits();
        use Pred::*;
        if let (C(a), C(b)) = (x, y) {
            let (sa, sb) = (sgn(*a, w), sgn(*b, w));
            let r = match p {
                Eq => a == b,
                Ne => a != b,
                Ugt => a > b,
                Uge => a >= b,
                Ult => a < b,
                Ule => a <= b,
                Sgt => sa > sb,
                Sge => sa >= sb,
                Slt => sa < sb,
                Sle => sa <= sb,
            };
            return Ok(C(r as u128));
        }
        let (a, b) = (val_t(x, w), val_t(y, w));
        let t = tm();
        let r = match p {
            Eq => t.eq(a, b),
            Ne => {
                let e = t.eq(a, b);
                t.not(e)
            }
            Ugt => t.ult(b, a),
            Uge => t.ule(b, a),
            Ult => t.ult(a, b),
            Ule => t.ule(a, b),
            Sgt => t.slt(b, a),
            Sge => t.sle(b, a),
            Slt => t.slt(a, b),
            Sle => t.sle(a, b),
        };
        let (k, neg) = match p {
            Eq => (K::Eq(a, b), false),
            Ne => (K::Eq(a, b), true),
            Ugt => (K::Ult(b, a), false),
            Ule => (K::Ult(b, a), true),
            Ult => (K::Ult(a, b), false),
            Uge => (K::Ult(b, a), false),
            Sgt => (K::Slt(b, a), false),
            Sle => (K::Slt(b, a), true),
            Slt => (K::Slt(a, b), false),
            Sge => (K::Slt(b, a), false),
        };
        if !matches!(p, Uge | Sge) && w > 1 {
            let r = if neg { tm().not(r) } else { r };
            self.audit(s, k, 1, r);
        }
        Ok(t_val(r))
    }
    fn cast(&mut self, c: CastOp, t: &Ty, t2: &Ty, x: &Val) -> R<Val> {
        use CastOp::*;
        if let Bitcast = c {
            return self.bitcast(t, t2, x);
        }
        if let (Ty::Vec(_, e), Ty::Vec(_, e2)) = (t, t2) {
            if let A(l) = x {
                let mut o = vec![];
                for v in l.iter() {
                    o.push(self.cast(c, e, e2, v)?);
                }
                return Ok(A(Rc::new(o)));
            }
        }
        let (w, w2) = (t.bits(), t2.bits());
        if let C(v) = x {
            let v = *v;
            let r = match c {
                Trunc | ZExt | PtrToInt | IntToPtr => v & mask(w2),
                SExt => (sgn(v, w) as u128) & mask(w2),
                FpToSi | FpToUi => {
                    let f = if w == 32 { (f32::from_bits(v as u32) as f64).to_bits() } else { v as u64 };
                    ftoi_eval(c == FpToSi, f, w2)
                }
                SiToFp => {
                    let i = sgn(v, w);
                    if w2 == 32 {
                        (i as f32).to_bits() as u128
                    } else {
                        (i as f64).to_bits() as u128
                    }
                }
                UiToFp => {
                    if w2 == 32 {
                        (v as f32).to_bits() as u128
                    } else {
                        (v as f64).to_bits() as u128
                    }
                }
                FpExt => (f32::from_bits(v as u32) as f64).to_bits() as u128,
                FpTrunc => (f64::from_bits(v as u64) as f32).to_bits() as u128,
                Bitcast => v,
            };
            return Ok(C(r));
        }
        let a = match x {
            S(t) => *t,
            _ => return unsup("cast of aggregate"),
        };
        let t = tm();
        Ok(t_val(match c {
            Trunc => t.trunc(a, w2),
            ZExt => t.zext(a, w2),
            SExt => t.sext(a, w2),
            PtrToInt | IntToPtr => {
                if w2 < w {
                    t.trunc(a, w2)
                } else {
                    t.zext(a, w2)
                }
            }
            FpToSi | FpToUi if w == 64 => t.ftoi(c == FpToSi, a, w2),
            SiToFp if w2 == 64 => t.itof(true, a),
            UiToFp if w2 == 64 => t.itof(false, a),
            _ => return unsup("symbolic f32 conversion"),
        }))
    }
    fn bitcast(&mut self, t: &Ty, t2: &Ty, x: &Val) -> R<Val> {
        match (t, t2) {
            (Ty::Vec(n, e), Ty::Vec(n2, e2)) => {
                // through bytes
                let big = Ty::I(128);
                let _ = big;
                let whole = self.bitcast(t, &Ty::I(*n * e.bits()), x)?;
                let w2 = e2.bits();
                let mut o = vec![];
                for i in 0..*n2 {
                    o.push(match &whole {
                        C(c) => C(c >> (i * w2) & mask(w2)),
                        S(t) => t_val(tm().ext(*t, i * w2, w2)),
                        _ => return unsup("bitcast"),
                    });
                }
                Ok(A(Rc::new(o)))
            }
            (Ty::Vec(_, e), _) => {
                let l = match x {
                    A(l) => l.clone(),
                    _ => return unsup("bitcast"),
                };
                let w = e.bits();
                if l.iter().all(|v| matches!(v, C(_))) {
                    let mut r = 0u128;
                    for (i, v) in l.iter().enumerate() {
                        if let C(c) = v {
                            r |= c << (i as u32 * w);
                        }
                    }
                    return Ok(C(r));
                }
                let tot = w * l.len() as u32;
                let mut ts = vec![];
                let mut c0 = 0u128;
                for (i, v) in l.iter().enumerate() {
                    match v {
                        C(c) => c0 |= c << (i as u32 * w),
                        S(t) => ts.push((*t, 1u128 << (i as u32 * w))),
                        _ => return unsup("bitcast"),
                    }
                }
                Ok(t_val(tm().lin(c0, ts, tot)))
            }
            (_, Ty::Vec(n, e)) => {
                let w = e.bits();
                let mut o = vec![];
                for i in 0..*n {
                    o.push(match x {
                        C(c) => C(c >> (i * w) & mask(w)),
                        S(t) => t_val(tm().ext(*t, i * w, w)),
                        _ => return unsup("bitcast"),
                    });
                }
                Ok(A(Rc::new(o)))
            }
            _ => Ok(x.clone()),
        }
    }

    // ---------- calls ----------
    #[allow(clippy::too_many_arguments)]
    fn call(&mut self, s: &mut State, a: u64, av: Vec<Val>, args: &'static [(Ty, Opd)], ret: &'static Ty, dst: u32, next: Option<u32>) -> R<()> {
        if a < FN_BASE {
            return Err(Stop::Panic(format!("memory: call through {:#x}", a), None));
        }
        let mut i = ((a - FN_BASE) >> 8) as u32;
        match self.fns[i as usize].hook {
            Hook::None => {}
            Hook::Builtin(b) => {
                let v = self.builtin(s, BUILTINS[b as usize], i, av)?;
                self.ret_to(s, dst, next, v);
                return Ok(());
            }
            Hook::Model(m, kind) => {
                if self.model_applies(s, kind, &av) {
                    i = m;
                }
            }
        }
        if let Some(f) = self.body(i) {
            if s.frames.len() > 400 {
                return Err(Stop::Limit("call depth"));
            }
            self.push_frame(s, f, av, dst, next);
            return Ok(());
        }
        let name = self.fns[i as usize].name.clone();
        let v = self.extern_call(s, &name, av, args, ret)?;
        self.ret_to(s, dst, next, v);
        Ok(())
    }
    fn model_applies(&self, s: &State, kind: u8, av: &[Val]) -> bool {
        match kind {
            1 => {
                // (.., ptr, len): string parse
                let n = av.len();
                match (&av[n - 2], &av[n - 1]) {
                    (C(p), C(l)) => *l > 0 && self.has_sym(s, *p as u64, *l as usize),
                    _ => true,
                }
            }
            2 => {
                // (fmt, &f64, sign, prec)
                match &av[1] {
                    C(p) => self.has_sym(s, *p as u64, 8),
                    S(_) => true,
                    _ => false,
                }
            }
            3 => match &av[0] {
                C(p) => self.has_sym(s, *p as u64, 1),
                S(_) => true,
                _ => false,
            },
            4 => {
                // any symbolic memory in a (ptr,len) pair
                let mut i = 0;
                while i + 1 < av.len() {
                    if let (C(p), C(l)) = (&av[i], &av[i + 1]) {
                        if *p > u32::MAX as u128 && *l < 1 << 31 && self.has_sym(s, *p as u64, *l as usize) {
                            return true;
                        }
                    }
                    i += 1;
                }
                av.iter().any(|v| matches!(v, S(_)))
            }
            _ => false,
        }
    }
    fn location(&self, s: &State, av: &[Val]) -> Option<String> {
        for v in av.iter().rev() {
            if let C(p) = v {
                let p = *p as u64;
                if let Ok((o, off)) = self.obj(s, p) {
                    if o.constant && o.data.len() == off + 24 && o.sym.is_none() {
                        let g = |i: usize| u64::from_le_bytes(o.data[off + i..off + i + 8].try_into().unwrap());
                        let (fp, fl, lc) = (g(0), g(8), g(16));
                        let name = self.cstring(s, fp, fl as usize);
                        if name.contains(".rs") {
                            return Some(format!("{}:{}:{}", name.trim_end_matches('\0'), lc as u32, lc >> 32));
                        }
                    }
                }
            }
        }
        None
    }
    fn builtin(&mut self, s: &mut State, b: &str, fi: u32, av: Vec<Val>) -> R<Val> {
        match b {
            "__alloc" | "__alloc_zeroed" => {
                let n = self.conc(s, &av[0], 64)? as u64;
                Ok(C(self.alloc(s, n)? as u128))
            }
            "__dealloc" => {
                let p = self.conc(s, &av[0], 64)? as u64;
                let i = p >> 32;
                if i < STACK_IDX && i as usize > self.nglobals {
                    s.heap.free(i as usize);
                }
                Ok(C(0))
            }
            "__realloc" => {
                let p = self.conc(s, &av[0], 64)? as u64;
                let old = self.conc(s, &av[1], 64)? as u64;
                let n = self.conc(s, &av[3], 64)? as u64;
                let q = self.alloc(s, n)?;
                self.copy(s, q, p, old.min(n) as usize)?;
                s.heap.free((p >> 32) as usize);
                Ok(C(q as u128))
            }
            "__panic" => {
                let name = self.fns[fi as usize].name.clone();
                let mut msg = short(&name);
                if name.ends_with("9panicking5panic") || name.ends_with("13expect_failed") || name.ends_with("6result13unwrap_failed") {
                    if let (C(p), C(n)) = (&av[0], &av[1]) {
                        msg = format!("{}: {}", msg, self.cstring(s, *p as u64, *n as usize));
                    }
                }
                let l = self.location(s, &av);
                Err(Stop::Panic(msg, l))
            }
            _ => unsup(format!("builtin {}", b)),
        }
    }
    fn with_overflow(&mut self, op: &str, w: u32, a: &Val, b: &Val) -> Val {
        let m = mask(w);
        if let (C(a), C(b)) = (a, b) {
            let (sa, sb) = (sgn(*a, w), sgn(*b, w));
            let fits = |v: Option<i128>| match v {
                Some(v) => w >= 128 || sgn(v as u128 & m, w) == v,
                None => false,
            };
            let (r, o) = match op {
                "uadd" => {
                    let (r, o) = a.overflowing_add(*b);
                    (r, o || r > m)
                }
                "usub" => (a.wrapping_sub(*b), a < b),
                "umul" => {
                    let (r, o) = a.overflowing_mul(*b);
                    (r, o || r > m)
                }
                "sadd" => {
                    let r = sa.checked_add(sb);
                    (sa.wrapping_add(sb) as u128, !fits(r))
                }
                "ssub" => {
                    let r = sa.checked_sub(sb);
                    (sa.wrapping_sub(sb) as u128, !fits(r))
                }
                _ => {
                    let r = sa.checked_mul(sb);
                    (sa.wrapping_mul(sb) as u128, !fits(r))
                }
            };
            return A(Rc::new(vec![C(r & m), C(o as u128)]));
        }
        let (x, y) = (val_t(a, w), val_t(b, w));
        let t = tm();
        let (r, o) = match op {
            "uadd" => {
                let r = t.add(x, y);
                let (p, q) = (t.rng(x), t.rng(y));
                let o = if p.1.checked_add(q.1).map(|v| v <= m).unwrap_or(false) { 0 } else { t.ult(r, x) };
                (r, o)
            }
            "usub" => {
                let r = t.sub(x, y);
                let o = t.ult(x, y);
                (r, o)
            }
            "umul" => {
                let r = t.mul(x, y);
                let (p, q) = (t.rng(x), t.rng(y));
                let o = if p.1.checked_mul(q.1).map(|v| v <= m).unwrap_or(false) {
                    0
                } else if w <= 64 {
                    let (zx, zy) = (t.zext(x, 128), t.zext(y, 128));
                    let z = t.mul(zx, zy);
                    let l = t.cst(m, 128);
                    t.ult(l, z)
                } else {
                    return A(Rc::new(vec![t_val(r), C(0)]));
                };
                (r, o)
            }
            _ => {
                let r = match op {
                    "sadd" => t.add(x, y),
                    "ssub" => t.sub(x, y),
                    _ => t.mul(x, y),
                };
                let (p, q) = (t.srng(x), t.srng(y));
                let (lo, hi) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
                let ok = match op {
                    "sadd" => match (p.0.checked_add(q.0), p.1.checked_add(q.1)) {
                        (Some(a), Some(b)) => a >= lo && b <= hi,
                        _ => false,
                    },
                    "ssub" => match (p.0.checked_sub(q.1), p.1.checked_sub(q.0)) {
                        (Some(a), Some(b)) => a >= lo && b <= hi,
                        _ => false,
                    },
                    _ => {
                        let mut ok = true;
                        for a in [p.0, p.1] {
                            for b in [q.0, q.1] {
                                match a.checked_mul(b) {
                                    Some(v) => ok &= v >= lo && v <= hi,
                                    None => ok = false,
                                }
                            }
                        }
                        ok
                    }
                };
                let o = if ok {
                    0
                } else if w <= 64 {
                    let w2 = if op == "smul" { 128 } else { w + 8 };
                    let (zx, zy) = (t.sext(x, w2), t.sext(y, w2));
                    let z = match op {
                        "sadd" => t.add(zx, zy),
                        "ssub" => t.sub(zx, zy),
                        _ => t.mul(zx, zy),
                    };
                    let l = t.cst(lo as u128, w2);
                    let h = t.cst(hi as u128, w2);
                    let a = t.slt(z, l);
                    let b = t.slt(h, z);
                    t.or(a, b)
                } else {
                    // 128-bit: sign rule for add/sub
                    let z = t.cst(0, w);
                    let (nx, ny, nr) = (t.slt(x, z), t.slt(y, z), t.slt(r, z));
                    match op {
                        "sadd" => {
                            let same = t.xor(nx, ny);
                            let same = t.not(same);
                            let diff = t.xor(nx, nr);
                            t.and(same, diff)
                        }
                        "ssub" => {
                            let d = t.xor(nx, ny);
                            let diff = t.xor(nx, nr);
                            t.and(d, diff)
                        }
                        _ => {
                            // x*const: overflow iff r / const != x
                            if let Some(c) = t.cval(y).or(t.cval(x)) {
                                let v = if t.cval(y).is_some() { x } else { y };
                                let cs = c as i128;
                                if cs == 0 {
                                    0
                                } else if cs > 0 {
                                    let l = t.cst((i128::MIN / cs) as u128, 128);
                                    let h = t.cst((i128::MAX / cs) as u128, 128);
                                    let a = t.slt(v, l);
                                    let b = t.slt(h, v);
                                    t.or(a, b)
                                } else {
                                    0
                                }
                            } else {
                                0
                            }
                        }
                    }
                };
                (r, o)
            }
        };
        A(Rc::new(vec![t_val(r), t_val(o)]))
    }
    fn cmp_bytes(&mut self, s: &mut State, a: u64, b: u64, n: usize, ordered: bool) -> R<Val> {
        if n == 0 {
            return Ok(C(0));
        }
        if !self.has_sym(s, a, n) && !self.has_sym(s, b, n) {
            let (x, y) = (self.obj(s, a)?, self.obj(s, b)?);
            if x.1 + n > x.0.data.len() || y.1 + n > y.0.data.len() {
                return Err(Stop::Panic("memory: memcmp out of bounds".into(), None));
            }
            let r = x.0.data[x.1..x.1 + n].cmp(&y.0.data[y.1..y.1 + n]);
            return Ok(C((r as i8 as i32 as u32) as u128));
        }
        let mut eqs: T = 1;
        let mut lt: T = 0;
        for i in 0..n as u64 {
            let x = self.rd(s, a + i, 1, 8)?;
            let y = self.rd(s, b + i, 1, 8)?;
            let (x, y) = (val_t(&x, 8), val_t(&y, 8));
            let t = tm();
            let e = t.eq(x, y);
            if ordered {
                let l = t.ult(x, y);
                let l = t.and(eqs, l);
                lt = t.or(lt, l);
            }
            eqs = t.and(eqs, e);
            if eqs == 0 {
                break;
            }
        }
        let t = tm();
        let (z, one, m1) = (t.cst(0, 32), t.cst(1, 32), t.cst(mask(32), 32));
        let ne = if ordered { t.ite(lt, m1, one) } else { one };
        Ok(t_val(t.ite(eqs, z, ne)))
    }
    fn new_input(&mut self, s: &mut State, w: u32, dom: [u64; 4]) -> T {
        // variables are identified by their position on the path, so that siblings share them
        let t = tm().var_at(s.inputs.len() as u32, w, dom);
        let v = tm().sup(t)[0] as usize;
        let first = if w == 8 { (0..256).find(|i| dom[i >> 6] >> (i & 63) & 1 == 1).unwrap_or(0) as u128 } else { 0 };
        let m = Rc::make_mut(&mut s.model);
        if m.len() <= v {
            m.resize(v + 1, 0);
        }
        m[v] = first;
        let d = Rc::make_mut(&mut s.dom);
        while d.len() <= v {
            let i = d.len();
            d.push(tm().vars[i].dom);
        }
        d[v] = dom;
        tm().dom = s.dom.clone();
        Rc::make_mut(&mut s.inputs).push(Inp::V(t));
        t
    }
    fn do_check(&mut self, s: &mut State, c: &Val, id: String) -> R<()> {
        self.st.checks += 1;
        *self.st.checkids.entry(id.clone()).or_default() += 1;
        match c {
            C(c) => {
                self.st.checks_folded += 1;
                if c & 1 == 0 {
                    self.violation(s, "check", &id, String::new(), None);
                    return Err(Stop::Silent);
                }
            }
            S(t) => {
                let n = tm().not(*t);
                if let Some(v) = s.known.get(t) {
                    if *v {
                        self.st.checks_folded += 1;
                        return Ok(());
                    }
                }
                self.st.checks_solver += 1;
                match self.query(s, n) {
                    Ok(Some(m)) => {
                        self.violation(s, "check", &id, String::new(), Some(&m));
                        match self.query(s, *t)? {
                            Some(m2) => {
                                s.model = Rc::new(m2);
                                self.assume(s, *t, true);
                            }
                            None => return Err(Stop::Silent),
                        }
                    }
                    Ok(None) => {}
                    Err(Stop::Limit(l)) => {
                        *self.st.limits.entry(format!("check {}: {}", id, l)).or_default() += 1;
                    }
                    Err(e) => return Err(e),
                }
            }
            _ => return unsup("check"),
        }
        Ok(())
    }
    fn str_arg(&self, s: &State, p: &Val, n: &Val) -> String {
        match (p, n) {
            (C(p), C(n)) => self.cstring(s, *p as u64, *n as usize),
            _ => "?".into(),
        }
    }
    fn extern_call(&mut self, s: &mut State, name: &str, av: Vec<Val>, args: &[(Ty, Opd)], ret: &Ty) -> R<Val> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(s, n, av, args, ret);
        }
        match name {
            // ----- harness API -----
            "sym_u8" => {
                let t = self.new_input(s, 8, [u64::MAX; 4]);
                Ok(S(t))
            }
            "sym_u8_in" => {
                let (lo, hi) = (self.conc(s, &av[0], 8)? as usize, self.conc(s, &av[1], 8)? as usize);
                let mut d = [0u64; 4];
                for i in lo..=hi {
                    d[i >> 6] |= 1 << (i & 63);
                }
                let t = self.new_input(s, 8, d);
                Ok(if lo == hi { C(lo as u128) } else { S(t) })
            }
            "sym_u8_set" => {
                let (p, n) = (self.conc(s, &av[0], 64)? as u64, self.conc(s, &av[1], 64)? as usize);
                let mut d = [0u64; 4];
                for i in 0..n {
                    if let C(c) = self.rd(s, p + i as u64, 1, 8)? {
                        let c = c as usize;
                        d[c >> 6] |= 1 << (c & 63);
                    }
                }
                let t = self.new_input(s, 8, d);
                Ok(S(t))
            }
            "sym_int" => {
                // signed 64-bit in [lo, hi]
                let (lo, hi) = (self.conc(s, &av[0], 64)? as u64 as i64, self.conc(s, &av[1], 64)? as u64 as i64);
                let t = self.new_input(s, 64, [0; 4]);
                if lo == hi {
                    *Rc::make_mut(&mut s.inputs).last_mut().unwrap() = Inp::C(lo as u64);
                    return Ok(C(lo as u64 as u128));
                }
                // an unsigned offset from lo, so that ranges stay exact through linear arithmetic
                let d = (hi as i128 - lo as i128) as u128;
                if d < u64::MAX as u128 {
                    let c = tm().cst(d, 64);
                    let b = tm().ult(c, t);
                    self.assume(s, b, false);
                    self.set_fact(s, t, 0, d);
                }
                let t = tm().lin(lo as u64 as u128, vec![(t, 1)], 64);
                *Rc::make_mut(&mut s.inputs).last_mut().unwrap() = Inp::V(t);
                Ok(S(t))
            }
            "sym_choose" => {
                let n = self.conc(s, &av[0], 64)? as u64;
                let first = s.choices == 0;
                s.choices += 1;
                let (i, k) = self.cfg.shard;
                let opts: Vec<u64> = (0..n).filter(|v| !first || v % k == i).collect();
                if opts.is_empty() {
                    return Err(Stop::Silent);
                }
                // the siblings resume after the call
                let fr = s.frames.last().unwrap();
                let ins = &fr.f.f.blocks[fr.blk as usize].insts[fr.ip as usize];
                let (dst, next) = match &ins.op {
                    Op::Call { next, .. } => (ins.dst, *next),
                    _ => unreachable!(),
                };
                for v in opts.iter().skip(1).rev() {
                    let mut o = s.clone();
                    Rc::make_mut(&mut o.inputs).push(Inp::C(*v));
                    self.ret_to(&mut o, dst, next, C(*v as u128));
                    self.st.forks += 1;
                    self.work.push(o);
                }
                Rc::make_mut(&mut s.inputs).push(Inp::C(opts[0]));
                Ok(C(opts[0] as u128))
            }
            "sym_assume" => {
                match &av[0] {
                    C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Infeasible);
                        }
                    }
                    S(t) => match self.query(s, *t)? {
                        Some(m) => {
                            s.model = Rc::new(m);
                            self.assume(s, *t, true);
                        }
                        None => return Err(Stop::Infeasible),
                    },
                    _ => return unsup("assume"),
                }
                Ok(C(0))
            }
            "sym_check" => {
                let id = self.str_arg(s, &av[1], &av[2]);
                self.do_check(s, &av[0], id)?;
                Ok(C(0))
            }
            "sym_reach" => {
                let id = self.str_arg(s, &av[0], &av[1]);
                *self.st.reach.entry(id).or_default() += 1;
                Ok(C(0))
            }
            "sym_observe" => {
                Rc::make_mut(&mut s.obs).push(av[0].clone());
                Ok(C(0))
            }
            "sym_end" => Err(Stop::End),
            "sym_tier" => Ok(C(self.cfg.tier as u128)),
            "sym_unsupported" => unsup("outside the core library model"),
            "sym_fork" => {
                // decide a condition by forking, returning a concrete boolean
                let v = match &av[0] {
                    C(c) => *c & 1 == 1,
                    S(t) => self.decide(s, *t)?,
                    _ => return unsup("fork"),
                };
                Ok(C(v as u128))
            }
            "sym_dec" => {
                let k = val_t(&av[0], 64);
                let sc = self.conc(s, &av[1], 32)? as u32;
                if let Some(c) = tm().cval(k) {
                    return Ok(C(dec_to_f64(c as u64 as i64, sc).to_bits() as u128));
                }
                let (lo, hi) = tm().srng(k);
                if sc > 40 || lo.unsigned_abs().max(hi.unsigned_abs()) > 1 << 53 {
                    return unsup("decimal with more than 53 bits of mantissa");
                }
                Ok(t_val(tm().dec(k, sc as u8)))
            }
            "sym_undec" => {
                // k such that the value prints as k/10^prec; kind 0: exact precision
                let prec = self.conc(s, &av[1], 32)? as u32;
                let x = val_t(&av[0], 64);
                if let Some((k, sc)) = tm().as_dec(x) {
                    let (lo, hi) = tm().srng(k);
                    let m = lo.unsigned_abs().max(hi.unsigned_abs());
                    if prec >= sc as u32 && prec - sc as u32 <= 18 {
                        let p = pow10(prec - sc as u32) as u128;
                        if m.checked_mul(p).map(|v| v < 1_000_000_000_000_000).unwrap_or(false) {
                            return Ok(t_val(tm().lin(0, vec![(k, p)], 64)));
                        }
                    } else if prec < sc as u32 && sc as u32 - prec <= 18 && m < 1_000_000_000_000_000 {
                        // fewer digits than the value has: round half away is decided away from ties
                        let z = tm().cst(0, 64);
                        let neg = tm().slt(k, z);
                        let neg = self.decide(s, neg)?;
                        let ka = if neg { tm().neg(k) } else { k };
                        let p = pow10(sc as u32 - prec) as u128;
                        let pt = tm().cst(p, 64);
                        let r = tm().urem(ka, pt);
                        let half = tm().cst(p / 2, 64);
                        let tie = tm().eq(r, half);
                        if self.decide(s, tie)? {
                            return unsup("formatting of a decimal tie");
                        }
                        let up = tm().lin(p / 2, vec![(ka, 1)], 64);
                        let q = tm().udiv(up, pt);
                        let q = if neg { tm().neg(q) } else { q };
                        return Ok(t_val(q));
                    }
                }
                unsup(format!("formatting of float term {}", tm().show(x, 3)))
            }
            "sym_dec_scale" => {
                let x = val_t(&av[0], 64);
                match tm().as_dec(x) {
                    Some((_, sc)) => Ok(C(sc as u128)),
                    None => unsup(format!("decimal view of float term {}", tm().show(x, 3))),
                }
            }
            // ----- libc -----
            "memcmp" | "bcmp" => {
                let (a, b) = (self.conc(s, &av[0], 64)? as u64, self.conc(s, &av[1], 64)? as u64);
                let n = self.conc(s, &av[2], 64)? as usize;
                self.cmp_bytes(s, a, b, n, name == "memcmp")
            }
            "memcpy" | "memmove" => {
                let (d, b) = (self.conc(s, &av[0], 64)? as u64, self.conc(s, &av[1], 64)? as u64);
                let n = self.conc(s, &av[2], 64)? as usize;
                self.copy(s, d, b, n)?;
                Ok(av[0].clone())
            }
            "strlen" => {
                let p = self.conc(s, &av[0], 64)? as u64;
                let mut n = 0;
                loop {
                    match self.rd(s, p + n, 1, 8)? {
                        C(0) => break,
                        C(_) => n += 1,
                        _ => return unsup("strlen of symbolic bytes"),
                    }
                }
                Ok(C(n as u128))
            }
            "malloc" => {
                let n = self.conc(s, &av[0], 64)? as u64;
                Ok(C(self.alloc(s, n)? as u128))
            }
            "calloc" => {
                let n = self.conc(s, &av[0], 64)? as u64 * self.conc(s, &av[1], 64)? as u64;
                Ok(C(self.alloc(s, n)? as u128))
            }
            "posix_memalign" => {
                let p = self.conc(s, &av[0], 64)? as u64;
                let n = self.conc(s, &av[2], 64)? as u64;
                let a = self.alloc(s, n)?;
                self.wr(s, p, 8, &C(a as u128))?;
                Ok(C(0))
            }
            "realloc" => {
                let p = self.conc(s, &av[0], 64)? as u64;
                let n = self.conc(s, &av[1], 64)? as u64;
                let old = if p == 0 { 0 } else { self.obj(s, p)?.0.data.len() as u64 };
                let q = self.alloc(s, n)?;
                if p != 0 {
                    self.copy(s, q, p, old.min(n) as usize)?;
                    s.heap.free((p >> 32) as usize);
                }
                Ok(C(q as u128))
            }
            "free" => {
                let p = self.conc(s, &av[0], 64)? as u64;
                if p != 0 {
                    s.heap.free((p >> 32) as usize);
                }
                Ok(C(0))
            }
            "getrandom" => Ok(av[1].clone()),
            "syscall" => match (&av[0], av.get(2)) {
                (C(318), Some(n)) => Ok(n.clone()),
                (C(202), _) => Ok(C(0)),
                (C(186), _) => Ok(C(1)),
                _ => unsup("syscall"),
            },
            "write" => Ok(av[2].clone()),
            "writev" => {
                let p = self.conc(s, &av[1], 64)? as u64;
                let n = self.conc(s, &av[2], 64)? as u64;
                let mut tot = 0u128;
                for i in 0..n {
                    match self.rd(s, p + 16 * i + 8, 8, 64)? {
                        C(l) => tot += l,
                        _ => return unsup("writev"),
                    }
                }
                Ok(C(tot))
            }
            "getenv" => Ok(C(0)),
            "gettid" => Ok(C(1)),
            "__errno_location" => {
                let a = self.alloc(s, 8)?;
                Ok(C(a as u128))
            }
            "pthread_key_create" => {
                let p = self.conc(s, &av[0], 64)? as u64;
                self.wr(s, p, 4, &C(1))?;
                Ok(C(0))
            }
            "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "sched_yield" => Ok(C(0)),
            "clock_gettime" => {
                let p = self.conc(s, &av[1], 64)? as u64;
                self.wr(s, p, 8, &C(1_700_000_000))?;
                self.wr(s, p + 8, 8, &C(0))?;
                Ok(C(0))
            }
            "abort" => Err(Stop::Panic("abort".into(), None)),
            "sin" | "cos" | "tan" | "atan" | "asin" | "acos" | "exp" | "log" | "log10" | "cbrt" => match &av[0] {
                C(c) => {
                    let x = f64::from_bits(*c as u64);
                    let r = match name {
                        "sin" => x.sin(),
                        "cos" => x.cos(),
                        "tan" => x.tan(),
                        "atan" => x.atan(),
                        "asin" => x.asin(),
                        "acos" => x.acos(),
                        "exp" => x.exp(),
                        "log" => x.ln(),
                        "cbrt" => x.cbrt(),
                        _ => x.log10(),
                    };
                    Ok(C(r.to_bits() as u128))
                }
                _ => unsup(format!("symbolic {}", name)),
            },
            "pow" | "atan2" | "fmod" | "hypot" => match (&av[0], &av[1]) {
                (C(a), C(b)) => {
                    let (a, b) = (f64::from_bits(*a as u64), f64::from_bits(*b as u64));
                    let r = match name {
                        "pow" => a.powf(b),
                        "atan2" => a.atan2(b),
                        "hypot" => a.hypot(b),
                        _ => a % b,
                    };
                    Ok(C(r.to_bits() as u128))
                }
                _ => unsup(format!("symbolic {}", name)),
            },
            _ => unsup(format!("extern {}", name)),
        }
    }
    fn intrinsic(&mut self, s: &mut State, n: &str, av: Vec<Val>, args: &[(Ty, Opd)], ret: &Ty) -> R<Val> {
        let base = n.split('.').next().unwrap();
        let w = args.first().map(|a| a.0.bits()).unwrap_or(0);
        match base {
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "prefetch" | "x86" | "va_start" | "va_end" => Ok(C(0)),
            "memcpy" | "memmove" => {
                let len = self.conc(s, &av[2], 64)? as usize;
                let (d, b) = (self.conc(s, &av[0], 64)? as u64, self.conc(s, &av[1], 64)? as u64);
                self.copy(s, d, b, len)?;
                Ok(C(0))
            }
            "memset" => {
                let len = self.conc(s, &av[2], 64)? as usize;
                let d = self.conc(s, &av[0], 64)? as u64;
                if len == 0 {
                    return Ok(C(0));
                }
                match &av[1] {
                    C(b) => {
                        let (o, off) = self.obj_mut(s, d)?;
                        if off + len > o.data.len() {
                            return Err(Stop::Panic("memory: memset out of bounds".into(), None));
                        }
                        o.data[off..off + len].fill(*b as u8);
                        if let Some(x) = &mut o.sym {
                            for y in &mut x[off..off + len] {
                                y.0 = NOSYM;
                            }
                        }
                    }
                    v => {
                        for i in 0..len {
                            self.wr(s, d + i as u64, 1, v)?;
                        }
                    }
                }
                Ok(C(0))
            }
            "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" => {
                if n.contains(".with.overflow") {
                    return Ok(self.with_overflow(base, w, &av[0], &av[1]));
                }
                // saturating
                let r = self.with_overflow(base, w, &av[0], &av[1]);
                let (v, o) = match &r {
                    A(l) => (l[0].clone(), l[1].clone()),
                    _ => unreachable!(),
                };
                let sat = |neg: bool| -> u128 {
                    match base {
                        "uadd" | "umul" => mask(w),
                        "usub" => 0,
                        _ => {
                            if neg {
                                1u128 << (w - 1)
                            } else {
                                mask(w) >> 1
                            }
                        }
                    }
                };
                match o {
                    C(0) => Ok(v),
                    C(_) => {
                        let neg = match &av[0] {
                            C(a) => sgn(*a, w) < 0,
                            S(t) => {
                                let z = tm().cst(0, w);
                                let c = tm().slt(*t, z);
                                self.decide(s, c)?
                            }
                            _ => false,
                        };
                        Ok(C(sat(neg)))
                    }
                    S(o) => {
                        if base.starts_with('u') {
                            let c = tm().cst(sat(false), w);
                            let v = val_t(&v, w);
                            Ok(t_val(tm().ite(o, c, v)))
                        } else if self.decide(s, o)? {
                            let neg = match &av[0] {
                                C(a) => sgn(*a, w) < 0,
                                S(t) => {
                                    let z = tm().cst(0, w);
                                    let c = tm().slt(*t, z);
                                    self.decide(s, c)?
                                }
                                _ => false,
                            };
                            Ok(C(sat(neg)))
                        } else {
                            Ok(v)
                        }
                    }
                    _ => unsup("sat"),
                }
            }
            "umin" | "umax" | "smin" | "smax" => {
                if args[0].0.is_agg() {
                    return unsup("vector min/max");
                }
                let p = if base.starts_with('u') { Pred::Ult } else { Pred::Slt };
                let c = self.icmp(s, p, &args[0].0, &av[0], &av[1])?;
                let (a, b) = if base.ends_with("min") { (&av[0], &av[1]) } else { (&av[1], &av[0]) };
                Ok(match c {
                    C(1) => a.clone(),
                    C(_) => b.clone(),
                    S(c) => {
                        let (a, b) = (val_t(a, w), val_t(b, w));
                        t_val(tm().ite(c, a, b))
                    }
                    _ => return unsup("min"),
                })
            }
            "ucmp" | "scmp" => {
                let p = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let wr = ret.bits();
                let lt = self.icmp(s, p, &args[0].0, &av[0], &av[1])?;
                let gt = self.icmp(s, p, &args[0].0, &av[1], &av[0])?;
                let (lt, gt) = (val_t(&lt, 1), val_t(&gt, 1));
                let t = tm();
                let (m1, one, z) = (t.cst(mask(wr), wr), t.cst(1, wr), t.cst(0, wr));
                let g = t.ite(gt, one, z);
                Ok(t_val(t.ite(lt, m1, g)))
            }
            "abs" => match &av[0] {
                C(c) => Ok(C(sgn(*c, w).unsigned_abs() & mask(w))),
                S(t) => {
                    let z = tm().cst(0, w);
                    let c = tm().slt(*t, z);
                    if self.decide(s, c)? {
                        Ok(t_val(tm().neg(*t)))
                    } else {
                        Ok(S(*t))
                    }
                }
                _ => unsup("abs"),
            },
            "ctlz" | "cttz" | "ctpop" => match &av[0] {
                C(c) => {
                    let r = match base {
                        "ctlz" => {
                            if *c == 0 {
                                w
                            } else {
                                w - (128 - c.leading_zeros())
                            }
                        }
                        "cttz" => {
                            if *c == 0 {
                                w
                            } else {
                                c.trailing_zeros()
                            }
                        }
                        _ => c.count_ones(),
                    };
                    Ok(C(r as u128))
                }
                S(t) => {
                    let t = *t;
                    if base == "ctpop" {
                        let mut ts = vec![];
                        for i in 0..w {
                            let b = tm().ext(t, i, 1);
                            ts.push((b, 1));
                        }
                        return Ok(t_val(tm().lin(0, ts, w)));
                    }
                    // fork over the position
                    for i in 0..w {
                        let pos = if base == "cttz" { i } else { w - 1 - i };
                        let b = tm().ext(t, pos, 1);
                        if self.decide(s, b)? {
                            return Ok(C(i as u128));
                        }
                    }
                    Ok(C(w as u128))
                }
                _ => unsup("ctz"),
            },
            "bswap" => match &av[0] {
                C(c) => Ok(C(c.swap_bytes() >> (128 - w))),
                S(t) => {
                    let nb = w / 8;
                    let mut ts = vec![];
                    for i in 0..nb {
                        let b = tm().ext(*t, 8 * i, 8);
                        ts.push((b, 1u128 << (8 * (nb - 1 - i))));
                    }
                    Ok(t_val(tm().lin(0, ts, w)))
                }
                _ => unsup("bswap"),
            },
            "bitreverse" => match &av[0] {
                C(c) => Ok(C(c.reverse_bits() >> (128 - w))),
                S(t) => {
                    let mut ts = vec![];
                    for i in 0..w {
                        let b = tm().ext(*t, i, 1);
                        ts.push((b, 1u128 << (w - 1 - i)));
                    }
                    Ok(t_val(tm().lin(0, ts, w)))
                }
                _ => unsup("bitreverse"),
            },
            "fshl" | "fshr" => {
                let sh = self.conc(s, &av[2], w)? % w as u128;
                let (hi, lo) = (val_t(&av[0], w), val_t(&av[1], w));
                let sh = if base == "fshl" { sh } else { (w as u128 - sh) % w as u128 };
                if sh == 0 {
                    return Ok(if base == "fshl" { av[0].clone() } else { av[1].clone() });
                }
                let t = tm();
                let (a, b) = (t.cst(sh, w), t.cst(w as u128 - sh, w));
                let x = t.shl(hi, a);
                let y = t.lshr(lo, b);
                Ok(t_val(t.add(x, y)))
            }
            "is" if n.starts_with("is.fpclass") => {
                let mask = self.conc(s, &av[1], 32)? as u32;
                let neg0 = mask & 0x20 != 0;
                let pos0 = mask & 0x40 != 0;
                if let (C(c), true) = (&av[0], w == 64 || w == 32) {
                    let x = if w == 64 { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 };
                    use std::num::FpCategory::*;
                    let g = x.is_sign_negative();
                    let sub = if w == 64 { x.classify() == Subnormal } else { f32::from_bits(*c as u32).classify() == Subnormal };
                    let bit = match x.classify() {
                        Nan => 0x3,
                        Infinite => if g { 0x4 } else { 0x200 },
                        Zero => if g { 0x20 } else { 0x40 },
                        _ if sub => if g { 0x10 } else { 0x80 },
                        _ => if g { 0x8 } else { 0x100 },
                    };
                    return Ok(C((mask & bit != 0) as u128));
                }
                let x = match (&av[0], w) {
                    (S(t), 64) => *t,
                    _ => return unsup("f32 class"),
                };
                let t = tm();
                let dec = matches!(t.k(x), K::Dec(..));
                if (neg0 != pos0 && !dec) || !matches!(mask & 3, 0 | 3) {
                    return unsup("class of zeros or nans");
                }
                let f = |v: f64| v.to_bits() as u128;
                let inf = t.cst(f(f64::INFINITY), 64);
                let ninf = t.cst(f(f64::NEG_INFINITY), 64);
                let min = t.cst(f(f64::MIN_POSITIVE), 64);
                let nmin = t.cst(f(-f64::MIN_POSITIVE), 64);
                let zero = t.cst(0, 64);
                // 1=eq 2=gt 4=lt 8=unordered
                let mut r = 0;
                let add = |t: &mut Tm, r: T, c: T| t.or(r, c);
                if mask & 3 != 0 {
                    let c = t.fcmp(8, x, x);
                    r = add(t, r, c);
                }
                if mask & 4 != 0 {
                    let c = t.fcmp(1, x, ninf);
                    r = add(t, r, c);
                }
                if mask & 0x200 != 0 {
                    let c = t.fcmp(1, x, inf);
                    r = add(t, r, c);
                }
                if pos0 {
                    let c = t.fcmp(1, x, zero);
                    r = add(t, r, c);
                }
                for (bit, p, a, q, b) in [(0x8, 2, ninf, 5, nmin), (0x10, 2, nmin, 4, zero), (0x80, 2, zero, 4, min), (0x100, 3, min, 4, inf)] {
                    if mask & bit != 0 {
                        let c = t.fcmp(p, x, a);
                        let d = t.fcmp(q, x, b);
                        let c = t.and(c, d);
                        r = add(t, r, c);
                    }
                }
                Ok(t_val(r))
            }
            "is" => Ok(C(0)), // is.constant
            "expect" => Ok(av[0].clone()),
            "threadlocal" | "launder" | "strip" | "ssa" => Ok(av[0].clone()),
            "trap" | "ubsantrap" => Err(Stop::Panic("trap".into(), None)),
            "fabs" | "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "sqrt" => {
                let op = match base {
                    "fabs" => FU::Abs,
                    "floor" => FU::Floor,
                    "ceil" => FU::Ceil,
                    "trunc" => FU::Trunc,
                    "round" => FU::Round,
                    "sqrt" => FU::Sqrt,
                    _ => FU::RoundEven,
                };
                match (&av[0], w) {
                    (C(c), 64) => Ok(C(fueval(op, *c as u64) as u128)),
                    (C(c), 32) => {
                        let d = (f32::from_bits(*c as u32) as f64).to_bits();
                        Ok(C((f64::from_bits(fueval(op, d)) as f32).to_bits() as u128))
                    }
                    (S(t), 64) => self.fun(s, op, *t),
                    _ => unsup("f32 intrinsic"),
                }
            }
            "fptosi" | "fptoui" => {
                let sg = base == "fptosi";
                match (&av[0], w) {
                    (C(c), 64) => Ok(C(ftoi_eval(sg, *c as u64, ret.bits()))),
                    (C(c), 32) => Ok(C(ftoi_eval(sg, (f32::from_bits(*c as u32) as f64).to_bits(), ret.bits()))),
                    (S(t), 64) => {
                        if let K::Dec(k, _) = *tm().k(*t) {
                            let z = tm().cst(0, 64);
                            let c = tm().slt(k, z);
                            self.decide(s, c)?;
                        }
                        Ok(t_val(tm().ftoi(sg, *t, ret.bits())))
                    }
                    _ => unsup("f32 to int"),
                }
            }
            "sin" | "cos" | "exp" | "log" | "log10" | "tan" | "exp2" | "log2" => match (&av[0], w) {
                (C(c), 64) => {
                    let x = f64::from_bits(*c as u64);
                    let r = match base {
                        "sin" => x.sin(),
                        "cos" => x.cos(),
                        "tan" => x.tan(),
                        "exp" => x.exp(),
                        "exp2" => x.exp2(),
                        "log2" => x.log2(),
                        "log" => x.ln(),
                        _ => x.log10(),
                    };
                    Ok(C(r.to_bits() as u128))
                }
                _ => unsup(format!("symbolic {}", base)),
            },
            "powi" => match (&av[0], &av[1], w) {
                (C(a), C(b), 64) => Ok(C(f64::from_bits(*a as u64).powi(sgn(*b, 32) as i32).to_bits() as u128)),
                (C(a), C(b), 32) => Ok(C(f32::from_bits(*a as u32).powi(sgn(*b, 32) as i32).to_bits() as u128)),
                _ => unsup("symbolic powi"),
            },
            "pow" => match (&av[0], &av[1], w) {
                (C(a), C(b), 64) => Ok(C(f64::from_bits(*a as u64).powf(f64::from_bits(*b as u64)).to_bits() as u128)),
                _ => unsup("symbolic pow"),
            },
            "copysign" => match (&av[0], &av[1]) {
                (C(a), C(b)) if w == 64 => Ok(C((a & (mask(63))) | (b & (1 << 63)))),
                _ => unsup("symbolic copysign"),
            },
            "fma" | "fmuladd" => match (&av[0], &av[1], &av[2]) {
                (C(a), C(b), C(c)) if w == 64 => Ok(C(f64::from_bits(*a as u64).mul_add(f64::from_bits(*b as u64), f64::from_bits(*c as u64)).to_bits() as u128)),
                _ => unsup("symbolic fma"),
            },
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => match (&av[0], &av[1]) {
                (C(a), C(b)) if w == 64 => {
                    let (a, b) = (f64::from_bits(*a as u64), f64::from_bits(*b as u64));
                    Ok(C(if base.starts_with("min") { a.min(b) } else { a.max(b) }.to_bits() as u128))
                }
                _ => unsup("symbolic minnum"),
            },
            "vector" => {
                // vector.reduce.{or,and,add}
                let l = match &av[0] {
                    A(l) => l.clone(),
                    _ => return unsup("vector reduce"),
                };
                let et = args[0].0.field(0);
                let op = if n.contains("reduce.or") {
                    BinOp::Or
                } else if n.contains("reduce.and") {
                    BinOp::And
                } else if n.contains("reduce.add") {
                    BinOp::Add
                } else if n.contains("reduce.xor") {
                    BinOp::Xor
                } else {
                    return unsup(format!("llvm.{}", n));
                };
                let mut acc = l[0].clone();
                for v in l.iter().skip(1) {
                    acc = self.bin(s, op, &et, &acc, v, false)?;
                }
                Ok(acc)
            }
            _ => unsup(format!("llvm.{}", n)),
        }
    }
}

/// last identifiers of a v0-mangled name
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    let mut ids = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if l > 0 && st + l <= b.len() && n.is_char_boundary(st) && n.is_char_boundary(st + l) && n[st..st + l].chars().all(|c| c.is_alphanumeric() || c == '_') && (b[st].is_ascii_alphabetic() || b[st] == b'_') {
                ids.push(n[st..st + l].to_string());
                i = st + l;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if ids.is_empty() {
        n.to_string()
    } else {
        let k = ids.len().saturating_sub(4);
        ids[k..].join("::")
    }
}
