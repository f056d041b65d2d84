//! Textual LLVM IR reader (the subset rustc emits). Functions are parsed on demand.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    Ptr,
    F32,
    F64,
    Struct(Rc<Vec<Ty>>, bool),
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::I(w) => {
                let b = (*w as u64).div_ceil(8);
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match &**t {
                Ty::I(w) => (*n as u64 * *w as u64).div_ceil(8),
                t => *n as u64 * t.size(),
            },
        }
    }
    /// bytes a load or a store touches (a store of i24 writes three bytes, though an i24 in an array takes four)
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(w) => (*w as u64).div_ceil(8),
            t => t.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::I(_) => self.size().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// bit width of scalars
    pub fn bits(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

/// constants before address resolution
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Sym(String, i64), // symbol + offset
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, Cst)>),
}
#[derive(Clone, Debug)]
pub enum Opd {
    L(u32),
    C(Cst),
    /// index into the function's constant pool (after resolution)
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Op {
    Alloca(Ty, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Bin(BinOp, Ty, Opd, Opd, bool),
    Icmp(Pred, Ty, Opd, Opd),
    Fcmp(u8, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(CastOp, Ty, Ty, Opd),
    Select(Ty, Opd, Opd, Opd, bool),
    Call { ret: Ty, callee: Opd, args: Vec<(Ty, Opd)>, next: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Rc<Vec<(u128, u32)>>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Resume,
    ExtractValue(Ty, Opd, Vec<usize>),
    InsertValue(Ty, Opd, Ty, Opd, Vec<usize>),
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i64>),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    Copy(Opd),
    Bad(String),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub op: Op,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
    pub name: String,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub nlocals: u32,
    pub blocks: Vec<Block>,
    pub ninst: usize,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub funcs: HashMap<String, (usize, usize)>,
    pub decls: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+'
}

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> P<'a> {
        P { s, i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\n' | b'\t' => self.i += 1,
                // comment
                b'/' if self.s[self.i..].starts_with(b"/*") => {
                    while !self.s[self.i..].starts_with(b"*/") {
                        self.i += 1;
                    }
                    self.i += 2;
                }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?} in {:?}", c as char, String::from_utf8_lossy(&self.s[self.i..]), String::from_utf8_lossy(self.s));
        }
    }
    fn pword(&mut self) -> &'a [u8] {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_word(self.s[j]) {
            j += 1;
        }
        &self.s[self.i..j]
    }
    fn word(&mut self) -> &'a [u8] {
        let w = self.pword();
        self.i += w.len();
        w
    }
    fn kw(&mut self, w: &str) -> bool {
        if self.pword() == w.as_bytes() {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> String {
        // after % or @
        if self.s[self.i] == b'"' {
            let j = self.i + 1;
            let mut e = j;
            while self.s[e] != b'"' {
                e += 1;
            }
            self.i = e + 1;
            return String::from_utf8_lossy(&self.s[j..e]).into_owned();
        }
        let mut j = self.i;
        while j < self.s.len() && is_word(self.s[j]) {
            j += 1;
        }
        let r = String::from_utf8_lossy(&self.s[self.i..j]).into_owned();
        self.i = j;
        r
    }
    fn parens(&mut self) {
        // skip balanced (...)
        self.expect(b'(');
        let mut d = 1;
        while d > 0 && self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u64 {
        let w = self.word();
        std::str::from_utf8(w).unwrap().parse::<i128>().unwrap_or_else(|_| panic!("num {:?} in {}", String::from_utf8_lossy(w), String::from_utf8_lossy(self.s))) as u64
    }
    pub fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(b'}') {
                    v.push(self.ty());
                    self.eat(b',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let mut v = vec![];
                    while !self.eat(b'}') {
                        v.push(self.ty());
                        self.eat(b',');
                    }
                    self.expect(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num();
                    self.kw("x");
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.num();
                self.kw("x");
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    b"void" => Ty::Void,
                    b"ptr" => {
                        if self.kw("addrspace") {
                            self.parens();
                        }
                        Ty::Ptr
                    }
                    b"float" => Ty::F32,
                    b"double" => Ty::F64,
                    b"metadata" | b"label" | b"token" | b"half" | b"fp128" | b"x86_fp80" => Ty::Other,
                    _ if w.first() == Some(&b'i') && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()) => {
                        Ty::I(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap())
                    }
                    _ => panic!("type {:?} in {}", String::from_utf8_lossy(w), String::from_utf8_lossy(self.s)),
                }
            }
        }
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                b'#' => {
                    self.i += 1;
                    self.word();
                }
                b'"' => {
                    // "key"="value"
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.eat(b'=') {
                        self.expect(b'"');
                        while self.s[self.i] != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                }
                _ => {
                    let w = self.pword();
                    match w {
                        b"align" => {
                            self.i += w.len();
                            if self.peek() == b'(' {
                                self.parens();
                            } else {
                                self.num();
                            }
                        }
                        b"noundef" | b"nonnull" | b"noalias" | b"nofree" | b"nocapture" | b"readonly" | b"writeonly" | b"readnone"
                        | b"zeroext" | b"signext" | b"inreg" | b"returned" | b"immarg" | b"nest" | b"swiftself" | b"allocptr"
                        | b"allocalign" | b"dead_on_unwind" | b"dead_on_return" | b"writable" | b"noext" | b"unnamed_addr"
                        | b"local_unnamed_addr" | b"fastcc" | b"coldcc" | b"ccc" | b"nosync" | b"nounwind" | b"dso_local"
                        | b"internal" | b"private" | b"hidden" | b"weak" | b"linkonce_odr" | b"external" | b"extern_weak"
                        | b"available_externally" | b"protected" | b"default" | b"nnan" | b"ninf" | b"nsz" | b"arcp"
                        | b"contract" | b"afn" | b"reassoc" | b"fast" | b"preserve_mostcc" | b"preserve_allcc" | b"tailcc" => {
                            self.i += w.len();
                        }
                        b"sret" | b"byval" | b"byref" | b"dereferenceable" | b"dereferenceable_or_null" | b"captures"
                        | b"range" | b"initializes" | b"nofpclass" | b"memory" | b"elementtype" | b"preallocated" | b"inalloca" => {
                            self.i += w.len();
                            self.parens();
                        }
                        _ => return,
                    }
                }
            }
        }
    }
    /// a constant (not a local)
    fn cst(&mut self, ty: &Ty) -> Cst {
        match self.peek() {
            b'@' => {
                self.i += 1;
                Cst::Sym(self.name(), 0)
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        if self.s[self.i + 1] == b'\\' {
                            v.push(b'\\');
                            self.i += 2;
                            continue;
                        }
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 3;
                    } else {
                        v.push(self.s[self.i]);
                        self.i += 1;
                    }
                }
                self.i += 1;
                Cst::Bytes(v)
            }
            b'{' => {
                self.i += 1;
                let r = self.agg(b'}');
                r
            }
            b'[' => {
                self.i += 1;
                self.agg(b']')
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let r = self.agg(b'}');
                    self.expect(b'>');
                    r
                } else {
                    self.agg(b'>')
                }
            }
            _ => {
                let w = self.word();
                match w {
                    b"true" => Cst::Int(1),
                    b"false" => Cst::Int(0),
                    b"null" | b"zeroinitializer" | b"none" => Cst::Zero,
                    b"undef" | b"poison" => Cst::Undef,
                    b"splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let c = self.cst(&t);
                        self.expect(b')');
                        Cst::Splat(Box::new((t, c)))
                    }
                    b"inttoptr" | b"ptrtoint" | b"bitcast" | b"ptrtoaddr" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let c = self.cst(&t);
                        self.kw("to");
                        self.ty();
                        self.expect(b')');
                        c
                    }
                    b"getelementptr" => {
                        while self.peek() != b'(' {
                            let w = self.word();
                            if w == b"inrange" {
                                self.parens();
                            }
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        self.ty();
                        self.attrs();
                        let base = self.cst(&Ty::Ptr);
                        let mut off = 0i64;
                        let mut cur = t;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty();
                            let c = self.cst(&it);
                            let n = match c {
                                Cst::Int(v) => crate::term::sgn(v, it.bits()) as i64,
                                _ => 0,
                            };
                            if first {
                                off += n * cur.size() as i64;
                                first = false;
                            } else {
                                off += cur.field_off(n as usize) as i64;
                                cur = cur.field(n as usize);
                            }
                        }
                        self.expect(b')');
                        match base {
                            Cst::Sym(n, o) => Cst::Sym(n, o + off),
                            Cst::Int(v) => Cst::Int(v.wrapping_add(off as u128)),
                            Cst::Zero => Cst::Int(off as u64 as u128),
                            _ => Cst::Undef,
                        }
                    }
                    b"sub" | b"add" | b"xor" => {
                        // constant expression, only ptrtoint differences: unsupported
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.parens();
                        Cst::Undef
                    }
                    b"asm" => Cst::Undef,
                    _ => {
                        let st = std::str::from_utf8(w).unwrap();
                        match ty {
                            Ty::F64 => {
                                if let Some(h) = st.strip_prefix("0x") {
                                    Cst::Int(u64::from_str_radix(h, 16).unwrap() as u128)
                                } else if let Some(h) = st.strip_prefix("f0x") {
                                    Cst::Int(u64::from_str_radix(h, 16).unwrap() as u128)
                                } else {
                                    match st {
                                        "inf" | "+inf" => Cst::Int(f64::INFINITY.to_bits() as u128),
                                        "-inf" => Cst::Int(f64::NEG_INFINITY.to_bits() as u128),
                                        "qnan" | "nan" | "+qnan" => Cst::Int(f64::NAN.to_bits() as u128),
                                        _ => Cst::Int(st.parse::<f64>().unwrap_or_else(|_| panic!("f64 {}", st)).to_bits() as u128),
                                    }
                                }
                            }
                            Ty::F32 => {
                                if let Some(h) = st.strip_prefix("0x") {
                                    let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
                                    Cst::Int((d as f32).to_bits() as u128)
                                } else if let Some(h) = st.strip_prefix("f0x") {
                                    Cst::Int(u64::from_str_radix(h, 16).unwrap() as u128)
                                } else {
                                    match st {
                                        "inf" | "+inf" => Cst::Int(f32::INFINITY.to_bits() as u128),
                                        "-inf" => Cst::Int(f32::NEG_INFINITY.to_bits() as u128),
                                        "qnan" | "nan" | "+qnan" => Cst::Int(f32::NAN.to_bits() as u128),
                                        _ => Cst::Int(st.parse::<f32>().unwrap_or_else(|_| panic!("f32 {}", st)).to_bits() as u128),
                                    }
                                }
                            }
                            _ => {
                                let bits = ty.bits().max(1);
                                let v = if let Ok(v) = st.parse::<i128>() {
                                    v as u128
                                } else if let Ok(v) = st.parse::<u128>() {
                                    v
                                } else {
                                    panic!("const {:?} : {:?} in {}", st, ty, String::from_utf8_lossy(&self.s[..self.s.len().min(400)]))
                                };
                                Cst::Int(v & crate::term::mask(bits))
                            }
                        }
                    }
                }
            }
        }
    }
    fn agg(&mut self, end: u8) -> Cst {
        let mut v = vec![];
        while !self.eat(end) {
            let t = self.ty();
            let c = self.cst(&t);
            v.push((t, c));
            self.eat(b',');
        }
        Cst::Agg(v)
    }
}

pub struct FCtx {
    locals: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FCtx {
    fn local(&mut self, n: String) -> u32 {
        let k = self.locals.len() as u32;
        *self.locals.entry(n).or_insert(k)
    }
    fn block(&mut self, n: String) -> u32 {
        *self.blocks.get(&n).unwrap_or_else(|| panic!("block {}", n))
    }
}

impl<'a> P<'a> {
    fn opd(&mut self, ty: &Ty, f: &mut FCtx) -> Opd {
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            Opd::L(f.local(n))
        } else {
            Opd::C(self.cst(ty))
        }
    }
    fn topd(&mut self, f: &mut FCtx) -> (Ty, Opd) {
        let t = self.ty();
        self.attrs();
        if t == Ty::Other {
            // metadata operand
            while !matches!(self.peek(), b',' | b')' | 0) {
                self.i += 1;
            }
            return (t, Opd::C(Cst::Undef));
        }
        let o = self.opd(&t, f);
        (t, o)
    }
    fn label(&mut self, f: &mut FCtx) -> u32 {
        self.kw("label");
        self.expect(b'%');
        let n = self.name();
        f.block(n)
    }
}

/// visit every operand with the type it is used at
pub fn visit_opds(op: &mut Op, f: &mut dyn FnMut(&mut Opd, &Ty)) {
    let p = Ty::Ptr;
    let i64t = Ty::I(64);
    match op {
        Op::Alloca(_, o) => f(o, &i64t),
        Op::Load(_, o) => f(o, &p),
        Op::Store(t, v, o) => {
            f(v, t);
            f(o, &p)
        }
        Op::Gep(b, _, idx) => {
            f(b, &p);
            for (o, w, _) in idx {
                f(o, &Ty::I(*w))
            }
        }
        Op::Bin(_, t, a, b, _) | Op::Icmp(_, t, a, b) | Op::Fcmp(_, t, a, b) => {
            f(a, t);
            f(b, t)
        }
        Op::FNeg(t, a) => f(a, t),
        Op::Cast(_, t, _, a) => f(a, t),
        Op::Select(t, c, a, b, v) => {
            let ct = if *v { Ty::Vec(t.count() as u32, Rc::new(Ty::I(1))) } else { Ty::I(1) };
            f(c, &ct);
            f(a, t);
            f(b, t)
        }
        Op::Call { callee, args, .. } => {
            f(callee, &p);
            for (t, o) in args {
                if *t != Ty::Other {
                    f(o, t)
                } else {
                    *o = Opd::C(Cst::Int(0));
                    f(o, &i64t)
                }
            }
        }
        Op::CondBr(c, _, _) => f(c, &Ty::I(1)),
        Op::Switch(w, c, _, _) => f(c, &Ty::I(*w)),
        Op::Ret(Some((t, o))) => f(o, t),
        Op::ExtractValue(t, o, _) => f(o, t),
        Op::InsertValue(t, o, t2, o2, _) => {
            f(o, t);
            f(o2, t2)
        }
        Op::ExtractElement(t, o, i) => {
            f(o, t);
            f(i, &i64t)
        }
        Op::InsertElement(t, o, e, i) => {
            f(o, t);
            let et = t.field(0);
            f(e, &et);
            f(i, &i64t)
        }
        Op::Shuffle(t, a, b, _) => {
            f(a, t);
            f(b, t)
        }
        Op::AtomicRmw(_, t, a, v) => {
            f(a, &p);
            f(v, t)
        }
        Op::CmpXchg(t, a, x, y) => {
            f(a, &p);
            f(x, t);
            f(y, t)
        }
        Op::Copy(o) => f(o, &i64t),
        _ => {}
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| {
            eprintln!("symir: cannot read {}: {}", path, e);
            std::process::exit(2)
        });
        let mut m = Module { text: vec![], funcs: HashMap::new(), decls: HashMap::new(), globals: vec![], gidx: HashMap::new() };
        let mut i = 0;
        let n = text.len();
        while i < n {
            let e = text[i..].iter().position(|c| *c == b'\n').map(|x| i + x).unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with(b"define ") {
                let at = line.iter().position(|c| *c == b'@').unwrap();
                let mut p = P::new(&line[at + 1..]);
                let name = p.name();
                // end of function
                let mut j = e + 1;
                loop {
                    let e2 = text[j..].iter().position(|c| *c == b'\n').map(|x| j + x).unwrap_or(n);
                    if &text[j..e2] == b"}" {
                        j = e2;
                        break;
                    }
                    j = e2 + 1;
                }
                m.funcs.insert(name, (i, j));
                i = j + 1;
                continue;
            } else if line.starts_with(b"declare ") {
                let at = line.iter().position(|c| *c == b'@').unwrap();
                let mut p = P::new(&line[at + 1..]);
                let name = p.name();
                m.decls.insert(name, i);
            } else if line.starts_with(b"@") {
                let mut p = P::new(&line[1..]);
                let name = p.name();
                p.expect(b'=');
                let mut constant = false;
                let mut external = false;
                let mut skip = false;
                loop {
                    let w = p.pword();
                    match w {
                        b"constant" => {
                            constant = true;
                            p.i += w.len();
                            break;
                        }
                        b"global" => {
                            p.i += w.len();
                            break;
                        }
                        b"external" | b"extern_weak" => {
                            external = true;
                            p.i += w.len();
                        }
                        b"thread_local" => {
                            p.i += w.len();
                            if p.peek() == b'(' {
                                p.parens();
                            }
                        }
                        b"alias" => {
                            skip = true;
                            break;
                        }
                        b"" => {
                            skip = true;
                            break;
                        }
                        _ => p.i += w.len(),
                    }
                }
                if !skip {
                    let ty = p.ty();
                    let init = if external { None } else { Some(p.cst(&ty)) };
                    m.gidx.insert(name.clone(), m.globals.len());
                    m.globals.push(Global { name, ty, init, constant });
                }
            }
            i = e + 1;
        }
        m.text = text;
        m
    }

    pub fn parse_fn(&self, name: &str) -> Option<Func> {
        let (a, b) = *self.funcs.get(name)?;
        let body = &self.text[a..b];
        let hdr_end = body.iter().position(|c| *c == b'\n').unwrap();
        let hdr = &body[..hdr_end];
        let mut f = FCtx { locals: HashMap::new(), blocks: HashMap::new() };
        // header
        let mut p = P::new(hdr);
        p.kw("define");
        p.attrs();
        let ret = p.ty();
        p.attrs();
        p.expect(b'@');
        p.name();
        p.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !p.eat(b')') {
            if p.peek() == b'.' {
                p.word();
                continue;
            }
            let t = p.ty();
            p.attrs();
            let n = if p.peek() == b'%' {
                p.i += 1;
                p.name()
            } else {
                let s = unnamed.to_string();
                s
            };
            if n.parse::<u32>().is_ok() {
                unnamed = n.parse::<u32>().unwrap() + 1;
            }
            let l = f.local(n);
            params.push((l, t));
            p.eat(b',');
        }
        // logical lines
        let mut lines: Vec<Vec<u8>> = vec![];
        let mut labels: Vec<(String, usize)> = vec![]; // name, first line
        let mut it = body[hdr_end + 1..].split(|c| *c == b'\n').peekable();
        let mut first = true;
        while let Some(l) = it.next() {
            if l.is_empty() || l[0] == b';' {
                continue;
            }
            if l[0] != b' ' && l[0] != b'}' {
                // label
                let name = if l[0] == b'"' {
                    let e = l[1..].iter().position(|c| *c == b'"').unwrap();
                    String::from_utf8_lossy(&l[1..1 + e]).into_owned()
                } else {
                    let e = l.iter().position(|c| *c == b':').unwrap();
                    String::from_utf8_lossy(&l[..e]).into_owned()
                };
                labels.push((name, lines.len()));
                first = false;
                continue;
            }
            if first {
                // unnamed entry block: next numeric slot
                labels.push((unnamed.to_string(), 0));
                first = false;
            }
            let t = &l[2.min(l.len())..];
            if t.starts_with(b";") || l.trim_ascii().starts_with(b";") || l.trim_ascii().starts_with(b"#dbg") {
                continue;
            }
            let mut v = t.to_vec();
            let has = |v: &[u8], k: &[u8]| v.starts_with(k) || v.windows(k.len() + 2).any(|w| w.starts_with(b"= ") && w.ends_with(k));
            if has(&v, b"switch ") {
                while let Some(n) = it.next() {
                    v.push(b' ');
                    v.extend_from_slice(n);
                    if n.trim_ascii().starts_with(b"]") {
                        break;
                    }
                }
            } else if has(&v, b"invoke ") {
                while !v.windows(12).any(|w| w == b"unwind label") {
                    match it.next() {
                        Some(n) => {
                            v.push(b' ');
                            v.extend_from_slice(n);
                        }
                        None => break,
                    }
                }
            } else if has(&v, b"landingpad ") {
                while let Some(n) = it.peek() {
                    if n.starts_with(b"      ") {
                        it.next();
                    } else {
                        break;
                    }
                }
            }
            lines.push(v);
        }
        for (i, (n, _)) in labels.iter().enumerate() {
            f.blocks.insert(n.clone(), i as u32);
        }
        let mut blocks = vec![];
        let mut ninst = 0;
        for (i, (n, s)) in labels.iter().enumerate() {
            let e = if i + 1 < labels.len() { labels[i + 1].1 } else { lines.len() };
            let mut blk = Block { phis: vec![], insts: vec![], name: n.clone() };
            for l in &lines[*s..e] {
                parse_inst(l, &mut f, &mut blk);
                ninst += 1;
            }
            blocks.push(blk);
        }
        Some(Func { name: name.to_string(), params, ret, nlocals: f.locals.len() as u32, blocks, ninst })
    }
}

fn parse_inst(l: &[u8], f: &mut FCtx, b: &mut Block) {
    let mut p = P::new(l);
    let mut dst = u32::MAX;
    if p.peek() == b'%' {
        let save = p.i;
        p.i += 1;
        let n = p.name();
        if p.eat(b'=') {
            dst = f.local(n);
        } else {
            p.i = save;
        }
    }
    let w = p.word();
    let op = match w {
        b"phi" => {
            p.attrs();
            let t = p.ty();
            let mut inc = vec![];
            loop {
                p.expect(b'[');
                let o = p.opd(&t, f);
                p.expect(b',');
                p.expect(b'%');
                let n = p.name();
                let bl = f.block(n);
                p.expect(b']');
                inc.push((bl, o));
                if !p.eat(b',') || p.peek() != b'[' {
                    break;
                }
            }
            b.phis.push((dst, t, inc));
            return;
        }
        b"alloca" => {
            p.kw("inalloca");
            let t = p.ty();
            let mut n = Opd::C(Cst::Int(1));
            if p.eat(b',') {
                if p.pword() != b"align" && p.peek() != b'!' {
                    let (_, o) = p.topd(f);
                    n = o;
                }
            }
            Op::Alloca(t, n)
        }
        b"load" => {
            p.kw("atomic");
            p.kw("volatile");
            let t = p.ty();
            p.expect(b',');
            let (_, o) = p.topd(f);
            Op::Load(t, o)
        }
        b"store" => {
            p.kw("atomic");
            p.kw("volatile");
            let (t, v) = p.topd(f);
            p.expect(b',');
            let (_, o) = p.topd(f);
            Op::Store(t, v, o)
        }
        b"getelementptr" => {
            while p.kw("inbounds") || p.kw("nuw") || p.kw("nusw") {}
            let t = p.ty();
            p.expect(b',');
            let (_, base) = p.topd(f);
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = t;
            let mut first = true;
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let (it, o) = p.topd(f);
                let scale;
                if first {
                    scale = cur.size() as i64;
                    first = false;
                } else if let (Ty::Struct(..), Opd::C(Cst::Int(n))) = (&cur, &o) {
                    off += cur.field_off(*n as usize) as i64;
                    cur = cur.field(*n as usize);
                    continue;
                } else {
                    let e = cur.field(0);
                    scale = e.size() as i64;
                    cur = e;
                }
                match o {
                    Opd::C(Cst::Int(n)) => off = off.wrapping_add((crate::term::sgn(n, it.bits()) as i64).wrapping_mul(scale)),
                    Opd::C(Cst::Zero) | Opd::C(Cst::Undef) => {}
                    o => idx.push((o, it.bits(), scale)),
                }
            }
            Op::Gep(base, off, idx)
        }
        b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"shl" | b"lshr" | b"ashr" | b"and" | b"or" | b"xor"
        | b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
            let bop = match w {
                b"add" => BinOp::Add,
                b"sub" => BinOp::Sub,
                b"mul" => BinOp::Mul,
                b"udiv" => BinOp::UDiv,
                b"sdiv" => BinOp::SDiv,
                b"urem" => BinOp::URem,
                b"srem" => BinOp::SRem,
                b"shl" => BinOp::Shl,
                b"lshr" => BinOp::LShr,
                b"ashr" => BinOp::AShr,
                b"and" => BinOp::And,
                b"or" => BinOp::Or,
                b"xor" => BinOp::Xor,
                b"fadd" => BinOp::FAdd,
                b"fsub" => BinOp::FSub,
                b"fmul" => BinOp::FMul,
                b"fdiv" => BinOp::FDiv,
                _ => BinOp::FRem,
            };
            let mut disjoint = false;
            loop {
                let q = p.pword();
                match q {
                    b"nuw" | b"nsw" | b"exact" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"fast" => p.i += q.len(),
                    b"disjoint" => {
                        disjoint = true;
                        p.i += q.len()
                    }
                    _ => break,
                }
            }
            let t = p.ty();
            let x = p.opd(&t, f);
            p.expect(b',');
            let y = p.opd(&t, f);
            Op::Bin(bop, t, x, y, disjoint)
        }
        b"fneg" => {
            p.attrs();
            let t = p.ty();
            let x = p.opd(&t, f);
            Op::FNeg(t, x)
        }
        b"icmp" => {
            p.kw("samesign");
            let pr = match p.word() {
                b"eq" => Pred::Eq,
                b"ne" => Pred::Ne,
                b"ugt" => Pred::Ugt,
                b"uge" => Pred::Uge,
                b"ult" => Pred::Ult,
                b"ule" => Pred::Ule,
                b"sgt" => Pred::Sgt,
                b"sge" => Pred::Sge,
                b"slt" => Pred::Slt,
                _ => Pred::Sle,
            };
            let t = p.ty();
            let x = p.opd(&t, f);
            p.expect(b',');
            let y = p.opd(&t, f);
            Op::Icmp(pr, t, x, y)
        }
        b"fcmp" => {
            p.attrs();
            let pr = match p.word() {
                b"false" => 0,
                b"oeq" => 1,
                b"ogt" => 2,
                b"oge" => 3,
                b"olt" => 4,
                b"ole" => 5,
                b"one" => 6,
                b"ord" => 7,
                b"uno" => 8,
                b"ueq" => 9,
                b"ugt" => 10,
                b"uge" => 11,
                b"ult" => 12,
                b"ule" => 13,
                b"une" => 14,
                _ => 15,
            };
            let t = p.ty();
            let x = p.opd(&t, f);
            p.expect(b',');
            let y = p.opd(&t, f);
            Op::Fcmp(pr, t, x, y)
        }
        b"trunc" | b"zext" | b"sext" | b"bitcast" | b"ptrtoint" | b"ptrtoaddr" | b"inttoptr" | b"fptosi" | b"fptoui" | b"sitofp" | b"uitofp"
        | b"fpext" | b"fptrunc" => {
            let c = match w {
                b"trunc" => CastOp::Trunc,
                b"zext" => CastOp::ZExt,
                b"sext" => CastOp::SExt,
                b"bitcast" => CastOp::Bitcast,
                b"ptrtoint" | b"ptrtoaddr" => CastOp::PtrToInt,
                b"inttoptr" => CastOp::IntToPtr,
                b"fptosi" => CastOp::FpToSi,
                b"fptoui" => CastOp::FpToUi,
                b"sitofp" => CastOp::SiToFp,
                b"uitofp" => CastOp::UiToFp,
                b"fpext" => CastOp::FpExt,
                _ => CastOp::FpTrunc,
            };
            while p.kw("nuw") || p.kw("nsw") || p.kw("nneg") || p.kw("fast") || p.kw("nnan") || p.kw("contract") {}
            let t = p.ty();
            let x = p.opd(&t, f);
            p.kw("to");
            let t2 = p.ty();
            Op::Cast(c, t, t2, x)
        }
        b"select" => {
            p.attrs();
            let (ct, c) = p.topd(f);
            p.expect(b',');
            let (t, x) = p.topd(f);
            p.expect(b',');
            let (_, y) = p.topd(f);
            Op::Select(t, c, x, y, ct.is_agg())
        }
        b"call" | b"tail" | b"musttail" | b"notail" | b"invoke" => {
            if w != b"call" && w != b"invoke" {
                p.kw("call");
            }
            p.attrs();
            let ret = p.ty();
            p.attrs();
            if p.peek() == b'(' {
                p.parens(); // function type
            }
            let callee = if p.kw("asm") {
                Opd::C(Cst::Sym("asm".into(), 0))
            } else {
                p.opd(&Ty::Ptr, f)
            };
            let mut args = vec![];
            if let Opd::C(Cst::Sym(n, _)) = &callee {
                if n == "asm" {
                    b.insts.push(Inst { dst, op: Op::Bad("inline asm".into()) });
                    return;
                }
            }
            p.expect(b'(');
            while !p.eat(b')') {
                args.push(p.topd(f));
                p.eat(b',');
            }
            let mut next = None;
            if w == b"invoke" {
                p.attrs();
                p.kw("to");
                next = Some(p.label(f));
            }
            Op::Call { ret, callee, args, next }
        }
        b"br" => {
            if p.pword() == b"label" {
                Op::Br(p.label(f))
            } else {
                let (_, c) = p.topd(f);
                p.expect(b',');
                let a = p.label(f);
                p.expect(b',');
                let e = p.label(f);
                Op::CondBr(c, a, e)
            }
        }
        b"switch" => {
            let (t, c) = p.topd(f);
            p.expect(b',');
            let d = p.label(f);
            p.expect(b'[');
            let mut v = vec![];
            while !p.eat(b']') {
                let t = p.ty();
                let c = match p.cst(&t) {
                    Cst::Int(v) => v,
                    _ => 0,
                };
                p.expect(b',');
                v.push((c, p.label(f)));
            }
            Op::Switch(t.bits(), c, d, Rc::new(v))
        }
        b"ret" => {
            if p.kw("void") {
                Op::Ret(None)
            } else {
                let t = p.ty();
                let o = p.opd(&t, f);
                Op::Ret(Some((t, o)))
            }
        }
        b"unreachable" => Op::Unreachable,
        b"resume" => Op::Resume,
        b"landingpad" => Op::Nop,
        b"fence" => Op::Nop,
        b"extractvalue" => {
            let (t, o) = p.topd(f);
            let mut v = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                v.push(p.num() as usize);
            }
            Op::ExtractValue(t, o, v)
        }
        b"insertvalue" => {
            let (t, o) = p.topd(f);
            p.expect(b',');
            let (t2, o2) = p.topd(f);
            let mut v = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                v.push(p.num() as usize);
            }
            Op::InsertValue(t, o, t2, o2, v)
        }
        b"extractelement" => {
            let (t, o) = p.topd(f);
            p.expect(b',');
            let (_, i) = p.topd(f);
            Op::ExtractElement(t, o, i)
        }
        b"insertelement" => {
            let (t, o) = p.topd(f);
            p.expect(b',');
            let (_, e) = p.topd(f);
            p.expect(b',');
            let (_, i) = p.topd(f);
            Op::InsertElement(t, o, e, i)
        }
        b"shufflevector" => {
            let (t, x) = p.topd(f);
            p.expect(b',');
            let (_, y) = p.topd(f);
            p.expect(b',');
            let mt = p.ty();
            let m = p.cst(&mt);
            let n = mt.count();
            let mut v = vec![];
            match m {
                Cst::Agg(l) => {
                    for (_, c) in l {
                        v.push(match c {
                            Cst::Int(i) => i as i64,
                            _ => 0,
                        })
                    }
                }
                Cst::Splat(b) => {
                    let i = if let Cst::Int(i) = b.1 { i as i64 } else { 0 };
                    v = vec![i; n]
                }
                _ => v = vec![0; n],
            }
            Op::Shuffle(t, x, y, v)
        }
        b"atomicrmw" => {
            p.kw("volatile");
            let o = String::from_utf8_lossy(p.word()).into_owned();
            let (_, a) = p.topd(f);
            p.expect(b',');
            let (t, v) = p.topd(f);
            Op::AtomicRmw(o, t, a, v)
        }
        b"cmpxchg" => {
            p.kw("weak");
            p.kw("volatile");
            let (_, a) = p.topd(f);
            p.expect(b',');
            let (t, x) = p.topd(f);
            p.expect(b',');
            let (_, y) = p.topd(f);
            Op::CmpXchg(t, a, x, y)
        }
        b"freeze" => {
            let (_, o) = p.topd(f);
            Op::Copy(o)
        }
        _ => Op::Bad(String::from_utf8_lossy(l).into_owned()),
    };
    b.insts.push(Inst { dst, op });
}
