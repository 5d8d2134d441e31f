//! Parser for the textual LLVM IR that rustc emits; produces a compact executable form.
use crate::exec::V;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ty(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Other, // metadata, label, x86_fp80, token ...
    Arr(u64, Ty),
    Struct(bool, Vec<Ty>),
    Vec(u64, Ty),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32), // global symbol index
    Ptr(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum K {
    Bin(Bin, Ty, Opd, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Select(Ty, Ty, Opd, Opd, Opd), // cond type, value type
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>), // base, const offset, (index, index width, scale)
    Alloca(u64, Opd),
    Call(Callee, Vec<(Ty, Opd)>, Ty, u32), // normal dest block or u32::MAX
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i32>),
    Copy(Opd),
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub k: K,
    pub dst: u32,
    pub dbg: u32,
}

#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>, // dst, (pred block, value)
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub sp: u32, // DISubprogram
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
    pub weak_undef: bool,
    pub addr: u64,
    pub size: u64,
    pub align: u64,
}
pub enum Sym {
    Undef,
    Global(u32),
    Func(u32),
    Decl, // declared function
    Alias(u32),
}

/// Constant initializer (before addresses are known).
#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Zero,
    Sym(u32),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, C)>),
    Gep(Box<C>, i64),
    Bin(Bin, u32, Box<C>, Box<C>),
    Cast(Cast, u32, u32, Box<C>),
    Splat(Box<C>),
}

#[derive(Clone, Default, Debug)]
pub struct Loc {
    pub line: u32,
    pub scope: u32,
    pub inlined: u32,
}
#[derive(Clone, Default, Debug)]
pub struct Scope {
    pub is_sp: bool,
    pub name: String,
    pub linkage: String,
    pub scope: u32,
    pub file: u32,
}

pub struct Module {
    pub types: Vec<T>,
    tymap: HashMap<T, Ty>,
    named: HashMap<String, Ty>,
    pub syms: Vec<Sym>,
    pub sym_names: Vec<String>,
    pub sym_map: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub locs: HashMap<u32, Loc>,
    pub scopes: HashMap<u32, Scope>,
    pub files: HashMap<u32, String>,
    pub gmap: Vec<(u64, u64, u32)>, // sorted (addr, size, global)
}

pub const GBASE: u64 = 1 << 32;
pub const FBASE: u64 = 3 << 32;
pub const HBASE: u64 = 16;

#[derive(Clone, Debug, PartialEq)]
enum Tk<'a> {
    W(&'a str),
    L(std::borrow::Cow<'a, str>),
    G(std::borrow::Cow<'a, str>),
    N(&'a str),
    S(&'a str),
    M(&'a str),
    P(u8),
    A, // attribute group reference
}

fn unq(s: &str) -> std::borrow::Cow<'_, str> {
    if s.contains('\\') {
        String::from_utf8_lossy(&unescape(s)).into_owned().into()
    } else {
        s.into()
    }
}
pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn lex<'a>(s: &'a str, out: &mut Vec<Tk<'a>>) {
    out.clear();
    let b = s.as_bytes();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let g = c == b'@';
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    let t = unq(&s[st..j]);
                    out.push(if g { Tk::G(t) } else { Tk::L(t) });
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    let t = (&s[st..j]).into();
                    out.push(if g { Tk::G(t) } else { Tk::L(t) });
                    i = j;
                }
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tk::S(&s[st..j]));
                i = j + 1;
            }
            b'!' => {
                let st = i;
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(Tk::M(&s[st..j]));
                i = j;
            }
            b'#' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(Tk::A);
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                out.push(Tk::N(&s[st..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                let mut j = i;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                if &s[st..j] == "c" && j < b.len() && b[j] == b'"' {
                    let st = j + 1;
                    let mut k = st;
                    while b[k] != b'"' {
                        k += 1;
                    }
                    out.push(Tk::W("c"));
                    out.push(Tk::S(&s[st..k]));
                    i = k + 1;
                } else {
                    out.push(Tk::W(&s[st..j]));
                    i = j;
                }
            }
            _ => {
                out.push(Tk::P(c));
                i += 1;
            }
        }
    }
}

struct Ps<'m, 't, 'a> {
    m: &'m mut Module,
    t: &'t [Tk<'a>],
    i: usize,
}

fn is_vword(w: &str) -> bool {
    matches!(w, "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "add" | "sub" | "mul" | "xor" | "trunc" | "bitcast" | "splat" | "c" | "none" | "blockaddress" | "addrspacecast")
}

impl<'m, 't, 'a> Ps<'m, 't, 'a> {
    fn peek(&self) -> Option<&Tk<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tk<'a> {
        let r = self.t[self.i].clone();
        self.i += 1;
        r
    }
    fn isp(&self, c: u8) -> bool {
        matches!(self.peek(), Some(Tk::P(x)) if *x == c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tk::W(x)) if *x == w)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at {:?} in {:?}", c as char, self.peek(), &self.t[self.i.saturating_sub(6)..(self.i + 3).min(self.t.len())]);
        }
    }
    fn skip_bal(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tk::P(b'(') => d += 1,
                Tk::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            Some(Tk::W(w)) => {
                matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "metadata" | "label" | "token" | "bfloat") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tk::P(c)) => matches!(*c, b'{' | b'[' | b'<'),
            Some(Tk::L(_)) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tk::W(w) => match w {
                "void" => T::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_bal();
                    }
                    T::Ptr
                }
                "float" => T::Float,
                "double" => T::Double,
                "half" | "x86_fp80" | "fp128" | "metadata" | "label" | "token" | "bfloat" => T::Other,
                _ => T::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
            },
            Tk::P(b'{') => {
                let v = self.tys(b'}');
                T::Struct(false, v)
            }
            Tk::P(b'[') => {
                let n = self.num_u64();
                assert!(self.eatw("x"));
                let e = self.ty();
                self.exp(b']');
                T::Arr(n, e)
            }
            Tk::P(b'<') => {
                if self.eat(b'{') {
                    let v = self.tys(b'}');
                    self.exp(b'>');
                    T::Struct(true, v)
                } else {
                    let n = self.num_u64();
                    assert!(self.eatw("x"));
                    let e = self.ty();
                    self.exp(b'>');
                    T::Vec(n, e)
                }
            }
            Tk::L(n) => {
                return *self.m.named.get(n.as_ref()).unwrap_or_else(|| panic!("named type {}", n));
            }
            x => panic!("type expected, got {:?}", x),
        };
        self.m.mkty(t)
    }
    fn tys(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.exp(b',');
        }
    }
    fn num_u64(&mut self) -> u64 {
        match self.next() {
            Tk::N(n) => n.parse().unwrap(),
            x => panic!("number expected, got {:?}", x),
        }
    }
    /// constant of type `t`
    fn cst(&mut self, t: Ty) -> C {
        match self.next() {
            Tk::N(n) if n.starts_with('-') && n.as_bytes().get(1).is_some_and(|c| c.is_ascii_alphabetic()) => C::Int(float_word(&n[1..], self.m.int_w(t), true)),
            Tk::N(n) => match self.m.types[t.0 as usize] {
                T::Float => C::Int(parse_float(n, 32)),
                T::Double => C::Int(parse_float(n, 64)),
                T::Int(w) => {
                    let v: i128 = n.parse::<i128>().unwrap_or_else(|_| n.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int {}", n)));
                    C::Int((v as u128) & crate::expr::mask(w))
                }
                _ => panic!("numeric constant {} of odd type", n),
            },
            Tk::G(g) => C::Sym(self.m.sym(&g)),
            Tk::P(b'+') => match self.next() {
                Tk::W(w) => C::Int(float_word(w, self.m.int_w(t), false)),
                Tk::N(n) => C::Int(parse_float(n, self.m.int_w(t))),
                x => panic!("float constant +{:?}", x),
            },
            Tk::P(b'[') => {
                let v = self.csts(b']');
                C::Agg(v)
            }
            Tk::P(b'{') => {
                let v = self.csts(b'}');
                C::Agg(v)
            }
            Tk::P(b'<') => {
                if self.eat(b'{') {
                    let v = self.csts(b'}');
                    self.exp(b'>');
                    C::Agg(v)
                } else {
                    let v = self.csts(b'>');
                    C::Agg(v)
                }
            }
            Tk::W(w) => match w {
                "null" | "zeroinitializer" | "undef" | "poison" | "none" => C::Zero,
                "true" => C::Int(1),
                "false" => C::Int(0),
                "c" => match self.next() {
                    Tk::S(s) => C::Bytes(unescape(s)),
                    x => panic!("{:?}", x),
                },
                "splat" => {
                    self.exp(b'(');
                    let t = self.ty();
                    let c = self.cst(t);
                    self.exp(b')');
                    C::Splat(Box::new(c))
                }
                "getelementptr" => {
                    while !self.isp(b'(') {
                        self.i += 1;
                    }
                    // inrange(...) form
                    if self.t[self.i..].len() > 1 && matches!(&self.t[self.i - 1], Tk::W(x) if *x == "inrange") {
                        self.skip_bal();
                    }
                    self.exp(b'(');
                    let bt = self.ty();
                    self.exp(b',');
                    let pt = self.ty();
                    let base = self.cst(pt);
                    let mut off = 0i64;
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat(b',') {
                        let it = self.ty();
                        let w = self.m.int_w(it);
                        let ix = match self.cst(it) {
                            C::Int(v) => crate::expr::sx(w, v) as i64,
                            C::Zero => 0,
                            x => panic!("gep const index {:?}", x),
                        };
                        if first {
                            off += ix * self.m.size(cur) as i64;
                            first = false;
                        } else {
                            let (o, n) = self.m.step(cur, ix);
                            off += o;
                            cur = n;
                        }
                    }
                    self.exp(b')');
                    C::Gep(Box::new(base), off)
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" => {
                    self.exp(b'(');
                    let ft = self.ty();
                    let c = self.cst(ft);
                    assert!(self.eatw("to"));
                    let tt = self.ty();
                    self.exp(b')');
                    let k = match w {
                        "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                        "inttoptr" => Cast::IntToPtr,
                        "trunc" => Cast::Trunc,
                        _ => Cast::BitCast,
                    };
                    C::Cast(k, self.m.int_w(ft), self.m.int_w(tt), Box::new(c))
                }
                "add" | "sub" | "mul" | "xor" => {
                    while !self.isp(b'(') {
                        self.i += 1;
                    }
                    self.exp(b'(');
                    let ta = self.ty();
                    let a = self.cst(ta);
                    self.exp(b',');
                    let tb = self.ty();
                    let b = self.cst(tb);
                    self.exp(b')');
                    let k = match w {
                        "add" => Bin::Add,
                        "sub" => Bin::Sub,
                        "mul" => Bin::Mul,
                        _ => Bin::Xor,
                    };
                    C::Bin(k, self.m.int_w(ta), Box::new(a), Box::new(b))
                }
                _ => {
                    // hex float forms such as f0x...
                    if let Some(h) = w.strip_prefix("f0x") {
                        let v = u128::from_str_radix(h, 16).unwrap();
                        return C::Int(v);
                    }
                    panic!("constant word {}", w)
                }
            },
            x => panic!("constant expected, got {:?} in {:?}", x, &self.t[self.i.saturating_sub(8)..(self.i + 2).min(self.t.len())]),
        }
    }
    fn csts(&mut self, end: u8) -> Vec<(Ty, C)> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            let c = self.cst(t);
            v.push((t, c));
            if self.eat(end) {
                return v;
            }
            self.exp(b',');
        }
    }
    fn skip_attr(&mut self) {
        // parameter / return attributes
        loop {
            match self.peek() {
                Some(Tk::W(w)) if !is_vword(w) => {
                    let al = *w == "align";
                    self.i += 1;
                    if self.isp(b'(') {
                        self.skip_bal();
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(Tk::S(_)) => {
                    self.i += 1;
                    if self.eat(b'=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
}

/// Spelled-out float constants: inf, nan / qnan.
fn float_word(w: &str, bits: u32, neg: bool) -> u128 {
    let (inf, quiet, sign) = if bits == 32 { (0x7f80_0000u128, 0x40_0000u128, 1u128 << 31) } else { (0x7ff0_0000_0000_0000, 0x8_0000_0000_0000, 1u128 << 63) };
    let v = match w {
        "inf" => inf,
        "nan" | "qnan" => inf | quiet,
        _ => panic!("float constant {}", w),
    };
    if neg { v | sign } else { v }
}

fn parse_float(n: &str, w: u32) -> u128 {
    if let Some(h) = n.strip_prefix("0x") {
        let bits = u64::from_str_radix(h, 16).unwrap();
        if w == 32 {
            (f64::from_bits(bits) as f32).to_bits() as u128
        } else {
            bits as u128
        }
    } else {
        let f: f64 = n.parse().unwrap();
        if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }
    }
}

impl Module {
    pub fn mkty(&mut self, t: T) -> Ty {
        if let Some(&x) = self.tymap.get(&t) {
            return x;
        }
        let id = Ty(self.types.len() as u32);
        self.types.push(t.clone());
        self.tymap.insert(t, id);
        id
    }
    #[inline]
    pub fn t(&self, t: Ty) -> &T {
        &self.types[t.0 as usize]
    }
    pub fn int_w(&self, t: Ty) -> u32 {
        match self.t(t) {
            T::Int(w) => *w,
            T::Ptr => 64,
            T::Float => 32,
            T::Double => 64,
            _ => 0,
        }
    }
    pub fn sym(&mut self, n: &str) -> u32 {
        if let Some(&s) = self.sym_map.get(n) {
            return s;
        }
        let id = self.syms.len() as u32;
        self.syms.push(Sym::Undef);
        self.sym_names.push(n.to_string());
        self.sym_map.insert(n.to_string(), id);
        id
    }
    pub fn align(&self, t: Ty) -> u64 {
        match self.t(t) {
            T::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            T::Ptr | T::Double => 8,
            T::Float => 4,
            T::Arr(_, e) => self.align(*e),
            T::Struct(p, v) => {
                if *p { 1 } else { v.iter().map(|x| self.align(*x)).max().unwrap_or(1) }
            }
            T::Vec(n, e) => (n * self.store_size(*e)).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self, t: Ty) -> u64 {
        match self.t(t) {
            T::Int(w) => (*w as u64 + 7) / 8,
            T::Vec(n, e) => (n * self.int_w(*e) as u64 + 7) / 8,
            _ => self.size(t),
        }
    }
    pub fn size(&self, t: Ty) -> u64 {
        match self.t(t) {
            T::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align(t);
                (b + a - 1) / a * a
            }
            T::Ptr | T::Double => 8,
            T::Float => 4,
            T::Arr(n, e) => n * self.size(*e),
            T::Struct(p, v) => {
                let mut o = 0;
                for x in v {
                    if !*p {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(*x);
                }
                let a = self.align(t);
                (o + a - 1) / a * a
            }
            T::Vec(..) => {
                let a = self.align(t);
                (self.store_size(t) + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: Ty, i: usize) -> u64 {
        match self.t(t) {
            T::Struct(p, v) => {
                let mut o = 0;
                for (j, x) in v.iter().enumerate() {
                    if !*p {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += self.size(*x);
                }
                panic!("field")
            }
            T::Arr(_, e) => i as u64 * self.size(*e),
            T::Vec(_, e) => i as u64 * self.store_size(*e),
            _ => panic!("field_off"),
        }
    }
    pub fn elem_ty(&self, t: Ty, i: usize) -> Ty {
        match self.t(t) {
            T::Struct(_, v) => v[i],
            T::Arr(_, e) | T::Vec(_, e) => *e,
            x => panic!("elem_ty {:?}", x),
        }
    }
    fn step(&self, t: Ty, i: i64) -> (i64, Ty) {
        match self.t(t) {
            T::Struct(..) => (self.field_off(t, i as usize) as i64, self.elem_ty(t, i as usize)),
            T::Arr(_, e) => (i * self.size(*e) as i64, *e),
            T::Vec(_, e) => (i * self.size(*e) as i64, *e),
            x => panic!("gep into {:?}", x),
        }
    }
    pub fn sym_addr(&self, s: u32) -> u64 {
        match &self.syms[s as usize] {
            Sym::Global(g) => {
                let g = &self.globals[*g as usize];
                if g.weak_undef { 0 } else { g.addr }
            }
            Sym::Func(f) => FBASE + *f as u64 * 16,
            Sym::Decl => {
                let n = &self.sym_names[s as usize];
                // weak externs of libc are treated as absent
                if self.weak_decl(n) { 0 } else { FBASE + (1 << 31) + s as u64 * 16 }
            }
            Sym::Alias(t) => self.sym_addr(*t),
            Sym::Undef => 0,
        }
    }
    fn weak_decl(&self, n: &str) -> bool {
        WEAK.with(|w| w.borrow().contains(n))
    }
    pub fn c_val(&self, t: Ty, c: &C) -> V {
        match self.t(t).clone() {
            T::Vec(n, e) => match c {
                C::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.c_val(*t, c)).collect())),
                C::Zero => V::A(Rc::new((0..n).map(|_| self.c_val(e, &C::Zero)).collect())),
                C::Splat(x) => V::A(Rc::new((0..n).map(|_| self.c_val(e, x)).collect())),
                C::Bytes(b) => V::A(Rc::new(b.iter().map(|b| V::C(*b as u64)).collect())),
                x => panic!("vector const {:?}", x),
            },
            T::Arr(n, e) => match c {
                C::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.c_val(*t, c)).collect())),
                C::Zero => V::A(Rc::new((0..n).map(|_| self.c_val(e, &C::Zero)).collect())),
                C::Bytes(b) => V::A(Rc::new(b.iter().map(|b| V::C(*b as u64)).collect())),
                x => panic!("array const {:?}", x),
            },
            T::Struct(_, ts) => match c {
                C::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.c_val(*t, c)).collect())),
                C::Zero => V::A(Rc::new(ts.iter().map(|t| self.c_val(*t, &C::Zero)).collect())),
                x => panic!("struct const {:?}", x),
            },
            _ => {
                let w = self.int_w(t);
                V::num(w, self.c_int(c))
            }
        }
    }
    pub fn c_int(&self, c: &C) -> u128 {
        match c {
            C::Int(v) => *v,
            C::Zero => 0,
            C::Sym(s) => self.sym_addr(*s) as u128,
            C::Gep(b, o) => (self.c_int(b) as u64).wrapping_add(*o as u64) as u128,
            C::Bin(k, w, a, b) => {
                let (a, b) = (self.c_int(a), self.c_int(b));
                (match k {
                    Bin::Add => a.wrapping_add(b),
                    Bin::Sub => a.wrapping_sub(b),
                    Bin::Mul => a.wrapping_mul(b),
                    _ => a ^ b,
                }) & crate::expr::mask(*w)
            }
            C::Cast(_, _, tw, a) => self.c_int(a) & crate::expr::mask((*tw).max(1)),
            C::Bytes(b) => {
                let mut v = 0u128;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                v
            }
            x => panic!("c_int {:?}", x),
        }
    }
    /// Write constant into bytes.
    pub fn c_bytes(&self, t: Ty, c: &C, out: &mut [u8]) {
        match c {
            C::Zero => {}
            C::Bytes(b) => out[..b.len()].copy_from_slice(b),
            C::Agg(v) => {
                for (i, (et, ec)) in v.iter().enumerate() {
                    let o = self.field_off(t, i) as usize;
                    self.c_bytes(*et, ec, &mut out[o..]);
                }
            }
            C::Splat(x) => {
                if let T::Vec(n, e) = self.t(t).clone() {
                    for i in 0..n {
                        let o = self.field_off(t, i as usize) as usize;
                        self.c_bytes(e, x, &mut out[o..]);
                    }
                }
            }
            _ => {
                let v = self.c_int(c);
                let n = self.store_size(t) as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    pub fn gfind(&self, addr: u64) -> Option<(u32, u64)> {
        let i = self.gmap.partition_point(|x| x.0 <= addr);
        if i == 0 {
            return None;
        }
        let (a, s, g) = self.gmap[i - 1];
        if addr - a <= s { Some((g, addr - a)) } else { None }
    }
}

thread_local! {
    static WEAK: std::cell::RefCell<std::collections::HashSet<String>> = Default::default();
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
}

pub fn parse(src: &str) -> Module {
    let mut m = Module {
        types: vec![],
        tymap: HashMap::new(),
        named: HashMap::new(),
        syms: vec![],
        sym_names: vec![],
        sym_map: HashMap::new(),
        globals: vec![],
        funcs: vec![],
        locs: HashMap::new(),
        scopes: HashMap::new(),
        files: HashMap::new(),
        gmap: vec![],
    };
    m.mkty(T::Void);
    let lines: Vec<&str> = src.lines().collect();
    let mut toks = vec![];
    // pass 0: named types (may be forward; rustc rarely emits them)
    for l in lines.iter().filter(|l| l.starts_with('%') && l.contains(" = type ")) {
        lex(l, &mut toks);
        if let Tk::L(n) = toks[0].clone() {
            let t = if matches!(&toks[3], Tk::W("opaque")) {
                m.mkty(T::Other)
            } else {
                let mut p = Ps { m: &mut m, t: &toks, i: 3 };
                p.ty()
            };
            m.named.insert(n.into_owned(), t);
        }
    }
    // pass 1: globals, declarations, function names, metadata
    let mut fidx = 0u32;
    for l in lines.iter() {
        let b = l.as_bytes();
        if b.is_empty() {
            continue;
        }
        if b[0] == b'@' {
            lex(l, &mut toks);
            let name = match &toks[0] {
                Tk::G(g) => g.to_string(),
                x => panic!("{:?}", x),
            };
            let s = m.sym(&name);
            let mut p = Ps { m: &mut m, t: &toks, i: 2 };
            let mut constant = false;
            let mut ext = false;
            let mut alias = false;
            loop {
                match p.next() {
                    Tk::W("constant") => {
                        constant = true;
                        break;
                    }
                    Tk::W("global") => break,
                    Tk::W("alias") => {
                        alias = true;
                        break;
                    }
                    Tk::W("external") | Tk::W("extern_weak") => ext = true,
                    Tk::W("thread_local") | Tk::W("addrspace") => {
                        if p.isp(b'(') {
                            p.skip_bal();
                        }
                    }
                    _ => {}
                }
            }
            let ty = p.ty();
            if alias {
                p.exp(b',');
                let pt = p.ty();
                let c = p.cst(pt);
                if let C::Sym(t) = c {
                    m.syms[s as usize] = Sym::Alias(t);
                }
                continue;
            }
            let init = if ext || p.peek().is_none() || p.isp(b',') { None } else { Some(p.cst(ty)) };
            let mut align = 0;
            while p.i < p.t.len() {
                if p.eatw("align") {
                    align = p.num_u64();
                } else {
                    p.i += 1;
                }
            }
            let align = align.max(m.align(ty)).max(1);
            let size = m.size(ty);
            let g = Global { name, ty, weak_undef: init.is_none(), init, constant, addr: 0, size, align };
            m.globals.push(g);
            m.syms[s as usize] = Sym::Global(m.globals.len() as u32 - 1);
        } else if l.starts_with("declare") {
            let at = l.find('@').unwrap();
            lex(&l[at..], &mut toks);
            if let Tk::G(g) = &toks[0] {
                let s = m.sym(g);
                m.syms[s as usize] = Sym::Decl;
                if l.contains("extern_weak") {
                    WEAK.with(|w| w.borrow_mut().insert(g.to_string()));
                }
            }
        } else if l.starts_with("define") {
            let at = l.find('@').unwrap();
            lex(&l[at..], &mut toks);
            if let Tk::G(g) = &toks[0] {
                let s = m.sym(g);
                m.syms[s as usize] = Sym::Func(fidx);
                fidx += 1;
            }
        } else if b[0] == b'!' {
            meta(&mut m, l);
        }
    }
    // lay out globals
    let mut a = GBASE + 4096;
    for g in m.globals.iter_mut() {
        if g.weak_undef {
            continue;
        }
        a = (a + g.align - 1) / g.align * g.align;
        g.addr = a;
        a += g.size.max(1) + 1;
    }
    assert!(a < GBASE + (1 << 31));
    let mut gm: Vec<(u64, u64, u32)> = m.globals.iter().enumerate().filter(|(_, g)| !g.weak_undef).map(|(i, g)| (g.addr, g.size, i as u32)).collect();
    gm.sort();
    m.gmap = gm;
    // pass 2: bodies
    let mut i = 0;
    while i < lines.len() {
        if lines[i].starts_with("define") {
            let st = i;
            while lines[i] != "}" {
                i += 1;
            }
            let f = func(&mut m, &lines[st..i]);
            m.funcs.push(f);
        }
        i += 1;
    }
    m
}

fn meta(m: &mut Module, l: &str) {
    let Some(eq) = l.find(" = ") else { return };
    let Ok(id) = l[1..eq].parse::<u32>() else { return };
    let mut r = &l[eq + 3..];
    if let Some(x) = r.strip_prefix("distinct ") {
        r = x;
    }
    let num = |r: &str, key: &str| -> u32 {
        // key like "scope: !"
        let mut from = 0;
        while let Some(p) = r[from..].find(key) {
            let p = from + p;
            let pre = r.as_bytes()[p - 1];
            if pre == b'(' || pre == b' ' {
                let s = &r[p + key.len()..];
                let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
                return s[..e].parse().unwrap_or(0);
            }
            from = p + 1;
        }
        0
    };
    let text = |r: &str, key: &str| -> String {
        if let Some(p) = r.find(key) {
            let s = &r[p + key.len()..];
            let e = s.find('"').unwrap_or(0);
            return s[..e].to_string();
        }
        String::new()
    };
    if r.starts_with("!DILocation(") {
        m.locs.insert(id, Loc { line: num(r, "line: "), scope: num(r, "scope: !"), inlined: num(r, "inlinedAt: !") });
    } else if r.starts_with("!DISubprogram(") {
        m.scopes.insert(id, Scope { is_sp: true, name: text(r, "(name: \""), linkage: text(r, "linkageName: \""), scope: num(r, "scope: !"), file: num(r, "file: !") });
    } else if r.starts_with("!DILexicalBlock") {
        m.scopes.insert(id, Scope { is_sp: false, name: String::new(), linkage: String::new(), scope: num(r, "scope: !"), file: num(r, "file: !") });
    } else if r.starts_with("!DIFile(") {
        let d = text(r, "directory: \"");
        let f = text(r, "filename: \"");
        m.files.insert(id, if f.starts_with('/') { f } else { format!("{}/{}", d, f) });
    }
}

fn func(m: &mut Module, lines: &[&str]) -> Func {
    let mut cx = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
    let mut toks = vec![];
    lex(lines[0], &mut toks);
    let mut i = 0;
    while !matches!(toks[i], Tk::G(_)) {
        i += 1;
    }
    let name = match &toks[i] {
        Tk::G(g) => g.to_string(),
        _ => unreachable!(),
    };
    let mut params = vec![];
    let mut unnamed = 0;
    {
        let mut p = Ps { m, t: &toks, i: i + 1 };
        p.exp(b'(');
        if !p.eat(b')') {
            loop {
                if p.isp(b'.') || p.isw("...") {
                    while !p.isp(b')') {
                        p.i += 1;
                    }
                    p.exp(b')');
                    break;
                }
                let _t = p.ty();
                p.skip_attr();
                match p.peek() {
                    Some(Tk::L(n)) => {
                        let n = n.to_string();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(cx.reg(&n));
                        p.i += 1;
                    }
                    _ => {
                        params.push(cx.reg(&unnamed.to_string()));
                        unnamed += 1;
                    }
                }
                if p.eat(b')') {
                    break;
                }
                p.exp(b',');
            }
        }
    }
    let dbgid = |l: &str| -> u32 {
        if let Some(p) = l.rfind("!dbg !") {
            let s = &l[p + 6..];
            let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
            s[..e].parse().unwrap_or(0)
        } else {
            0
        }
    };
    let sp = dbgid(lines[0]);
    let mut blocks: Vec<Block> = vec![];
    let mut order: Vec<u32> = vec![];
    let mut cur: Option<u32> = None;
    let mut k = 1;
    while k < lines.len() {
        let mut joined = String::new();
        let mut toks = vec![];
        let l = lines[k];
        k += 1;
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let e = if l.starts_with('"') { l[1..].find('"').unwrap() + 1 } else { l.find(':').unwrap() };
            let n = if l.starts_with('"') { unq(&l[1..e]).into_owned() } else { l[..e].to_string() };
            let b = cx.block(&n);
            cur = Some(b);
            order.push(b);
            continue;
        }
        if cur.is_none() {
            let b = cx.block(&unnamed.to_string());
            cur = Some(b);
            order.push(b);
        }
        if l.starts_with("          ") {
            continue; // landingpad clause
        }
        if l.trim_start().starts_with('#') {
            continue; // debug record
        }
        let mut text: &str = l;
        if l.ends_with('[') && l.trim_start().starts_with("switch") {
            joined.clear();
            joined.push_str(l);
            loop {
                joined.push_str(lines[k]);
                k += 1;
                if lines[k - 1].trim_start().starts_with(']') {
                    break;
                }
            }
            text = &joined;
        } else if l.contains("invoke ") {
            joined.clear();
            joined.push_str(l);
            joined.push_str(lines[k]);
            k += 1;
            text = &joined;
        }
        let dbg = dbgid(text);
        lex(text, &mut toks);
        let b = cur.unwrap() as usize;
        while blocks.len() <= b {
            blocks.push(Block::default());
        }
        inst(m, &mut cx, &toks, &mut blocks[b], dbg);
    }
    while blocks.len() < cx.blocks.len() {
        blocks.push(Block::default());
    }
    // entry block must be index of first label: remap so that entry is block 0
    let entry = order[0];
    assert_eq!(entry, 0, "entry block not first");
    Func { name, params, nregs: cx.regs.len() as u32, blocks, sp }
}

fn opd(p: &mut Ps, cx: &mut FnCtx, t: Ty) -> Opd {
    match p.peek() {
        Some(Tk::L(n)) => {
            let r = cx.reg(n);
            p.i += 1;
            Opd::R(r)
        }
        _ => {
            if matches!(p.m.t(t), T::Other) {
                // metadata operand: skip to , or ) at depth 0
                let mut d = 0;
                while let Some(t) = p.peek() {
                    match t {
                        Tk::P(b'(') => d += 1,
                        Tk::P(b')') if d == 0 => break,
                        Tk::P(b')') => d -= 1,
                        Tk::P(b',') if d == 0 => break,
                        _ => {}
                    }
                    p.i += 1;
                }
                return Opd::C(V::C(0));
            }
            let c = p.cst(t);
            Opd::C(p.m.c_val(t, &c))
        }
    }
}
fn topd(p: &mut Ps, cx: &mut FnCtx) -> (Ty, Opd) {
    let t = p.ty();
    let o = opd(p, cx, t);
    (t, o)
}
fn label(p: &mut Ps, cx: &mut FnCtx) -> u32 {
    assert!(p.eatw("label"), "label expected {:?}", p.peek());
    match p.next() {
        Tk::L(n) => cx.block(&n),
        x => panic!("{:?}", x),
    }
}

fn inst(m: &mut Module, cx: &mut FnCtx, toks: &[Tk], bl: &mut Block, dbg: u32) {
    let mut p = Ps { m, t: toks, i: 0 };
    let mut dst = u32::MAX;
    if let Tk::L(n) = &toks[0] {
        dst = cx.reg(n);
        p.i = 2;
    }
    let op = match p.next() {
        Tk::W(w) => w,
        x => panic!("inst {:?}", x),
    };
    let push = |bl: &mut Block, k: K| bl.insts.push(Inst { k, dst, dbg });
    match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            while !p.is_type() {
                p.i += 1;
            }
            let t = p.ty();
            let a = opd(&mut p, cx, t);
            p.exp(b',');
            let b = opd(&mut p, cx, t);
            let k = match op {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                _ => Bin::FRem,
            };
            push(bl, K::Bin(k, t, a, b));
        }
        "fneg" => {
            while !p.is_type() {
                p.i += 1;
            }
            let (t, a) = topd(&mut p, cx);
            push(bl, K::FNeg(t, a));
        }
        "icmp" => {
            let _ = p.eatw("samesign");
            let pr = match p.next() {
                Tk::W(w) => match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("{}", x),
                },
                x => panic!("{:?}", x),
            };
            let t = p.ty();
            let a = opd(&mut p, cx, t);
            p.exp(b',');
            let b = opd(&mut p, cx, t);
            push(bl, K::ICmp(pr, t, a, b));
        }
        "fcmp" => {
            let preds = ["oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true", "false"];
            let mut pr = String::new();
            while !p.is_type() {
                if let Tk::W(w) = p.next() {
                    if preds.contains(&w) {
                        pr = w.to_string();
                    }
                }
            }
            let t = p.ty();
            let a = opd(&mut p, cx, t);
            p.exp(b',');
            let b = opd(&mut p, cx, t);
            push(bl, K::FCmp(pr, t, a, b));
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" => {
            while !p.is_type() {
                p.i += 1;
            }
            let (ft, a) = topd(&mut p, cx);
            assert!(p.eatw("to"));
            let tt = p.ty();
            let c = match op {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                "inttoptr" => Cast::IntToPtr,
                "bitcast" | "addrspacecast" => Cast::BitCast,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fptrunc" => Cast::FpTrunc,
                _ => Cast::FpExt,
            };
            push(bl, K::Cast(c, ft, tt, a));
        }
        "select" => {
            while !p.is_type() {
                p.i += 1;
            }
            let (ct, c) = topd(&mut p, cx);
            p.exp(b',');
            let (t, a) = topd(&mut p, cx);
            p.exp(b',');
            let (_, b) = topd(&mut p, cx);
            push(bl, K::Select(ct, t, c, a, b));
        }
        "phi" => {
            while !p.is_type() {
                p.i += 1;
            }
            let t = p.ty();
            let mut v = vec![];
            loop {
                p.exp(b'[');
                let o = opd(&mut p, cx, t);
                p.exp(b',');
                let b = match p.next() {
                    Tk::L(n) => cx.block(&n),
                    x => panic!("{:?}", x),
                };
                p.exp(b']');
                v.push((b, o));
                if !(p.isp(b',') && matches!(p.t.get(p.i + 1), Some(Tk::P(b'[')))) {
                    break;
                }
                p.i += 1;
            }
            bl.phis.push((dst, v));
        }
        "load" => {
            let _ = p.eatw("atomic");
            let _ = p.eatw("volatile");
            let t = p.ty();
            p.exp(b',');
            let (_, a) = topd(&mut p, cx);
            push(bl, K::Load(t, a));
        }
        "store" => {
            let _ = p.eatw("atomic");
            let _ = p.eatw("volatile");
            let (t, v) = topd(&mut p, cx);
            p.exp(b',');
            let (_, a) = topd(&mut p, cx);
            push(bl, K::Store(t, v, a));
        }
        "getelementptr" => {
            while !p.is_type() {
                p.i += 1;
                if p.isp(b'(') {
                    p.skip_bal();
                }
            }
            let bt = p.ty();
            p.exp(b',');
            let (pt, base) = topd(&mut p, cx);
            if matches!(p.m.t(pt), T::Vec(..)) {
                push(bl, K::Unsupported("vector gep".into()));
                return;
            }
            let mut off = 0i64;
            let mut dy = vec![];
            let mut cur = bt;
            let mut first = true;
            while p.isp(b',') && !matches!(p.t.get(p.i + 1), Some(Tk::M(_))) {
                p.i += 1;
                let (it, ix) = topd(&mut p, cx);
                let w = p.m.int_w(it);
                let cix = match &ix {
                    Opd::C(V::C(v)) => Some(crate::expr::sx(w, *v as u128) as i64),
                    _ => None,
                };
                let scale;
                if first {
                    scale = p.m.size(cur) as i64;
                    first = false;
                } else {
                    match p.m.t(cur).clone() {
                        T::Struct(..) => {
                            let (o, n) = p.m.step(cur, cix.unwrap());
                            off += o;
                            cur = n;
                            continue;
                        }
                        T::Arr(_, e) | T::Vec(_, e) => {
                            scale = p.m.size(e) as i64;
                            cur = e;
                        }
                        x => panic!("gep {:?}", x),
                    }
                }
                match cix {
                    Some(c) => off = off.wrapping_add(c.wrapping_mul(scale)),
                    None => dy.push((ix, w, scale)),
                }
            }
            push(bl, K::Gep(base, off, dy));
        }
        "alloca" => {
            let _ = p.eatw("inalloca");
            let t = p.ty();
            let mut n = Opd::C(V::C(1));
            if p.isp(b',') {
                p.i += 1;
                if p.is_type() {
                    n = topd(&mut p, cx).1;
                }
            }
            let s = p.m.size(t);
            push(bl, K::Alloca(s, n));
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" {
                p.i += 1;
            }
            // calling convention, fast-math flags, return attributes
            while !p.is_type() {
                p.i += 1;
                if p.isp(b'(') {
                    p.skip_bal();
                } else if matches!(p.t.get(p.i - 1), Some(Tk::W("align"))) {
                    p.i += 1;
                }
            }
            let rt = p.ty();
            if p.isp(b'(') {
                p.skip_bal(); // function type
            }
            let callee = match p.next() {
                Tk::G(g) => {
                    let s = p.m.sym(&g);
                    Callee::Sym(s)
                }
                Tk::L(n) => Callee::Ptr(Opd::R(cx.reg(&n))),
                Tk::W("asm") => {
                    while !p.isp(b'(') {
                        p.i += 1;
                    }
                    Callee::Asm
                }
                Tk::W("inttoptr") => {
                    p.i -= 1;
                    let pt = p.m.mkty(T::Ptr);
                    let c = p.cst(pt);
                    Callee::Ptr(Opd::C(p.m.c_val(pt, &c)))
                }
                x => panic!("callee {:?}", x),
            };
            p.exp(b'(');
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    let t = p.ty();
                    if matches!(p.m.t(t), T::Other) {
                        let o = opd(&mut p, cx, t);
                        args.push((t, o));
                    } else {
                        p.skip_attr();
                        let o = opd(&mut p, cx, t);
                        args.push((t, o));
                    }
                    if p.eat(b')') {
                        break;
                    }
                    p.exp(b',');
                }
            }
            let mut normal = u32::MAX;
            if op == "invoke" {
                while !p.isw("to") {
                    p.i += 1;
                    if p.isp(b'[') {
                        // operand bundle
                        while !p.isp(b']') {
                            p.i += 1;
                        }
                    }
                }
                p.i += 1;
                normal = label(&mut p, cx);
                assert!(p.eatw("unwind"));
                let _ = label(&mut p, cx);
            }
            push(bl, K::Call(callee, args, rt, normal));
        }
        "br" => {
            if p.isw("label") {
                let b = label(&mut p, cx);
                push(bl, K::Br(b));
            } else {
                let (_, c) = topd(&mut p, cx);
                p.exp(b',');
                let t = label(&mut p, cx);
                p.exp(b',');
                let f = label(&mut p, cx);
                push(bl, K::CondBr(c, t, f));
            }
        }
        "switch" => {
            let (t, v) = topd(&mut p, cx);
            p.exp(b',');
            let d = label(&mut p, cx);
            p.exp(b'[');
            let mut cases = vec![];
            while !p.eat(b']') {
                let (_, c) = topd(&mut p, cx);
                let kv = match c {
                    Opd::C(v) => v.u128().unwrap(),
                    _ => panic!(),
                };
                p.exp(b',');
                let b = label(&mut p, cx);
                cases.push((kv, b));
            }
            let w = p.m.int_w(t);
            push(bl, K::Switch(w, v, d, cases));
        }
        "ret" => {
            let t = p.ty();
            if matches!(p.m.t(t), T::Void) {
                push(bl, K::Ret(None));
            } else {
                let o = opd(&mut p, cx, t);
                push(bl, K::Ret(Some((t, o))));
            }
        }
        "unreachable" => push(bl, K::Unreachable),
        "extractvalue" => {
            let (_, a) = topd(&mut p, cx);
            let mut ix = vec![];
            while p.isp(b',') && matches!(p.t.get(p.i + 1), Some(Tk::N(_))) {
                p.i += 1;
                ix.push(p.num_u64() as u32);
            }
            push(bl, K::ExtractValue(a, ix));
        }
        "insertvalue" => {
            let (_, a) = topd(&mut p, cx);
            p.exp(b',');
            let (_, v) = topd(&mut p, cx);
            let mut ix = vec![];
            while p.isp(b',') && matches!(p.t.get(p.i + 1), Some(Tk::N(_))) {
                p.i += 1;
                ix.push(p.num_u64() as u32);
            }
            push(bl, K::InsertValue(a, v, ix));
        }
        "extractelement" => {
            let (_, a) = topd(&mut p, cx);
            p.exp(b',');
            let (_, i) = topd(&mut p, cx);
            push(bl, K::ExtractElement(a, i));
        }
        "insertelement" => {
            let (_, a) = topd(&mut p, cx);
            p.exp(b',');
            let (_, v) = topd(&mut p, cx);
            p.exp(b',');
            let (_, i) = topd(&mut p, cx);
            push(bl, K::InsertElement(a, v, i));
        }
        "shufflevector" => {
            let (t, a) = topd(&mut p, cx);
            p.exp(b',');
            let (_, b) = topd(&mut p, cx);
            p.exp(b',');
            let (_, mk) = topd(&mut p, cx);
            let mask = match mk {
                Opd::C(V::A(v)) => v.iter().map(|x| x.u128().unwrap() as u32 as i32).collect(),
                x => panic!("shuffle mask {:?}", x),
            };
            push(bl, K::Shuffle(t, a, b, mask));
        }
        "freeze" => {
            let (_, a) = topd(&mut p, cx);
            push(bl, K::Copy(a));
        }
        "fence" => push(bl, K::Nop),
        "atomicrmw" => {
            let _ = p.eatw("volatile");
            let o = match p.next() {
                Tk::W(w) => w.to_string(),
                x => panic!("{:?}", x),
            };
            let (_, a) = topd(&mut p, cx);
            p.exp(b',');
            let (t, v) = topd(&mut p, cx);
            push(bl, K::Rmw(o, t, a, v));
        }
        "cmpxchg" => {
            let _ = p.eatw("weak");
            let _ = p.eatw("volatile");
            let (_, a) = topd(&mut p, cx);
            p.exp(b',');
            let (t, c) = topd(&mut p, cx);
            p.exp(b',');
            let (_, n) = topd(&mut p, cx);
            push(bl, K::CmpXchg(t, a, c, n));
        }
        "landingpad" | "resume" | "va_arg" | "indirectbr" | "catchpad" => push(bl, K::Unsupported(op.to_string())),
        x => panic!("unknown instruction {} in {:?}", x, toks),
    }
}
