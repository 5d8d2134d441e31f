//! Hash-consed bit-vector expressions with a simplifying constructor layer.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Dummy,
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract, // k = lo
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    // floating point; operands are bit patterns; k = rounding variant where relevant
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FOlt,
    FOle,
    FOeq,
    FUno,    // isnan(a) (unary)
    FAbs,
    FRound,  // k: 0 floor 1 ceil 2 trunc 3 rne 4 rna
    FToUSat, // width w from float width of a, saturating, nan->0
    FToSSat,
    UToF,
    SToF,
    FToF,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(w: u32, v: u128) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub struct Ex {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, BuildH>,
    pub var_names: Vec<(String, u32)>,
    pub var_map: HashMap<(String, u32), E>,
    varsets: Vec<Option<Rc<Vec<u32>>>>,
    ranges: Vec<Option<(u128, u128)>>,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type BuildH = std::hash::BuildHasherDefault<FxH>;

fn f_of(w: u32, v: u128) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}

pub fn fold_f2(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        canon32(r)
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        canon64(r)
    }
}
fn canon32(r: f32) -> u128 {
    if r.is_nan() { 0x7fc00000 } else { r.to_bits() as u128 }
}
fn canon64(r: f64) -> u128 {
    if r.is_nan() { 0x7ff8000000000000 } else { r.to_bits() as u128 }
}

/// Evaluate one node over constant operands.
pub fn fold(n: &Node, wa: u32, a: u128, b: u128, c: u128) -> u128 {
    let w = n.w;
    let m = mask(w);
    match n.op {
        Op::Dummy | Op::Const | Op::Var => n.k,
        Op::Not => !a & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(w, a), sx(w, b));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sx(w, a), sx(w, b));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sx(w, a);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s) as u128) & m
        }
        Op::Concat => {
            // a is high, b is low; wb = w - wa
            (a << (w - wa)) | b
        }
        Op::Extract => (a >> n.k) & m,
        Op::ZExt => a,
        Op::SExt => (sx(wa, a) as u128) & m,
        Op::Ite => if a != 0 { b } else { c },
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(wa, a) < sx(wa, b)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => fold_f2(n.op, w, a, b),
        Op::FOlt => (f_of(wa, a) < f_of(wa, b)) as u128,
        Op::FOle => (f_of(wa, a) <= f_of(wa, b)) as u128,
        Op::FOeq => (f_of(wa, a) == f_of(wa, b)) as u128,
        Op::FUno => f_of(wa, a).is_nan() as u128,
        Op::FAbs => a & (m >> 1),
        Op::FRound => {
            if w == 32 {
                let x = f32::from_bits(a as u32);
                canon32(match n.k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round_ties_even(), _ => x.round() })
            } else {
                let x = f64::from_bits(a as u64);
                canon64(match n.k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round_ties_even(), _ => x.round() })
            }
        }
        Op::FToUSat => {
            let x = f_of(wa, a);
            let v = x as u128;
            v.min(m)
        }
        Op::FToSSat => {
            let x = f_of(wa, a);
            let v = x as i128;
            let max = (m >> 1) as i128;
            let v = v.max(-max - 1).min(max);
            (v as u128) & m
        }
        Op::UToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::SToF => {
            let x = sx(wa, a);
            if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 }
        }
        Op::FToF => if w == 32 { canon32(f64::from_bits(a as u64) as f32) } else { canon64(f32::from_bits(a as u32) as f64) },
    }
}

impl Ex {
    pub fn new() -> Self {
        let mut e = Ex {
            nodes: vec![],
            map: HashMap::default(),
            var_names: vec![],
            var_map: HashMap::new(),
            varsets: vec![],
            ranges: vec![],
        };
        e.nodes.push(Node { op: Op::Dummy, w: 0, a: 0, b: 0, c: 0, k: 0 });
        e
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn k(&mut self, w: u32, v: u128) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn var(&mut self, name: &str, occ: u32, w: u32) -> E {
        if let Some(&e) = self.var_map.get(&(name.to_string(), occ)) {
            assert_eq!(self.w(e), w, "symbolic input {} used at two widths", name);
            return e;
        }
        let id = self.var_names.len() as u128;
        let full = if occ == 0 { name.to_string() } else { format!("{}#{}", name, occ) };
        self.var_names.push((full, w));
        let e = self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id });
        self.var_map.insert((name.to_string(), occ), e);
        e
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let n = Node { op, w, a, b, c, k };
        // constant folding
        let arity = match op {
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FUno | Op::FAbs | Op::FRound | Op::FToUSat | Op::FToSSat | Op::UToF | Op::SToF | Op::FToF => 1,
            Op::Ite => 3,
            _ => 2,
        };
        let ca = self.is_const(a);
        if let Some(ka) = ca {
            if arity == 1 {
                let v = fold(&n, self.w(a), ka, 0, 0);
                return self.k(w, v);
            }
            if arity == 2 {
                if let Some(kb) = self.is_const(b) {
                    let v = fold(&n, self.w(a), ka, kb, 0);
                    return self.k(w, v);
                }
            }
        }
        self.intern(n)
    }
    pub fn t(&mut self) -> E {
        self.k(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.k(1, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        if n.op == Op::Not {
            return n.a;
        }
        self.raw(Op::Not, n.w, a, 0, 0, 0)
    }
    fn order(&self, a: E, b: E) -> (E, E) {
        let ca = self.nodes[a as usize].op == Op::Const;
        let cb = self.nodes[b as usize].op == Op::Const;
        if ca && !cb {
            (b, a)
        } else if cb && !ca {
            (a, b)
        } else if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return b;
            }
            if k == mask(w) {
                return a;
            }
            if self.is_const(a).is_none() {
                // contiguous mask of ones -> extract
                let tz = k.trailing_zeros();
                let kk = k >> tz;
                if kk & (kk + 1) == 0 {
                    let len = kk.count_ones();
                    let x = self.extract(a, tz, len);
                    let x = self.zext(x, w - tz);
                    if tz == 0 {
                        return x;
                    }
                    let z = self.k(tz, 0);
                    return self.concat(x, z);
                }
            }
        }
        if w == 1 {
            let na = self.n(a);
            let nb = self.n(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.f();
            }
        }
        self.raw(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return b;
            }
        }
        if w == 1 {
            let na = self.n(a);
            let nb = self.n(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.t();
            }
        }
        // or of disjoint (zext x) | (y ++ 0)  -> concat
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(r) = self.or_concat(na, nb, w) {
            return r;
        }
        if let Some(r) = self.or_concat(nb, na, w) {
            return r;
        }
        self.raw(Op::Or, w, a, b, 0, 0)
    }
    fn or_concat(&mut self, lo: Node, hi: Node, w: u32) -> Option<E> {
        // lo = ZExt(x: wl), hi = Concat(y, 0_{k}) with k >= wl
        if lo.op != Op::ZExt {
            return None;
        }
        let wl = self.w(lo.a);
        // find trailing zero count of hi
        if hi.op == Op::Concat && self.is_const(hi.b) == Some(0) {
            let k = self.w(hi.b);
            if k >= wl {
                let low = self.zext(lo.a, k);
                let r = self.concat(hi.a, low);
                debug_assert_eq!(self.w(r), w);
                return Some(r);
            }
        }
        if hi.op == Op::ZExt {
            let inner = self.n(hi.a);
            if inner.op == Op::Concat && self.is_const(inner.b) == Some(0) {
                let k = self.w(inner.b);
                if k >= wl {
                    let low = self.zext(lo.a, k);
                    let r = self.concat(inner.a, low);
                    return Some(self.zext(r, w));
                }
            }
        }
        None
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if a == b {
            return self.k(w, 0);
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return self.not(a);
            }
        }
        if w == 1 {
            let na = self.n(a);
            if na.op == Op::Not {
                let x = self.xor(na.a, b);
                return self.not(x);
            }
            let nb = self.n(b);
            if nb.op == Op::Not {
                let x = self.xor(a, nb.a);
                return self.not(x);
            }
            let e = self.eq(a, b);
            return self.not(e);
        }
        self.raw(Op::Xor, w, a, b, 0, 0)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            let na = self.n(a);
            if na.op == Op::Add {
                if let Some(k2) = self.is_const(na.b) {
                    let s = self.k(w, k.wrapping_add(k2));
                    return self.add(na.a, s);
                }
            }
            if na.op == Op::Sub {
                if let Some(k2) = self.is_const(na.a) {
                    let s = self.k(w, k.wrapping_add(k2));
                    return self.sub(s, na.b);
                }
            }
            if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                let x = self.add(na.b, b);
                let y = self.add(na.c, b);
                return self.ite(na.a, x, y);
            }
            return self.raw(Op::Add, w, a, b, 0, 0);
        }
        let (na, nb) = (self.n(a), self.n(b));
        // (x + c) + y -> (x + y) + c
        if na.op == Op::Add && self.is_const(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.is_const(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // (x - y) + y
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        self.raw(Op::Add, w, a, b, 0, 0)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let z = self.k(w, 0);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.k(w, 0);
        }
        if let Some(k) = self.is_const(b) {
            let nk = self.k(w, 0u128.wrapping_sub(k));
            return self.add(a, nk);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add && self.is_const(na.b).is_some() {
            let s = self.sub(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add {
            if let Some(k) = self.is_const(nb.b) {
                let s = self.sub(a, nb.a);
                let nk = self.k(w, 0u128.wrapping_sub(k));
                return self.add(s, nk);
            }
            // a - (a + y) -> -y ; a - (y + a)
            if nb.a == a {
                let z = self.k(w, 0);
                return self.raw(Op::Sub, w, z, nb.b, 0, 0);
            }
            if nb.b == a {
                let z = self.k(w, 0);
                return self.raw(Op::Sub, w, z, nb.a, 0, 0);
            }
        }
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        self.raw(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            let na = self.n(a);
            if k.is_power_of_two() && self.is_const(a).is_none() {
                let s = self.k(w, k.trailing_zeros() as u128);
                return self.shl(a, s);
            }
            if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                let x = self.mul(na.b, b);
                let y = self.mul(na.c, b);
                return self.ite(na.a, x, y);
            }
            if na.op == Op::Sub && self.is_const(na.a) == Some(0) {
                let x = self.mul(na.b, b);
                return self.neg(x);
            }
        }
        // compute in the width the operands need
        if w > 8 {
            let (ha, hb) = (self.range(a).1, self.range(b).1);
            if let Some(h) = ha.checked_mul(hb) {
                let nb = bits(h).max(1);
                if nb < w && self.is_const(a).is_none() {
                    let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
                    let m = self.raw(Op::Mul, nb, x, y, 0, 0);
                    return self.zext(m, w);
                }
            }
        }
        self.raw(Op::Mul, w, a, b, 0, 0)
    }
    /// x if `a` is x * k with no wrap-around.
    fn unmul(&mut self, a: E, k: u128) -> Option<E> {
        let w = self.w(a);
        let n = self.n(a);
        match n.op {
            Op::Mul if self.is_const(n.b) == Some(k) => {
                let h = self.range(n.a).1;
                match h.checked_mul(k) {
                    Some(p) if p <= mask(w) => Some(n.a),
                    _ => None,
                }
            }
            Op::ZExt => {
                let x = self.unmul(n.a, k)?;
                Some(self.zext(x, w))
            }
            _ => None,
        }
    }
    /// (x, c) if `a` is x * k + c with c < k and no wrap-around.
    fn unmul_add(&mut self, a: E, k: u128) -> Option<(E, u128)> {
        if let Some(x) = self.unmul(a, k) {
            return Some((x, 0));
        }
        let w = self.w(a);
        let n = self.n(a);
        match n.op {
            Op::Add => {
                let c = self.is_const(n.b)?;
                let h = self.range(n.a).1;
                if c >= k || h.checked_add(c)? > mask(w) {
                    return None;
                }
                let x = self.unmul(n.a, k)?;
                Some((x, c))
            }
            Op::ZExt => {
                let (x, c) = self.unmul_add(n.a, k)?;
                Some((self.zext(x, w), c))
            }
            _ => None,
        }
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() && self.is_const(a).is_none() {
                let s = self.k(w, k.trailing_zeros() as u128);
                return self.lshr(a, s);
            }
            let na = self.n(a);
            if na.op == Op::ZExt && k != 0 {
                let wi = self.w(na.a);
                if k > mask(wi) {
                    return self.k(w, 0);
                }
                let kk = self.k(wi, k);
                let d = self.udiv(na.a, kk);
                return self.zext(d, w);
            }
        }
        if let Some(k) = self.is_const(b) {
            if k != 0 {
                if let Some((x, c)) = self.unmul_add(a, k) {
                    let _ = (x, c);
                    return x;
                }
            }
        }
        if self.is_const(a).is_none() && w > 4 {
            let (ha, (lb, hb)) = (self.range(a).1, self.range(b));
            let nb = bits(ha).max(bits(hb)).max(1);
            if nb < w && lb > 0 {
                let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
                let d = self.raw(Op::UDiv, nb, x, y, 0, 0);
                return self.zext(d, w);
            }
        }
        self.raw(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 1 {
                return self.k(w, 0);
            }
            if k.is_power_of_two() && self.is_const(a).is_none() {
                let m = self.k(w, k - 1);
                return self.and(a, m);
            }
            let na = self.n(a);
            if na.op == Op::ZExt && k != 0 {
                let wi = self.w(na.a);
                if k > mask(wi) {
                    return a;
                }
                let kk = self.k(wi, k);
                let d = self.urem(na.a, kk);
                return self.zext(d, w);
            }
        }
        if let Some(k) = self.is_const(b) {
            if k != 0 {
                if let Some((x, c)) = self.unmul_add(a, k) {
                    let _ = (x, c);
                    return self.k(w, c);
                }
            }
        }
        if self.is_const(a).is_none() && w > 4 {
            let (ha, (lb, hb)) = (self.range(a).1, self.range(b));
            let nb = bits(ha).max(bits(hb)).max(1);
            if nb < w && lb > 0 {
                let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
                let d = self.raw(Op::URem, nb, x, y, 0, 0);
                return self.zext(d, w);
            }
        }
        self.raw(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.is_const(b) == Some(1) {
            return a;
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.udiv(a, b);
        }
        // (K - x) / b with x >= K: -((x - K) / b)
        let na = self.n(a);
        if na.op == Op::Sub && self.is_const(na.a).is_some() && self.nonneg(b) {
            let t = self.sub(na.b, na.a);
            if self.nonneg(t) {
                let q = self.udiv(t, b);
                return self.neg(q);
            }
        }
        self.raw(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.nonneg(a) && self.nonneg(b) {
            return self.urem(a, b);
        }
        let na = self.n(a);
        if na.op == Op::Sub && self.is_const(na.a).is_some() && self.nonneg(b) {
            let t = self.sub(na.b, na.a);
            if self.nonneg(t) {
                let q = self.urem(t, b);
                return self.neg(q);
            }
        }
        self.raw(Op::SRem, w, a, b, 0, 0)
    }
    fn nonneg(&mut self, a: E) -> bool {
        let w = self.w(a);
        let (_, hi) = self.range(a);
        hi <= mask(w) >> 1
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.k(w, 0);
            }
            let k = k as u32;
            let x = self.extract(a, 0, w - k);
            let z = self.k(k, 0);
            return self.concat(x, z);
        }
        self.raw(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.k(w, 0);
            }
            let k = k as u32;
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        self.raw(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            let k = if k >= w as u128 { w - 1 } else { k as u32 };
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.raw(Op::AShr, w, a, b, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, len: u32) -> E {
        let n = self.n(a);
        if lo == 0 && len == n.w {
            return a;
        }
        debug_assert!(lo + len <= n.w, "extract {} {} of {}", lo, len, n.w);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, len),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.k(len, 0);
                }
                if lo + len <= wi {
                    return self.extract(n.a, lo, len);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, len);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + len <= wi {
                    return self.extract(n.a, lo, len);
                }
                if lo == 0 {
                    return self.sext(n.a, len);
                }
                if lo < wi {
                    let x = self.extract(n.a, lo, wi - lo);
                    return self.sext(x, len);
                }
                let x = self.extract(n.a, wi - 1, 1);
                return self.sext(x, len);
            }
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + len <= wb {
                    return self.extract(n.b, lo, len);
                }
                if lo >= wb {
                    return self.extract(n.a, lo - wb, len);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, len - (wb - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, len);
                let y = self.extract(n.b, lo, len);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Not => {
                let x = self.extract(n.a, lo, len);
                return self.not(x);
            }
            Op::Ite => {
                let cb = self.n(n.b).op;
                let cc = self.n(n.c).op;
                let easy = |o: Op| matches!(o, Op::Const | Op::ZExt | Op::Concat | Op::SExt | Op::Extract | Op::Ite);
                if easy(cb) && easy(cc) {
                    let x = self.extract(n.b, lo, len);
                    let y = self.extract(n.c, lo, len);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // low bits of modular arithmetic depend only on low bits
                let easy = |o: Op| matches!(o, Op::Const | Op::ZExt | Op::SExt | Op::Concat);
                let (oa, ob) = (self.n(n.a).op, self.n(n.b).op);
                if easy(oa) || easy(ob) {
                    let x = self.extract(n.a, 0, len);
                    let y = self.extract(n.b, 0, len);
                    return match n.op {
                        Op::Add => self.add(x, y),
                        Op::Sub => self.sub(x, y),
                        _ => self.mul(x, y),
                    };
                }
            }
            _ => {}
        }
        let (_, hi) = self.range(a);
        if lo < 128 && hi >> lo == 0 {
            return self.k(len, 0);
        }
        self.raw(Op::Extract, len, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if self.is_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // hi = concat(x, y), (y, lo) mergeable
        if nh.op == Op::Concat {
            let ny = self.n(nh.b);
            if (ny.op == Op::Extract && nl.op == Op::Extract && ny.a == nl.a && ny.k == nl.k + nl.w as u128)
                || (ny.op == Op::Const && nl.op == Op::Const)
            {
                let m = self.concat(nh.b, lo);
                return self.concat(nh.a, m);
            }
        }
        if nh.op == Op::ZExt {
            let c = self.concat(nh.a, lo);
            return self.zext(c, w);
        }
        // hi = extract of top part of the same value whose low part is `lo` itself, e.g. concat(extract(x,8,8), extract(x,0,8))
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(w > n.w);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.raw(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.w > 1 && self.nonneg(a) {
            return self.zext(a, w);
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            let ka = self.is_const(a);
            let kb = self.is_const(b);
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        // Ite(c, Ite(c, x, _), b)
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let (a, b) = self.order(a, b);
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w;
        debug_assert_eq!(w, nb.w);
        if let Some(k) = self.is_const(b) {
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::Const => return self.k(1, (na.k == k) as u128),
                Op::ZExt => {
                    let wi = self.w(na.a);
                    if k > mask(wi) {
                        return self.f();
                    }
                    let kk = self.k(wi, k);
                    return self.eq(na.a, kk);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let low = k & mask(wi);
                    if (sx(wi, low) as u128) & mask(w) != k {
                        return self.f();
                    }
                    let kk = self.k(wi, low);
                    return self.eq(na.a, kk);
                }
                Op::Concat => {
                    let wb = self.w(na.b);
                    let kl = self.k(wb, k);
                    let kh = self.k(w - wb, k >> wb);
                    let x = self.eq(na.a, kh);
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::Add => {
                    if let Some(k2) = self.is_const(na.b) {
                        let kk = self.k(w, k.wrapping_sub(k2));
                        return self.eq(na.a, kk);
                    }
                }
                Op::Sub => {
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(k2) = self.is_const(na.a) {
                        let kk = self.k(w, k2.wrapping_sub(k));
                        return self.eq(na.b, kk);
                    }
                }
                Op::Xor => {
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(k2) = self.is_const(na.b) {
                        let kk = self.k(w, k ^ k2);
                        return self.eq(na.a, kk);
                    }
                }
                Op::Not => {
                    let kk = self.k(w, !k);
                    return self.eq(na.a, kk);
                }
                Op::Or if k == 0 => {
                    let z = self.k(w, 0);
                    let x = self.eq(na.a, z);
                    let y = self.eq(na.b, z);
                    return self.and(x, y);
                }
                Op::Ite => {
                    let (kb, kc) = (self.is_const(na.b), self.is_const(na.c));
                    if let Some(kb) = kb {
                        let y = self.eq(na.c, b);
                        return if kb == k {
                            self.or(na.a, y)
                        } else {
                            let nc = self.not(na.a);
                            self.and(nc, y)
                        };
                    }
                    if let Some(kc) = kc {
                        let x = self.eq(na.b, b);
                        return if kc == k {
                            let nc = self.not(na.a);
                            self.or(nc, x)
                        } else {
                            self.and(na.a, x)
                        };
                    }
                }
                _ => {}
            }
            let (lo, hi) = self.range(a);
            if k < lo || k > hi {
                return self.f();
            }
        } else {
            if (na.op == Op::ZExt && nb.op == Op::ZExt) || (na.op == Op::SExt && nb.op == Op::SExt) {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                if wa == wb {
                    return self.eq(na.a, nb.a);
                }
                if na.op == Op::ZExt {
                    let (x, y) = if wa < wb { (self.zext(na.a, wb), nb.a) } else { (na.a, self.zext(nb.a, wa)) };
                    return self.eq(x, y);
                }
            }
            // x + c1 == y + c2 ; x + c == x
            if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                return self.eq(na.b, nb.b);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Add && (na.a == b) {
                let z = self.k(w, 0);
                return self.eq(na.b, z);
            }
            if nb.op == Op::Add && (nb.a == a) {
                let z = self.k(w, 0);
                return self.eq(nb.b, z);
            }
            if w == 1 && na.op == Op::Not && nb.op == Op::Not {
                return self.eq(na.a, nb.a);
            }
            let (la, ha) = self.range(a);
            let (lb, hb) = self.range(b);
            if ha < lb || hb < la {
                return self.f();
            }
        }
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let (la, ha) = self.range(a);
        let (lb, hb) = self.range(b);
        if ha < lb {
            return self.t();
        }
        if la >= hb {
            return self.f();
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w;
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            let m = wa.max(wb);
            let x = self.zext(na.a, m);
            let y = self.zext(nb.a, m);
            return self.ult(x, y);
        }
        if na.op == Op::ZExt {
            if let Some(k) = self.is_const(b) {
                let wi = self.w(na.a);
                if k > mask(wi) {
                    return self.t();
                }
                let kk = self.k(wi, k);
                return self.ult(na.a, kk);
            }
        }
        if nb.op == Op::ZExt {
            if let Some(k) = self.is_const(a) {
                let wi = self.w(nb.a);
                if k > mask(wi) {
                    return self.f();
                }
                let kk = self.k(wi, k);
                return self.ult(kk, nb.a);
            }
        }
        if let Some(k) = self.is_const(b) {
            if k == 1 {
                let z = self.k(w, 0);
                return self.eq(a, z);
            }
            if k == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
        }
        if let Some(k) = self.is_const(a) {
            if k == 0 {
                let e = self.eq(a, b);
                return self.not(e);
            }
            if k == mask(w) - 1 {
                let m = self.k(w, mask(w));
                return self.eq(b, m);
            }
        }
        if let Some(r) = self.ite_cmp(Op::Ult, a, b) {
            return r;
        }
        // one form for comparisons with constants, so that both directions meet
        if let Some(k) = self.is_const(a) {
            let k1 = self.k(w, k + 1);
            let c = self.ult(b, k1);
            return self.not(c);
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    fn ite_cmp(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && nb.op == Op::Const && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
            let (x, y) = if op == Op::Ult { (self.ult(na.b, b), self.ult(na.c, b)) } else { (self.slt(na.b, b), self.slt(na.c, b)) };
            return Some(self.ite(na.a, x, y));
        }
        if nb.op == Op::Ite && na.op == Op::Const && self.is_const(nb.b).is_some() && self.is_const(nb.c).is_some() {
            let (x, y) = if op == Op::Ult { (self.ult(a, nb.b), self.ult(a, nb.c)) } else { (self.slt(a, nb.b), self.slt(a, nb.c)) };
            return Some(self.ite(nb.a, x, y));
        }
        None
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        let (pa, pb) = (self.nonneg(a), self.nonneg(b));
        if pa && pb {
            return self.ult(a, b);
        }
        let (la, _) = self.range(a);
        let (lb, _) = self.range(b);
        let half = 1u128 << (w - 1);
        if la >= half && pb {
            return self.t();
        }
        if pa && lb >= half {
            return self.f();
        }
        if la >= half && lb >= half {
            return self.ult(a, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if na.op == Op::SExt {
            if let Some(k) = self.is_const(b) {
                let wi = self.w(na.a);
                let kk = sx(w, k);
                let max = (mask(wi) >> 1) as i128;
                if kk > max {
                    return self.t();
                }
                if kk < -max {
                    // kk <= min
                    return self.f();
                }
                let c = self.k(wi, kk as u128);
                return self.slt(na.a, c);
            }
        }
        if nb.op == Op::SExt {
            if let Some(k) = self.is_const(a) {
                let wi = self.w(nb.a);
                let kk = sx(w, k);
                let max = (mask(wi) >> 1) as i128;
                if kk >= max {
                    return self.f();
                }
                if kk < -max - 1 {
                    return self.t();
                }
                let c = self.k(wi, kk as u128);
                return self.slt(c, nb.a);
            }
        }
        if let Some(r) = self.ite_cmp(Op::Slt, a, b) {
            return r;
        }
        if let Some(k) = self.is_const(a) {
            if k != mask(w) >> 1 {
                let k1 = self.k(w, k.wrapping_add(1) & mask(w));
                let c = self.slt(b, k1);
                return self.not(c);
            }
        }
        if self.is_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn f2(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::FMul | Op::FAdd) {
            // commutative (NaN results are canonical)
            let (o, p) = self.order(a, b);
            a = o;
            b = p;
        }
        if op == Op::FMul {
            let one = if w == 32 { 0x3f80_0000 } else { 0x3ff0_0000_0000_0000 };
            let canonical = matches!(self.n(a).op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::UToF | Op::SToF | Op::FToF | Op::FRound);
            if self.is_const(b) == Some(one) && canonical {
                return a;
            }
        }
        self.raw(op, w, a, b, 0, 0)
    }
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E {
        self.raw(op, 1, a, b, 0, 0)
    }
    pub fn funo(&mut self, a: E) -> E {
        self.raw(Op::FUno, 1, a, 0, 0, 0)
    }
    pub fn f1(&mut self, op: Op, w: u32, a: E, k: u128) -> E {
        self.raw(op, w, a, 0, 0, k)
    }

    /// `e` with the mapped subterms replaced, simplified again on the way up.
    pub fn rebuild(&mut self, e: E, map: &mut HashMap<E, E, BuildH>) -> E {
        if let Some(r) = map.get(&e) {
            return *r;
        }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const | Op::Var | Op::Dummy => e,
            _ => {
                let a = self.rebuild(n.a, map);
                let b = if n.b != 0 { self.rebuild(n.b, map) } else { 0 };
                let c = if n.c != 0 { self.rebuild(n.c, map) } else { 0 };
                if a == n.a && b == n.b && c == n.c {
                    e
                } else {
                    match n.op {
                        Op::Not => self.not(a),
                        Op::And => self.and(a, b),
                        Op::Or => self.or(a, b),
                        Op::Xor => self.xor(a, b),
                        Op::Add => self.add(a, b),
                        Op::Sub => self.sub(a, b),
                        Op::Mul => self.mul(a, b),
                        Op::UDiv => self.udiv(a, b),
                        Op::URem => self.urem(a, b),
                        Op::SDiv => self.sdiv(a, b),
                        Op::SRem => self.srem(a, b),
                        Op::Shl => self.shl(a, b),
                        Op::LShr => self.lshr(a, b),
                        Op::AShr => self.ashr(a, b),
                        Op::Concat => self.concat(a, b),
                        Op::Extract => self.extract(a, n.k as u32, n.w),
                        Op::ZExt => self.zext(a, n.w),
                        Op::SExt => self.sext(a, n.w),
                        Op::Ite => self.ite(a, b, c),
                        Op::Eq => self.eq(a, b),
                        Op::Ult => self.ult(a, b),
                        Op::Slt => self.slt(a, b),
                        _ => self.raw(n.op, n.w, a, b, c, n.k),
                    }
                }
            }
        };
        map.insert(e, r);
        r
    }
    /// The if-then-else nodes inside `e`.
    pub fn ites(&self, e: E, seen: &mut std::collections::HashSet<E, BuildH>, out: &mut Vec<E>) {
        if e == 0 || !seen.insert(e) {
            return;
        }
        let n = self.nodes[e as usize];
        if matches!(n.op, Op::Const | Op::Var | Op::Dummy) {
            return;
        }
        if n.op == Op::Ite {
            out.push(e);
        }
        for x in [n.a, n.b, n.c] {
            self.ites(x, seen, out);
        }
    }

    /// Unsigned interval containing every value of `e` (structural).
    pub fn range(&mut self, e: E) -> (u128, u128) {
        let i = e as usize;
        if self.ranges.len() < self.nodes.len() {
            self.ranges.resize(self.nodes.len() + 64, None);
        }
        if let Some(r) = self.ranges[i] {
            return r;
        }
        let n = self.nodes[i];
        let full = (0, mask(n.w));
        let r = match n.op {
            Op::Const => (n.k, n.k),
            Op::ZExt => self.range(n.a),
            Op::And => {
                let (_, ha) = self.range(n.a);
                let (_, hb) = self.range(n.b);
                (0, ha.min(hb))
            }
            Op::Or => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                let bits = 128 - (ha | hb).leading_zeros();
                (la.max(lb), mask(bits))
            }
            Op::Ite => {
                let (la, ha) = self.range(n.b);
                let (lb, hb) = self.range(n.c);
                (la.min(lb), ha.max(hb))
            }
            Op::Add => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                match ha.checked_add(hb) {
                    Some(h) if h <= mask(n.w) => (la + lb, h),
                    _ => {
                        // x + (-k) with x >= k does not wrap below zero
                        if let Some(k) = self.is_const(n.b) {
                            let negk = 0u128.wrapping_sub(k) & mask(n.w);
                            if la >= negk { (la - negk, ha - negk) } else { full }
                        } else {
                            full
                        }
                    }
                }
            }
            Op::Sub => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                if la >= hb { (la - hb, ha - lb) } else { full }
            }
            Op::Mul => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                match ha.checked_mul(hb) {
                    Some(h) if h <= mask(n.w) => (la * lb, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                if lb > 0 { (la / hb, ha / lb) } else { full }
            }
            Op::URem => {
                let (_, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                if lb > 0 { (0, ha.min(hb - 1)) } else { full }
            }
            Op::LShr => {
                let (_, ha) = self.range(n.a);
                (0, ha)
            }
            Op::Concat => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                let wb = self.w(n.b);
                ((la << wb) | lb, (ha << wb) | hb)
            }
            Op::Extract => {
                let (la, ha) = self.range(n.a);
                let k = n.k as u32;
                if ha >> k <= mask(n.w) { (la >> k, ha >> k) } else { full }
            }
            _ => full,
        };
        self.ranges[i] = Some(r);
        r
    }

    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        let i = e as usize;
        if self.varsets.len() < self.nodes.len() {
            self.varsets.resize(self.nodes.len() + 64, None);
        }
        if let Some(s) = &self.varsets[i] {
            return s.clone();
        }
        let n = self.nodes[i];
        let r: Rc<Vec<u32>> = match n.op {
            Op::Const | Op::Dummy => Rc::new(vec![]),
            Op::Var => Rc::new(vec![n.k as u32]),
            _ => {
                let mut acc = self.vars(n.a);
                for x in [n.b, n.c] {
                    if x != 0 {
                        let s = self.vars(x);
                        acc = union(acc, s);
                    }
                }
                acc
            }
        };
        self.varsets[i] = Some(r.clone());
        r
    }
    pub fn eval(&self, e: E, model: &HashMap<u32, u128, BuildH>, cache: &mut HashMap<E, u128, BuildH>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(&(n.k as u32)).copied().unwrap_or(0),
            _ => {}
        }
        if let Some(v) = cache.get(&e) {
            return *v;
        }
        let r = if n.op == Op::Ite {
            let c = self.eval(n.a, model, cache);
            if c != 0 { self.eval(n.b, model, cache) } else { self.eval(n.c, model, cache) }
        } else {
            let a = self.eval(n.a, model, cache);
            let b = if n.b != 0 { self.eval(n.b, model, cache) } else { 0 };
            fold(n, self.w(n.a), a, b, 0)
        };
        cache.insert(e, r);
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => self.var_names[n.k as usize].0.clone(),
            _ if depth == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}{}", n.op, n.w);
                if n.op == Op::Extract {
                    s += &format!("@{}", n.k);
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

fn union(a: Rc<Vec<u32>>, b: Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() || Rc::ptr_eq(&a, &b) {
        return b;
    }
    if b.is_empty() {
        return a;
    }
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            out.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            out.push(b[j]);
            j += 1;
        } else {
            out.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    if out.len() == a.len() {
        return a;
    }
    if out.len() == b.len() {
        return b;
    }
    Rc::new(out)
}

fn bits(x: u128) -> u32 {
    128 - x.leading_zeros()
}
