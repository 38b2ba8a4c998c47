//! Hash-consed bit-vector terms with simplification at construction.
use std::collections::HashMap;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct T(pub u32);

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u32, u128),
    Var(u32, u32), // width, var id
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Add(T, T),
    Sub(T, T),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    Ext(u32, u32, T), // lo, width
    Concat(T, T),     // hi, lo
    ZExt(u32, T),
    SExt(u32, T),
}
use Node::*;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u32,
    pub name: String,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    pub widths: Vec<u32>,
    map: HashMap<Node, T>,
    pub vars: Vec<VarInfo>,
    varmap: HashMap<String, T>,
    memo: Vec<(u32, u128)>,
}

pub struct Model {
    pub id: u32,
    pub vals: Vec<u128>,
}

impl Terms {
    pub fn new() -> Self {
        Terms { nodes: vec![], widths: vec![], map: HashMap::new(), vars: vec![], varmap: HashMap::new(), memo: vec![] }
    }
    fn raw(&mut self, n: Node, w: u32) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let t = T(self.nodes.len() as u32);
        self.nodes.push(n);
        self.widths.push(w);
        self.map.insert(n, t);
        t
    }
    #[inline]
    pub fn n(&self, t: T) -> Node {
        self.nodes[t.0 as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.widths[t.0 as usize]
    }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u128> {
        match self.n(t) {
            Const(_, v) => Some(v),
            _ => None,
        }
    }
    pub fn c(&mut self, w: u32, v: u128) -> T {
        self.raw(Const(w, v & mask(w)), w)
    }
    pub fn tru(&mut self) -> T {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.c(1, 0)
    }
    /// variable named deterministically: the same name gives the same variable on every path
    pub fn var(&mut self, w: u32, name: &str) -> T {
        if let Some(t) = self.varmap.get(name) {
            return *t;
        }
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { w, name: name.to_string() });
        let t = self.raw(Var(w, id), w);
        self.varmap.insert(name.to_string(), t);
        t
    }
    pub fn is_true(&self, t: T) -> bool {
        self.n(t) == Const(1, 1)
    }
    pub fn is_false(&self, t: T) -> bool {
        self.n(t) == Const(1, 0)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        match self.n(a) {
            Const(_, v) => self.c(w, !v),
            Not(x) => x,
            _ => self.raw(Not(a), w),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if a.0 < b.0 { (a, b) } else { (b, a) };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x & y);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(v) = self.cv(x) {
                if v == 0 {
                    return x;
                }
                if v == mask(w) {
                    return y;
                }
                // low mask: zext(trunc)
                if (v + 1).is_power_of_two() && w > 1 {
                    let lw = (v + 1).trailing_zeros();
                    if lw < w {
                        let e = self.ext(0, lw, y);
                        return self.zext(w, e);
                    }
                }
            }
        }
        if self.n(a) == Not(b) || self.n(b) == Not(a) {
            return self.c(w, 0);
        }
        if w == 1 {
            // absorption of comparison pairs
            for (x, y) in [(a, b), (b, a)] {
                if let Not(nx) = self.n(x) {
                    if let Eq(p, q) = self.n(nx) {
                        match self.n(y) {
                            Ult(r, s) | Slt(r, s) if (r == p && s == q) || (r == q && s == p) => return y,
                            Not(ny) => match self.n(ny) {
                                Ult(r, s) if (r == p && s == q) || (r == q && s == p) => return self.ult(s, r),
                                Slt(r, s) if (r == p && s == q) || (r == q && s == p) => return self.slt(s, r),
                                _ => {}
                            },
                            _ => {}
                        }
                    }
                }
                if let Eq(p, q) = self.n(x) {
                    match self.n(y) {
                        Ult(r, s) | Slt(r, s) if (r == p && s == q) || (r == q && s == p) => return self.fls(),
                        Not(ny) => match self.n(ny) {
                            Ult(r, s) | Slt(r, s) if (r == p && s == q) || (r == q && s == p) => return x,
                            _ => {}
                        },
                        _ => {}
                    }
                }
                if let And(p, q) = self.n(x) {
                    if p == y || q == y {
                        return x;
                    }
                    let ny = self.not(y);
                    if p == ny || q == ny {
                        return self.fls();
                    }
                }
            }
        }
        self.raw(And(a, b), w)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            let na = self.not(a);
            let nb = self.not(b);
            let r = self.and(na, nb);
            return self.not(r);
        }
        if a == b {
            return a;
        }
        let (a, b) = if a.0 < b.0 { (a, b) } else { (b, a) };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x | y);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(v) = self.cv(x) {
                if v == 0 {
                    return y;
                }
                if v == mask(w) {
                    return x;
                }
            }
        }
        // disjoint halves: (zext lo) | (shl hi by k) == concat
        if let Some(r) = self.or_concat(a, b) {
            return r;
        }
        if let Some(r) = self.or_concat(b, a) {
            return r;
        }
        self.raw(Or(a, b), w)
    }
    fn or_concat(&mut self, a: T, b: T) -> Option<T> {
        // a = concat(h, const0 of k bits); b fits in k bits
        let w = self.w(a);
        if let Concat(h, l) = self.n(a) {
            if self.cv(l) == Some(0) {
                let k = self.w(l);
                let lo = match self.n(b) {
                    ZExt(_, x) if self.w(x) <= k => Some(self.zext(k, x)),
                    Const(_, v) if v & !mask(k) == 0 => Some(self.c(k, v)),
                    _ => None,
                };
                if let Some(lo) = lo {
                    let r = self.concat(h, lo);
                    debug_assert!(self.w(r) == w);
                    return Some(r);
                }
            }
        }
        // zext(concat(h,0)) | b
        if let ZExt(_, x) = self.n(a) {
            if let Concat(_, l) = self.n(x) {
                if self.cv(l) == Some(0) {
                    let k = self.w(l);
                    let wx = self.w(x);
                    let lo = match self.n(b) {
                        ZExt(_, y) if self.w(y) <= k => Some(self.zext(wx, y)),
                        Const(_, v) if v & !mask(k) == 0 => Some(self.c(wx, v)),
                        _ => None,
                    };
                    if let Some(lo) = lo {
                        let r = self.or(x, lo);
                        return Some(self.zext(w, r));
                    }
                }
            }
        }
        None
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        let (a, b) = if a.0 < b.0 { (a, b) } else { (b, a) };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x ^ y);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(v) = self.cv(x) {
                if v == 0 {
                    return y;
                }
                if v == mask(w) {
                    return self.not(y);
                }
            }
        }
        if w == 1 {
            // xor a b = ite-like: not(eq)
            let e = self.eq(a, b);
            return self.not(e);
        }
        self.raw(Xor(a, b), w)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x.wrapping_add(y));
        }
        if self.cv(a) == Some(0) {
            return b;
        }
        if self.cv(b) == Some(0) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // constants to the right, merged
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if let Add(p, q) = self.n(a) {
                if let Some(z) = self.cv(q) {
                    let c = self.c(w, y.wrapping_add(z));
                    return self.add(p, c);
                }
            }
            if let Some(r) = self.push_ite(a, b, |s, x, y| s.add(x, y)) {
                return r;
            }
            return self.raw(Add(a, b), w);
        }
        let (a, b) = if a.0 < b.0 { (a, b) } else { (b, a) };
        self.raw(Add(a, b), w)
    }
    fn ite_consts(&self, t: T, depth: u32) -> bool {
        match self.n(t) {
            Const(..) => true,
            Ite(_, a, b) => depth > 0 && self.ite_consts(a, depth - 1) && self.ite_consts(b, depth - 1),
            _ => false,
        }
    }
    /// op(ite tree of constants, constant) -> ite tree of constants
    fn push_ite(&mut self, a: T, k: T, f: impl Fn(&mut Self, T, T) -> T + Copy) -> Option<T> {
        if let Ite(c, x, y) = self.n(a) {
            if self.cv(k).is_some() && self.ite_consts(a, 6) {
                let p = f(self, x, k);
                let q = f(self, y, k);
                return Some(self.ite(c, p, q));
            }
        }
        None
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.c(w, 0);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        if let Some(y) = self.cv(b) {
            let k = self.c(w, (!y).wrapping_add(1));
            return self.add(a, k);
        }
        if let (Some(_), true) = (self.cv(a), self.ite_consts(b, 6)) {
            if let Ite(c, x, y) = self.n(b) {
                let p = self.sub(a, x);
                let q = self.sub(a, y);
                return self.ite(c, p, q);
            }
        }
        if w == 1 {
            return self.xor(a, b);
        }
        self.raw(Sub(a, b), w)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x.wrapping_mul(y));
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.c(w, y.trailing_zeros() as u128);
                return self.shl(a, k);
            }
            if let Some(r) = self.push_ite(a, b, |s, x, y| s.mul(x, y)) {
                return r;
            }
        }
        if w == 1 {
            return self.and(a, b);
        }
        self.raw(Mul(a, b), w)
    }
    pub fn divrem(&mut self, kind: u8, a: T, b: T) -> T {
        // kind: 0 udiv 1 urem 2 sdiv 3 srem
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                let (sx, sy) = (sext(x, w), sext(y, w));
                let v = match kind {
                    0 => x / y,
                    1 => x % y,
                    2 => sx.wrapping_div(sy) as u128,
                    _ => sx.wrapping_rem(sy) as u128,
                };
                return self.c(w, v);
            }
        }
        if let Some(y) = self.cv(b) {
            if y != 0 && y.is_power_of_two() && kind < 2 {
                let k = y.trailing_zeros();
                if kind == 0 {
                    let kk = self.c(w, k as u128);
                    return self.lshr(a, kk);
                } else {
                    let m = self.c(w, y - 1);
                    return self.and(a, m);
                }
            }
        }
        let n = match kind {
            0 => UDiv(a, b),
            1 => URem(a, b),
            2 => SDiv(a, b),
            _ => SRem(a, b),
        };
        self.raw(n, w)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let k = k as u32;
            if let Some(x) = self.cv(a) {
                return self.c(w, x << k);
            }
            let hi = self.ext(0, w - k, a);
            let z = self.c(k, 0);
            return self.concat(hi, z);
        }
        self.raw(Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let k = k as u32;
            let e = self.ext(k, w - k, a);
            return self.zext(w, e);
        }
        self.raw(LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            let k = if k >= w as u128 { w - 1 } else { k as u32 };
            if let Some(x) = self.cv(a) {
                return self.c(w, (sext(x, w) >> k) as u128);
            }
            let e = self.ext(k, w - k, a);
            return self.sext(w, e);
        }
        self.raw(AShr(a, b), w)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if a.0 < b.0 { (a, b) } else { (b, a) };
        match (self.cv(a), self.cv(b)) {
            (Some(_), Some(_)) => return self.fls(),
            (Some(_), None) => return self.eqc(b, a),
            (None, Some(_)) => return self.eqc(a, b),
            _ => {}
        }
        match (self.n(a), self.n(b)) {
            (ZExt(_, x), ZExt(_, y)) if self.w(x) == self.w(y) => return self.eq(x, y),
            (SExt(_, x), SExt(_, y)) if self.w(x) == self.w(y) => return self.eq(x, y),
            (Concat(h1, l1), Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                let p = self.eq(h1, h2);
                let q = self.eq(l1, l2);
                return self.and(p, q);
            }
            _ => {}
        }
        if w == 1 {
            if self.n(a) == Not(b) || self.n(b) == Not(a) {
                return self.fls();
            }
            // canonical: no negated children
            if let Not(x) = self.n(a) {
                let e = self.eq(x, b);
                return self.not(e);
            }
            if let Not(y) = self.n(b) {
                let e = self.eq(a, y);
                return self.not(e);
            }
        }
        // share ite
        if let (Ite(c1, x1, y1), Ite(c2, x2, y2)) = (self.n(a), self.n(b)) {
            if c1 == c2 {
                let p = self.eq(x1, x2);
                let q = self.eq(y1, y2);
                return self.ite(c1, p, q);
            }
        }
        self.raw(Eq(a, b), 1)
    }
    // b is constant, a is not
    fn eqc(&mut self, a: T, b: T) -> T {
        let v = self.cv(b).unwrap();
        let w = self.w(a);
        if w == 1 {
            return if v == 1 { a } else { self.not(a) };
        }
        match self.n(a) {
            Not(x) => {
                let k = self.c(w, !v);
                return self.eq(x, k);
            }
            ZExt(_, x) => {
                let xw = self.w(x);
                if v & !mask(xw) != 0 {
                    return self.fls();
                }
                let k = self.c(xw, v);
                return self.eq(x, k);
            }
            SExt(_, x) => {
                let xw = self.w(x);
                let k = self.c(xw, v);
                let back = sext(v & mask(xw), xw) as u128 & mask(w);
                if back != v {
                    return self.fls();
                }
                return self.eq(x, k);
            }
            Concat(h, l) => {
                let lw = self.w(l);
                let kl = self.c(lw, v);
                let hw = self.w(h);
                let kh = self.c(hw, v >> lw);
                let p = self.eq(h, kh);
                let q = self.eq(l, kl);
                return self.and(p, q);
            }
            Add(x, y) => {
                if let Some(z) = self.cv(y) {
                    let k = self.c(w, v.wrapping_sub(z));
                    return self.eq(x, k);
                }
            }
            Ite(c, x, y) => {
                let cx = self.cv(x);
                let cy = self.cv(y);
                if cx.is_some() || cy.is_some() {
                    let p = self.eq(x, b);
                    let q = self.eq(y, b);
                    return self.ite(c, p, q);
                }
            }
            _ => {}
        }
        let (x, y) = if a.0 < b.0 { (a, b) } else { (b, a) };
        self.raw(Eq(x, y), 1)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.fls();
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(1, (x < y) as u128),
            (_, Some(0)) => return self.fls(),
            (_, Some(1)) => {
                let z = self.c(w, 0);
                return self.eq(a, z);
            }
            (Some(x), _) if x == mask(w) => return self.fls(),
            (Some(0), _) => {
                let z = self.c(w, 0);
                let e = self.eq(b, z);
                return self.not(e);
            }
            (_, Some(y)) if y == mask(w) => {
                let e = self.eq(a, b);
                return self.not(e);
            }
            _ => {}
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        match (self.n(a), self.n(b)) {
            (ZExt(_, x), ZExt(_, y)) if self.w(x) == self.w(y) => return self.ult(x, y),
            (ZExt(_, x), Const(_, v)) => {
                let xw = self.w(x);
                if v > mask(xw) {
                    return self.tru();
                }
                let k = self.c(xw, v);
                return self.ult(x, k);
            }
            (Const(_, v), ZExt(_, x)) => {
                let xw = self.w(x);
                if v >= mask(xw) {
                    return self.fls();
                }
                let k = self.c(xw, v);
                return self.ult(k, x);
            }
            _ => {}
        }
        if let (Ite(c, x, y), Some(_)) = (self.n(a), self.cv(b)) {
            if self.ite_consts(a, 6) {
                let p = self.ult(x, b);
                let q = self.ult(y, b);
                return self.ite(c, p, q);
            }
        }
        if let (Some(_), Ite(c, x, y)) = (self.cv(a), self.n(b)) {
            if self.ite_consts(b, 6) {
                let p = self.ult(a, x);
                let q = self.ult(a, y);
                return self.ite(c, p, q);
            }
        }
        self.raw(Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(1, (sext(x, w) < sext(y, w)) as u128);
        }
        if w == 1 {
            // signed 1-bit: 1 is -1
            let nb = self.not(b);
            return self.and(a, nb);
        }
        match (self.n(a), self.n(b)) {
            (ZExt(_, x), ZExt(_, y)) if self.w(x) == self.w(y) => return self.ult(x, y),
            (SExt(_, x), SExt(_, y)) if self.w(x) == self.w(y) => return self.slt(x, y),
            (ZExt(_, x), Const(_, v)) => {
                let sv = sext(v, w);
                if sv < 0 {
                    return self.fls();
                }
                let xw = self.w(x);
                if v > mask(xw) {
                    return self.tru();
                }
                let k = self.c(xw, v);
                return self.ult(x, k);
            }
            (Const(_, v), ZExt(_, x)) => {
                let sv = sext(v, w);
                if sv < 0 {
                    return self.tru();
                }
                let xw = self.w(x);
                if v >= mask(xw) {
                    return self.fls();
                }
                let k = self.c(xw, v);
                return self.ult(k, x);
            }
            _ => {}
        }
        if let (Ite(c, x, y), Some(_)) = (self.n(a), self.cv(b)) {
            if self.ite_consts(a, 6) {
                let p = self.slt(x, b);
                let q = self.slt(y, b);
                return self.ite(c, p, q);
            }
        }
        if let (Some(_), Ite(c, x, y)) = (self.cv(a), self.n(b)) {
            if self.ite_consts(b, 6) {
                let p = self.slt(a, x);
                let q = self.slt(a, y);
                return self.ite(c, p, q);
            }
        }
        self.raw(Slt(a, b), 1)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Not(x) = self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        // nested with the same condition
        let a = if let Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                x
            } else {
                a
            }
        } else {
            a
        };
        let b = if let Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                y
            } else {
                b
            }
        } else {
            b
        };
        if a == b {
            return a;
        }
        match (self.n(a), self.n(b)) {
            (ZExt(_, x), ZExt(_, y)) if self.w(x) == self.w(y) => {
                let r = self.ite(c, x, y);
                return self.zext(w, r);
            }
            _ => {}
        }
        self.raw(Ite(c, a, b), w)
    }
    pub fn ext(&mut self, lo: u32, w: u32, a: T) -> T {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        match self.n(a) {
            Const(_, v) => return self.c(w, v >> lo),
            Ext(l2, _, x) => return self.ext(lo + l2, w, x),
            Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    return self.ext(lo - lw, w, h);
                }
                if lo + w <= lw {
                    return self.ext(lo, w, l);
                }
                let lpart = self.ext(lo, lw - lo, l);
                let hpart = self.ext(0, w - (lw - lo), h);
                return self.concat(hpart, lpart);
            }
            ZExt(_, x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.c(w, 0);
                }
                if lo + w <= xw {
                    return self.ext(lo, w, x);
                }
                let e = self.ext(lo, xw - lo, x);
                return self.zext(w, e);
            }
            SExt(_, x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.ext(lo, w, x);
                }
                if lo < xw {
                    let e = self.ext(lo, xw - lo, x);
                    return self.sext(w, e);
                }
            }
            Ite(c, x, y) => {
                if self.cv(x).is_some() || self.cv(y).is_some() || self.ite_consts(a, 6) {
                    let p = self.ext(lo, w, x);
                    let q = self.ext(lo, w, y);
                    return self.ite(c, p, q);
                }
            }
            And(x, y) => {
                let p = self.ext(lo, w, x);
                let q = self.ext(lo, w, y);
                return self.and(p, q);
            }
            Or(x, y) => {
                let p = self.ext(lo, w, x);
                let q = self.ext(lo, w, y);
                return self.or(p, q);
            }
            Xor(x, y) => {
                let p = self.ext(lo, w, x);
                let q = self.ext(lo, w, y);
                return self.xor(p, q);
            }
            Not(x) => {
                let p = self.ext(lo, w, x);
                return self.not(p);
            }
            Add(x, y) if lo == 0 => {
                let p = self.ext(lo, w, x);
                let q = self.ext(lo, w, y);
                return self.add(p, q);
            }
            Sub(x, y) if lo == 0 => {
                let p = self.ext(lo, w, x);
                let q = self.ext(lo, w, y);
                return self.sub(p, q);
            }
            Mul(x, y) if lo == 0 => {
                let p = self.ext(lo, w, x);
                let q = self.ext(lo, w, y);
                return self.mul(p, q);
            }
            _ => {}
        }
        self.raw(Ext(lo, w, a), w)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let w = self.w(h) + self.w(l);
        let lw = self.w(l);
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.c(w, (x << lw) | y);
        }
        if self.cv(h) == Some(0) {
            return self.zext(w, l);
        }
        if let (Ext(l1, w1, x), Ext(l2, w2, y)) = (self.n(h), self.n(l)) {
            if x == y && l2 + w2 == l1 {
                return self.ext(l2, w1 + w2, x);
            }
        }
        // concat(ext(x, hi..), concat-tail) handled by right association
        if let (Ext(l1, w1, x), Concat(p, q)) = (self.n(h), self.n(l)) {
            if let Ext(l2, w2, y) = self.n(p) {
                if x == y && l2 + w2 == l1 {
                    let e = self.ext(l2, w1 + w2, x);
                    return self.concat(e, q);
                }
            }
        }
        if let Concat(p, q) = self.n(h) {
            let t = self.concat(q, l);
            return self.concat(p, t);
        }
        if let (ZExt(_, x), _) = (self.n(h), ()) {
            let xw = self.w(x);
            let r = self.concat(x, l);
            debug_assert!(xw + lw < w);
            return self.zext(w, r);
        }
        // merge constants / extension of a full var
        if let (Some(x), Concat(p, q)) = (self.cv(h), self.n(l)) {
            if let Some(y) = self.cv(p) {
                let pw = self.w(p);
                let hw = self.w(h);
                let k = self.c(hw + pw, (x << pw) | y);
                return self.concat(k, q);
            }
        }
        self.raw(Concat(h, l), w)
    }
    pub fn zext(&mut self, w: u32, a: T) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            Const(_, v) => return self.c(w, v),
            ZExt(_, x) => return self.zext(w, x),
            Ite(c, x, y) if self.ite_consts(a, 6) => {
                let p = self.zext(w, x);
                let q = self.zext(w, y);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        if aw == 1 {
            let o = self.c(w, 1);
            let z = self.c(w, 0);
            return self.ite(a, o, z);
        }
        self.raw(ZExt(w, a), w)
    }
    pub fn sext(&mut self, w: u32, a: T) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            Const(_, v) => return self.c(w, sext(v, aw) as u128),
            SExt(_, x) => return self.sext(w, x),
            ZExt(_, x) => return self.zext(w, x),
            Ite(c, x, y) if self.ite_consts(a, 6) => {
                let p = self.sext(w, x);
                let q = self.sext(w, y);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        if aw == 1 {
            let o = self.c(w, !0);
            let z = self.c(w, 0);
            return self.ite(a, o, z);
        }
        self.raw(SExt(w, a), w)
    }
    /// evaluate under a model (vars not in it are 0)
    pub fn eval(&mut self, t: T, m: &Model) -> u128 {
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (u32::MAX, 0));
        }
        self.ev(t, m)
    }
    fn ev(&mut self, t: T, m: &Model) -> u128 {
        let n = self.nodes[t.0 as usize];
        if let Const(_, v) = n {
            return v;
        }
        if let Var(w, id) = n {
            return m.vals.get(id as usize).copied().unwrap_or(0) & mask(w);
        }
        let e = self.memo[t.0 as usize];
        if e.0 == m.id {
            return e.1;
        }
        let w = self.w(t);
        let v = match n {
            Const(..) | Var(..) => unreachable!(),
            Not(a) => !self.ev(a, m),
            And(a, b) => self.ev(a, m) & self.ev(b, m),
            Or(a, b) => self.ev(a, m) | self.ev(b, m),
            Xor(a, b) => self.ev(a, m) ^ self.ev(b, m),
            Add(a, b) => self.ev(a, m).wrapping_add(self.ev(b, m)),
            Sub(a, b) => self.ev(a, m).wrapping_sub(self.ev(b, m)),
            Mul(a, b) => self.ev(a, m).wrapping_mul(self.ev(b, m)),
            UDiv(a, b) => {
                let y = self.ev(b, m);
                if y == 0 {
                    !0
                } else {
                    self.ev(a, m) / y
                }
            }
            URem(a, b) => {
                let y = self.ev(b, m);
                let x = self.ev(a, m);
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            SDiv(a, b) => {
                let y = sext(self.ev(b, m), w);
                let x = sext(self.ev(a, m), w);
                if y == 0 {
                    (if x < 0 { 1 } else { -1i128 }) as u128
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            SRem(a, b) => {
                let y = sext(self.ev(b, m), w);
                let x = sext(self.ev(a, m), w);
                if y == 0 {
                    x as u128
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Shl(a, b) => {
                let k = self.ev(b, m);
                if k >= w as u128 {
                    0
                } else {
                    self.ev(a, m) << k
                }
            }
            LShr(a, b) => {
                let k = self.ev(b, m);
                if k >= w as u128 {
                    0
                } else {
                    self.ev(a, m) >> k
                }
            }
            AShr(a, b) => {
                let k = self.ev(b, m).min(w as u128 - 1);
                (sext(self.ev(a, m), w) >> k) as u128
            }
            Eq(a, b) => (self.ev(a, m) == self.ev(b, m)) as u128,
            Ult(a, b) => (self.ev(a, m) < self.ev(b, m)) as u128,
            Slt(a, b) => {
                let aw = self.w(a);
                (sext(self.ev(a, m), aw) < sext(self.ev(b, m), aw)) as u128
            }
            Ite(c, a, b) => {
                if self.ev(c, m) == 1 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            Ext(lo, _, a) => self.ev(a, m) >> lo,
            Concat(h, l) => {
                let lw = self.w(l);
                (self.ev(h, m) << lw) | self.ev(l, m)
            }
            ZExt(_, a) => self.ev(a, m),
            SExt(_, a) => {
                let aw = self.w(a);
                sext(self.ev(a, m), aw) as u128
            }
        } & mask(w);
        self.memo[t.0 as usize] = (m.id, v);
        v
    }
    /// the variables a term mentions
    pub fn support(&self, t: T, seen: &mut std::collections::HashSet<T>, out: &mut Vec<u32>) {
        if !seen.insert(t) {
            return;
        }
        match self.n(t) {
            Const(..) => {}
            Var(_, id) => out.push(id),
            Not(a) | Ext(_, _, a) | ZExt(_, a) | SExt(_, a) => self.support(a, seen, out),
            And(a, b) | Or(a, b) | Xor(a, b) | Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | URem(a, b)
            | SDiv(a, b) | SRem(a, b) | Shl(a, b) | LShr(a, b) | AShr(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b)
            | Concat(a, b) => {
                self.support(a, seen, out);
                self.support(b, seen, out)
            }
            Ite(a, b, c) => {
                self.support(a, seen, out);
                self.support(b, seen, out);
                self.support(c, seen, out)
            }
        }
    }
}
