//! Bit-blasting of terms into the SAT solver. Every term is translated once;
//! a query is a set of assumption literals over the translated terms.
use crate::sat::{neg, Lit, Sat};
use crate::term::{mask, Model, Node, Terms, T};
use crate::z3::Res;
use Node::*;

const TRUE: Lit = 0;
const FALSE: Lit = 1;

struct Info {
    bits: Vec<Lit>,
    first: u32, // variables allocated for this term
    last: u32,
}
pub struct Blaster {
    sat: Sat,
    info: Vec<Option<Box<Info>>>,
    inputs: Vec<(u32, T)>, // term variables in the solver
    stamp: Vec<u32>,
    now: u32,
    cone: Vec<u32>,
    vcone: Vec<(u32, T)>,
    timeout: std::time::Duration,
    pub rebuilds: u64,
    pub conflicts: u64,
    debug: bool,
}
fn show(tm: &Terms, t: T) -> String {
    match tm.n(t) {
        Const(_, v) => format!("{}", v),
        Var(_, i) => format!("v{}", i),
        n => {
            let s = format!("{:?}", n);
            let k: Vec<String> = Blaster::kids(n).iter().flatten().map(|k| show(tm, *k)).collect();
            format!("({} {})", s.split('(').next().unwrap(), k.join(" "))
        }
    }
}
impl Blaster {
    pub fn new(timeout_ms: u32) -> Blaster {
        Blaster {
            sat: Sat::new(),
            info: vec![],
            inputs: vec![],
            stamp: vec![],
            now: 0,
            cone: vec![],
            vcone: vec![],
            timeout: std::time::Duration::from_millis(timeout_ms as u64),
            rebuilds: 0,
            conflicts: 0,
            debug: std::env::var("SYMEX_DBG").is_ok(),
        }
    }
    // --- gates
    fn and(&mut self, a: Lit, b: Lit) -> Lit {
        if a == FALSE || b == FALSE || a == neg(b) {
            return FALSE;
        }
        if a == TRUE || a == b {
            return b;
        }
        if b == TRUE {
            return a;
        }
        let o = self.sat.new_var();
        self.sat.add(&[neg(o), a]);
        self.sat.add(&[neg(o), b]);
        self.sat.add(&[o, neg(a), neg(b)]);
        o
    }
    fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        if a < 2 {
            return if a == TRUE { neg(b) } else { b };
        }
        if b < 2 {
            return if b == TRUE { neg(a) } else { a };
        }
        if a == b {
            return FALSE;
        }
        if a == neg(b) {
            return TRUE;
        }
        let o = self.sat.new_var();
        self.sat.add(&[neg(o), a, b]);
        self.sat.add(&[neg(o), neg(a), neg(b)]);
        self.sat.add(&[o, neg(a), b]);
        self.sat.add(&[o, a, neg(b)]);
        o
    }
    fn ite(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if a == TRUE {
            return self.or(c, b);
        }
        if a == FALSE {
            return self.and(neg(c), b);
        }
        if b == TRUE {
            return self.or(neg(c), a);
        }
        if b == FALSE {
            return self.and(c, a);
        }
        if a == neg(b) {
            return neg(self.xor(c, a));
        }
        let o = self.sat.new_var();
        self.sat.add(&[neg(c), neg(a), o]);
        self.sat.add(&[neg(c), a, neg(o)]);
        self.sat.add(&[c, neg(b), o]);
        self.sat.add(&[c, b, neg(o)]);
        self.sat.add(&[neg(a), neg(b), o]);
        self.sat.add(&[a, b, neg(o)]);
        o
    }
    fn maj(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        for (x, y, z) in [(a, b, c), (b, c, a), (c, a, b)] {
            if x == TRUE {
                return self.or(y, z);
            }
            if x == FALSE {
                return self.and(y, z);
            }
            if x == y {
                return x;
            }
            if x == neg(y) {
                return z;
            }
        }
        let o = self.sat.new_var();
        for (x, y) in [(a, b), (b, c), (a, c)] {
            self.sat.add(&[neg(x), neg(y), o]);
            self.sat.add(&[x, y, neg(o)]);
        }
        o
    }
    fn all(&mut self, mut v: Vec<Lit>) -> Lit {
        v.retain(|l| *l != TRUE);
        v.sort_unstable();
        v.dedup();
        if v.contains(&FALSE) || v.windows(2).any(|w| w[0] == neg(w[1])) {
            return FALSE;
        }
        if v.is_empty() {
            return TRUE;
        }
        if v.len() == 1 {
            return v[0];
        }
        let o = self.sat.new_var();
        let mut c = vec![o];
        for l in &v {
            self.sat.add(&[neg(o), *l]);
            c.push(neg(*l));
        }
        self.sat.add(&c);
        o
    }
    fn ult(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut lt = FALSE;
        for i in 0..a.len() {
            lt = self.maj(neg(a[i]), b[i], lt);
        }
        lt
    }
    fn add(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> Vec<Lit> {
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r.push(self.xor(x, c));
            if i + 1 < a.len() {
                c = self.maj(a[i], b[i], c);
            }
        }
        r
    }
    fn negate(&mut self, a: &[Lit]) -> Vec<Lit> {
        let z = vec![FALSE; a.len()];
        let n: Vec<Lit> = a.iter().map(|l| neg(*l)).collect();
        self.add(&z, &n, TRUE)
    }
    fn mux(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        (0..a.len()).map(|i| self.ite(c, a[i], b[i])).collect()
    }
    fn divrem(&mut self, a: &[Lit], d: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let w = a.len();
        let mut dd = d.to_vec();
        dd.push(FALSE);
        let nd: Vec<Lit> = dd.iter().map(|l| neg(*l)).collect();
        let mut r = vec![FALSE; w + 1];
        let mut q = vec![FALSE; w];
        for i in (0..w).rev() {
            r.pop();
            r.insert(0, a[i]);
            let lt = self.ult(&r, &dd);
            let s = self.add(&r, &nd, TRUE);
            r = self.mux(lt, &r, &s);
            q[i] = neg(lt);
        }
        r.truncate(w);
        (q, r)
    }
    fn shift(&mut self, a: &[Lit], b: &[Lit], left: bool, fill: Lit) -> Vec<Lit> {
        let w = a.len();
        let mut r = a.to_vec();
        let mut big = FALSE;
        for (k, s) in b.iter().enumerate() {
            if k >= 31 || (1usize << k) >= w {
                big = self.or(big, *s);
                continue;
            }
            let n = 1usize << k;
            let sh: Vec<Lit> = (0..w)
                .map(|i| if left { if i >= n { r[i - n] } else { fill } } else if i + n < w { r[i + n] } else { fill })
                .collect();
            r = self.mux(*s, &sh, &r);
        }
        let f = vec![fill; w];
        self.mux(big, &f, &r)
    }
    fn bits(&self, t: T) -> &Vec<Lit> {
        &self.info[t.0 as usize].as_ref().unwrap().bits
    }
    fn kids(n: Node) -> [Option<T>; 3] {
        match n {
            Const(..) | Var(..) => [None; 3],
            Not(a) | Ext(_, _, a) | ZExt(_, a) | SExt(_, a) => [Some(a), None, None],
            And(a, b) | Or(a, b) | Xor(a, b) | Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | URem(a, b) | SDiv(a, b) | SRem(a, b) | Shl(a, b) | LShr(a, b) | AShr(a, b)
            | Eq(a, b) | Ult(a, b) | Slt(a, b) | Concat(a, b) => [Some(a), Some(b), None],
            Ite(a, b, c) => [Some(a), Some(b), Some(c)],
        }
    }
    fn blast(&mut self, tm: &Terms, t: T) {
        if self.info.len() < tm.nodes.len() {
            self.info.resize_with(tm.nodes.len(), || None);
            self.stamp.resize(tm.nodes.len(), 0);
        }
        if self.info[t.0 as usize].is_some() {
            return;
        }
        let n = tm.n(t);
        for k in Self::kids(n).iter().flatten() {
            self.blast(tm, *k);
        }
        let w = tm.w(t) as usize;
        let first = self.sat.nvars() as u32;
        let bits: Vec<Lit> = match n {
            Const(_, v) => (0..w).map(|i| if v >> i & 1 == 1 { TRUE } else { FALSE }).collect(),
            Var(_, id) => {
                self.inputs.push((id, t));
                (0..w).map(|_| self.sat.new_var()).collect()
            }
            Not(a) => self.bits(a).iter().map(|l| neg(*l)).collect(),
            And(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                (0..w).map(|i| self.and(x[i], y[i])).collect()
            }
            Or(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                (0..w).map(|i| self.or(x[i], y[i])).collect()
            }
            Xor(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                (0..w).map(|i| self.xor(x[i], y[i])).collect()
            }
            Add(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                self.add(&x, &y, FALSE)
            }
            Sub(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                let y: Vec<Lit> = y.iter().map(|l| neg(*l)).collect();
                self.add(&x, &y, TRUE)
            }
            Mul(a, b) => {
                let (mut x, mut y) = (self.bits(a).clone(), self.bits(b).clone());
                if x.iter().filter(|l| **l > 1).count() < y.iter().filter(|l| **l > 1).count() {
                    std::mem::swap(&mut x, &mut y);
                }
                let mut r = vec![FALSE; w];
                for i in 0..w {
                    if y[i] == FALSE {
                        continue;
                    }
                    let p: Vec<Lit> = (0..w - i).map(|k| self.and(x[k], y[i])).collect();
                    let s = self.add(&r[i..].to_vec(), &p, FALSE);
                    r.truncate(i);
                    r.extend(s);
                }
                r
            }
            UDiv(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                self.divrem(&x, &y).0
            }
            URem(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                self.divrem(&x, &y).1
            }
            SDiv(a, b) | SRem(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                let (sx, sy) = (x[w - 1], y[w - 1]);
                let (nx, ny) = (self.negate(&x), self.negate(&y));
                let (ax, ay) = (self.mux(sx, &nx, &x), self.mux(sy, &ny, &y));
                let (q, r) = self.divrem(&ax, &ay);
                if let SDiv(..) = n {
                    let s = self.xor(sx, sy);
                    let nq = self.negate(&q);
                    self.mux(s, &nq, &q)
                } else {
                    let nr = self.negate(&r);
                    self.mux(sx, &nr, &r)
                }
            }
            Shl(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                self.shift(&x, &y, true, FALSE)
            }
            LShr(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                self.shift(&x, &y, false, FALSE)
            }
            AShr(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                let f = x[w - 1];
                self.shift(&x, &y, false, f)
            }
            Eq(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                let v: Vec<Lit> = (0..x.len()).map(|i| neg(self.xor(x[i], y[i]))).collect();
                vec![self.all(v)]
            }
            Ult(a, b) => {
                let (x, y) = (self.bits(a).clone(), self.bits(b).clone());
                vec![self.ult(&x, &y)]
            }
            Slt(a, b) => {
                let (mut x, mut y) = (self.bits(a).clone(), self.bits(b).clone());
                let k = x.len() - 1;
                x[k] = neg(x[k]);
                y[k] = neg(y[k]);
                vec![self.ult(&x, &y)]
            }
            Ite(c, a, b) => {
                let (c, x, y) = (self.bits(c)[0], self.bits(a).clone(), self.bits(b).clone());
                self.mux(c, &x, &y)
            }
            Ext(lo, w, a) => self.bits(a)[lo as usize..(lo + w) as usize].to_vec(),
            Concat(h, l) => {
                let mut x = self.bits(l).clone();
                x.extend_from_slice(self.bits(h));
                x
            }
            ZExt(_, a) => {
                let mut x = self.bits(a).clone();
                x.resize(w, FALSE);
                x
            }
            SExt(_, a) => {
                let mut x = self.bits(a).clone();
                let s = *x.last().unwrap();
                x.resize(w, s);
                x
            }
        };
        let last = self.sat.nvars() as u32;
        self.info[t.0 as usize] = Some(Box::new(Info { bits, first, last }));
    }
    /// adds a clause that is valid whatever the inputs are
    pub fn clause(&mut self, tm: &Terms, c: &[(T, bool)]) {
        let mut v = vec![];
        for (t, pos) in c {
            self.blast(tm, *t);
            let l = self.bits(*t)[0];
            v.push(if *pos { l } else { neg(l) });
        }
        self.sat.add(&v);
    }
    fn walk(&mut self, tm: &Terms, t: T) {
        if self.stamp[t.0 as usize] == self.now {
            return;
        }
        self.stamp[t.0 as usize] = self.now;
        let i = self.info[t.0 as usize].as_ref().unwrap();
        self.cone.extend(i.first..i.last);
        let n = tm.n(t);
        if let Var(_, id) = n {
            self.vcone.push((id, t));
        }
        for k in Self::kids(n).iter().flatten() {
            self.walk(tm, *k);
        }
    }
    pub fn check(&mut self, tm: &Terms, path: &[T], derived: &[T], extra: Option<T>) -> Res {
        if self.sat.nvars() > 400_000 {
            self.sat = Sat::new();
            self.info.clear();
            self.inputs.clear();
            self.stamp.clear();
            self.now = 0;
            self.rebuilds += 1;
        }
        let mut asm = Vec::with_capacity(path.len() + 1);
        self.now += 1;
        self.cone.clear();
        self.vcone.clear();
        for &t in path.iter().chain(derived).chain(extra.iter()) {
            self.blast(tm, t);
        }
        for &t in path.iter().chain(derived).chain(extra.iter()) {
            let l = self.bits(t)[0];
            if l == FALSE {
                return Res::Unsat;
            }
            self.walk(tm, t);
            if l != TRUE {
                asm.push(l);
            }
        }
        let d = std::time::Instant::now() + self.timeout;
        let cone = std::mem::take(&mut self.cone);
        let c0 = self.sat.conflicts;
        let r = self.sat.solve(&asm, &cone, d);
        self.conflicts += self.sat.conflicts - c0;
        if self.debug && self.sat.conflicts - c0 > 3000 {
            eprintln!("HARD {} conflicts, {} vars, {} assumptions {:?}", self.sat.conflicts - c0, cone.len(), asm.len(), r);
            for t in path {
                eprintln!("  p {}", show(tm, *t));
            }
            eprintln!("  e {}", show(tm, extra.unwrap()));
        }
        self.cone = cone;
        match r {
            Some(true) => Res::Sat,
            Some(false) => Res::Unsat,
            None => Res::Unknown,
        }
    }
    /// after a satisfiable check
    pub fn model(&mut self, tm: &Terms, id: u32) -> Model {
        let mut vals = vec![0u128; tm.vars.len()];
        for (v, t) in &self.vcone {
            let mut x = 0u128;
            for (i, l) in self.bits(*t).iter().enumerate() {
                if self.sat.value(*l) == 1 {
                    x |= 1 << i;
                }
            }
            vals[*v as usize] = x & mask(tm.w(*t));
        }
        Model { id, vals }
    }
}
