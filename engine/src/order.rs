//! Transitive closure of the unsigned order facts of a path.
use crate::term::{mask, Node, Terms, T};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Default)]
pub struct Order {
    idx: HashMap<T, u32>,
    nodes: Vec<T>,           // symbolic terms
    bound: Vec<(u128, u128)>, // least and greatest value
    rel: Vec<Vec<u8>>,       // 0 unknown, 1 <=, 2 <
    diseq: HashSet<(u32, u32)>,
    holes: HashSet<(u32, u128)>, // node differs from the constant
}
impl Order {
    fn node(&mut self, tm: &Terms, t: T) -> usize {
        if let Some(i) = self.idx.get(&t) {
            return *i as usize;
        }
        let b = self.range(tm, t, 8);
        let i = self.nodes.len();
        self.idx.insert(t, i as u32);
        for r in self.rel.iter_mut() {
            r.push(0);
        }
        self.rel.push(vec![0; i + 1]);
        self.rel[i][i] = 1;
        self.nodes.push(t);
        self.bound.push(b);
        i
    }
    /// values a term can have, as far as this is obvious
    pub fn range(&self, tm: &Terms, t: T, depth: u32) -> (u128, u128) {
        if let Some(i) = self.idx.get(&t) {
            return self.bound[*i as usize];
        }
        let all = (0, mask(tm.w(t)));
        if depth == 0 {
            return all;
        }
        match tm.n(t) {
            Node::Const(_, v) => (v, v),
            Node::ZExt(_, x) => self.range(tm, x, depth - 1),
            Node::Ite(_, a, b) => {
                let (a, b) = (self.range(tm, a, depth - 1), self.range(tm, b, depth - 1));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => all,
        }
    }
    /// shrinks the bounds of a node and of those above and below it
    fn shrink(&mut self, n: usize, lo: u128, hi: u128) {
        let mut work = vec![(n, lo, hi)];
        while let Some((n, lo, hi)) = work.pop() {
            let (mut l, mut h) = self.bound[n];
            let old = (l, h);
            l = l.max(lo);
            h = h.min(hi);
            while l < h && self.holes.contains(&(n as u32, l)) {
                l += 1;
            }
            while l < h && self.holes.contains(&(n as u32, h)) {
                h -= 1;
            }
            if (l, h) == old || l > h {
                // nothing new, or a contradiction the solver will find
                continue;
            }
            self.bound[n] = (l, h);
            for m in 0..self.nodes.len() {
                if m == n {
                    continue;
                }
                let up = self.rel[n][m];
                if up > 0 && self.bound[m].0 < l + (up as u128 - 1) {
                    work.push((m, l + (up as u128 - 1), u128::MAX));
                }
                let dn = self.rel[m][n];
                if dn > 0 && h >= dn as u128 - 1 && self.bound[m].1 > h - (dn as u128 - 1) {
                    work.push((m, 0, h - (dn as u128 - 1)));
                }
                if l == h && self.diseq.contains(&(n.min(m) as u32, n.max(m) as u32)) {
                    self.holes.insert((m as u32, l));
                    work.push((m, 0, u128::MAX));
                }
            }
        }
    }
    fn edge(&mut self, a: usize, b: usize, k: u8) {
        let key = (a.min(b) as u32, a.max(b) as u32);
        let k = if k == 1 && self.diseq.contains(&key) { 2 } else { k };
        if self.rel[a][b] >= k {
            return;
        }
        let n = self.nodes.len();
        let up: Vec<(usize, u8)> = (0..n).filter(|y| self.rel[b][*y] > 0).map(|y| (y, self.rel[b][y])).collect();
        let mut again = vec![];
        for x in 0..n {
            let r = self.rel[x][a];
            if r == 0 {
                continue;
            }
            for (y, s) in &up {
                let v = r.max(k).max(*s);
                if self.rel[x][*y] < v {
                    self.rel[x][*y] = v;
                    if v == 1 && self.diseq.contains(&(x.min(*y) as u32, x.max(*y) as u32)) {
                        again.push((x, *y));
                    }
                }
            }
        }
        let s = k as u128 - 1;
        let (l, h) = (self.bound[a].0, self.bound[b].1);
        self.shrink(b, l + s, u128::MAX);
        if h >= s {
            self.shrink(a, 0, h - s);
        }
        for (x, y) in again {
            self.edge(x, y, 2);
        }
    }
    pub fn less(&mut self, tm: &Terms, a: T, b: T, strict: bool) {
        let s = strict as u128;
        match (tm.cv(a), tm.cv(b)) {
            (Some(_), Some(_)) => {}
            (Some(c), None) => {
                let j = self.node(tm, b);
                self.shrink(j, c + s, u128::MAX);
            }
            (None, Some(c)) => {
                let i = self.node(tm, a);
                if c >= s {
                    self.shrink(i, 0, c - s);
                }
            }
            _ => {
                let (i, j) = (self.node(tm, a), self.node(tm, b));
                self.edge(i, j, if strict { 2 } else { 1 });
            }
        }
    }
    pub fn differ(&mut self, tm: &Terms, a: T, b: T) {
        match (tm.cv(a), tm.cv(b)) {
            (Some(_), Some(_)) => {}
            (Some(c), None) | (None, Some(c)) => {
                let i = self.node(tm, if tm.cv(a).is_some() { b } else { a });
                self.holes.insert((i as u32, c));
                self.shrink(i, 0, u128::MAX);
            }
            _ => {
                let (i, j) = (self.node(tm, a), self.node(tm, b));
                self.diseq.insert((i.min(j) as u32, i.max(j) as u32));
                for (x, y) in [(i, j), (j, i)] {
                    if self.rel[x][y] == 1 {
                        self.edge(x, y, 2);
                    }
                    let (l, h) = self.bound[x];
                    if l == h {
                        self.holes.insert((y as u32, l));
                        self.shrink(y, 0, u128::MAX);
                    }
                }
            }
        }
    }
    pub fn knows(&self, t: T) -> bool {
        self.idx.contains_key(&t)
    }
    /// a and b cannot be equal
    pub fn apart(&self, tm: &Terms, a: T, b: T) -> bool {
        match (self.idx.get(&a), self.idx.get(&b)) {
            (Some(i), Some(j)) => self.diseq.contains(&((*i).min(*j), (*i).max(*j))),
            (Some(i), None) => tm.cv(b).is_some_and(|c| self.holes.contains(&(*i, c))),
            (None, Some(j)) => tm.cv(a).is_some_and(|c| self.holes.contains(&(*j, c))),
            _ => false,
        }
    }
    /// 0 unknown, 1 non-strict, 2 strict
    pub fn rel(&self, tm: &Terms, a: T, b: T) -> u8 {
        let mut r = 0;
        if let (Some(i), Some(j)) = (self.idx.get(&a), self.idx.get(&b)) {
            r = self.rel[*i as usize][*j as usize];
        }
        if r < 2 {
            let (h, l) = (self.range(tm, a, 8).1, self.range(tm, b, 8).0);
            if h < l {
                r = 2;
            } else if h == l {
                r = 1;
            }
        }
        r
    }
    /// every derived relation between symbolic terms, as terms
    pub fn derived(&self, tm: &mut Terms, limit: usize) -> Vec<T> {
        let mut v = vec![];
        let sym: Vec<usize> = (0..self.nodes.len()).collect();
        if sym.len() > limit {
            return v;
        }
        for &i in &sym {
            for &j in &sym {
                if i != j && self.rel[i][j] == 2 {
                    let t = tm.ult(self.nodes[i], self.nodes[j]);
                    v.push(t);
                }
            }
        }
        v
    }
}
