//! Radix trees: inputs, and finite maps from byte strings as their reference
use crate::*;
use std::cmp::Ordering;
use vec_collections::radix_tree::*;

pub type Key = Vec<u8>;
/// ascending keys
pub type Model = Vec<(Key, u8)>;

/// lexicographic order; the result is concrete, one path for each
#[inline(never)]
pub fn order(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] != b[i] {
            return Ordering::Greater;
        }
        i += 1;
    }
    if a.len() < b.len() {
        Ordering::Less
    } else if a.len() > b.len() {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
/// concrete, one path for each
#[inline(never)]
pub fn equal(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && starts(a, b)
}
/// does `a` start with `b`: concrete, one path for each
#[inline(never)]
pub fn starts(a: &[u8], b: &[u8]) -> bool {
    if a.len() < b.len() {
        return false;
    }
    let mut i = 0;
    while i < b.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// the shape of a list of keys, given by four params: kind, least and greatest number, size.
/// Kind 0: keys of up to `size` arbitrary bytes; kind 1: fixed bytes, cut off around the places
/// where a fragment spills, and up to `size` arbitrary bytes; kind 2: fixed keys, some of which
/// are prefixes of the next; kind 3: fixed keys, each one a prefix of the next but for a few
/// that branch off; kind 4: as kind 1 with much longer fixed parts
pub struct Keys {
    kind: usize,
    pub lens: Vec<(usize, usize)>,
}
const CUTS: [usize; 5] = [0, 3, 15, 16, 17];
const LONG: [usize; 3] = [31, 63, 255];
impl Keys {
    #[inline(never)]
    pub fn pick(base: u32) -> Keys {
        let kind = param(base);
        let n = range(param(base + 1), param(base + 2));
        let size = param(base + 3);
        let mut lens = Vec::with_capacity(n);
        for i in 0..n {
            lens.push(match kind {
                0 => (0, choice(size + 1)),
                1 => (CUTS[choice(CUTS.len())], choice(size + 1)),
                4 => (LONG[choice(LONG.len())], choice(size + 1)),
                _ => (i, 0),
            });
        }
        Keys { kind, lens }
    }
    #[inline(never)]
    pub fn any(&self) -> Vec<Key> {
        let mut v = Vec::with_capacity(self.lens.len());
        for (cut, len) in &self.lens {
            let mut k = Vec::with_capacity(cut + len + 2);
            if self.kind == 2 {
                let i = *cut;
                k.push((6 * (i - (i % 3 == 2) as usize) + 3) as u8);
                if i % 3 == 2 {
                    k.push(50);
                }
            } else if self.kind == 3 {
                let i = *cut;
                // 3, 3 3, 3 3 3 3, 3 3 3 4, 3 3 3 3 3, ...
                for _ in 0..i + 1 - (i % 4 == 3) as usize {
                    k.push(3);
                }
                if i % 4 == 3 {
                    let n = k.len();
                    k[n - 1] = 4;
                }
            } else {
                for j in 0..*cut {
                    k.push((100 + j) as u8);
                }
                for _ in 0..*len {
                    k.push(u8());
                }
            }
            v.push(k);
        }
        v
    }
    /// ascending, with the values `first`, `first + 1`, ...
    #[inline(never)]
    pub fn model(&self, first: u8) -> Model {
        let v = self.any();
        let mut m: Model = Vec::with_capacity(v.len());
        for (i, k) in v.into_iter().enumerate() {
            if i > 0 && (self.kind < 2 || self.kind == 4) {
                assume(order(&m[i - 1].0, &k) == Ordering::Less);
            }
            m.push((k, first + i as u8));
        }
        if self.kind == 3 {
            m.sort();
            for (i, x) in m.iter_mut().enumerate() {
                x.1 = first + i as u8;
            }
        }
        m
    }
}
/// replaces or inserts
#[inline(never)]
pub fn put(m: &mut Model, k: &[u8], v: u8) {
    let mut i = 0;
    while i < m.len() {
        match order(&m[i].0, k) {
            Ordering::Less => i += 1,
            Ordering::Equal => {
                m[i].1 = v;
                return;
            }
            Ordering::Greater => break,
        }
    }
    m.insert(i, (k.to_vec(), v));
}
#[inline(never)]
pub fn find(m: &Model, k: &[u8]) -> Option<u8> {
    for (l, v) in m {
        if equal(l, k) {
            return Some(*v);
        }
    }
    None
}
/// a key of up to `n` arbitrary bytes, or one of the model with one byte more, less or changed
#[inline(never)]
pub fn probe(m: &Model, n: usize) -> Key {
    let i = choice(m.len() + 1);
    if i == m.len() {
        let n = choice(n + 1);
        return any::<u8>(n);
    }
    let mut k = m[i].0.clone();
    match choice(4) {
        0 => {}
        1 => k.push(u8()),
        2 => {
            k.pop();
        }
        _ => {
            k.pop();
            k.push(u8());
        }
    }
    k
}
#[inline(never)]
pub fn same_model(a: &Model, b: &Model) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if !equal(&a[i].0, &b[i].0) || a[i].1 != b[i].1 {
            return false;
        }
    }
    true
}
/// the keys and values of both, by key
#[inline(never)]
pub fn join(a: &Model, b: &Model) -> Vec<(Key, Option<u8>, Option<u8>)> {
    let (mut i, mut j) = (0, 0);
    let mut r = Vec::with_capacity(a.len() + b.len());
    while i < a.len() || j < b.len() {
        let o = if i == a.len() {
            Ordering::Greater
        } else if j == b.len() {
            Ordering::Less
        } else {
            order(&a[i].0, &b[j].0)
        };
        match o {
            Ordering::Less => {
                r.push((a[i].0.clone(), Some(a[i].1), None));
                i += 1;
            }
            Ordering::Greater => {
                r.push((b[j].0.clone(), None, Some(b[j].1)));
                j += 1;
            }
            Ordering::Equal => {
                r.push((a[i].0.clone(), Some(a[i].1), Some(b[j].1)));
                i += 1;
                j += 1;
            }
        }
    }
    r
}
#[inline(never)]
pub fn tree<T: AbstractRadixTreeMut<u8, u8>>(m: &Model) -> T {
    let mut t = T::empty();
    for (k, v) in m {
        t.insert(k, *v);
    }
    t
}
/// asserts that the tree has exactly the mappings of the model
#[inline(never)]
pub fn check_tree<T: AbstractRadixTree<u8, u8>>(t: &T, m: &Model) {
    let mut n = 0;
    // all keys are kept until the end
    let r: Vec<_> = t.iter().take(m.len() + 1).collect();
    check(r.len() == m.len(), "as many entries as mappings");
    let mut ok = true;
    for (k, v) in &r {
        ok &= same(k.as_ref(), &m[n].0) & (**v == m[n].1);
        out(**v as u64);
        n += 1;
    }
    check(ok, "the entries are the mappings, in order");
    check(t.is_empty() == m.is_empty(), "empty if and only if there are no mappings");
}
/// a canonical tree: what the code itself needs to hold of every tree
#[inline(never)]
pub fn canonical<T: AbstractRadixTree<u8, u8>>(t: &T, root: bool) -> bool {
    let c = t.children();
    let mut ok = root || !t.prefix().is_empty();
    ok &= t.value().is_some() || c.len() > 1 || (root && c.is_empty() && t.prefix().is_empty());
    for i in 0..c.len() {
        ok &= canonical(&c[i], false);
        if !ok {
            return false;
        }
        ok &= i == 0 || c[i - 1].prefix()[0] < c[i].prefix()[0];
    }
    ok
}

/// a flavour of radix tree
pub trait Tree: AbstractRadixTreeMut<u8, u8, Materialized = Self> {
    /// `==`, where there is one
    fn eq(&self, that: &Self) -> bool;
}
impl Tree for RadixTree<u8, u8> {
    fn eq(&self, that: &Self) -> bool {
        self == that
    }
}
impl Tree for ArcRadixTree<u8, u8> {
    fn eq(&self, that: &Self) -> bool {
        contents(self) == contents(that)
    }
}
impl Tree for LazyRadixTree<'static, u8, u8> {
    fn eq(&self, that: &Self) -> bool {
        contents(self) == contents(that)
    }
}
#[inline(never)]
pub fn contents<T: AbstractRadixTree<u8, u8>>(t: &T) -> Model {
    t.iter().map(|(k, v)| (k.to_vec(), *v)).collect()
}
/// a user function that decides arbitrarily for each pair of values whether to keep the key
pub struct Decide {
    pairs: Vec<(u8, u8)>,
    keep: std::cell::RefCell<Vec<Option<bool>>>,
    /// what it says for keys only in the left tree, and how often that was asked
    pub alone: bool,
    asked: std::cell::Cell<usize>,
}
impl Decide {
    #[inline(never)]
    pub fn new(j: &[(Key, Option<u8>, Option<u8>)], alone: bool) -> Decide {
        let mut pairs = vec![];
        for x in j {
            if let (Some(v), Some(w)) = (x.1, x.2) {
                pairs.push((v, w));
            }
        }
        let keep = std::cell::RefCell::new(vec![None; pairs.len()]);
        Decide { pairs, keep, alone, asked: Default::default() }
    }
    #[inline(never)]
    pub fn ask(&self, v: u8, w: u8) -> Option<u8> {
        for i in 0..self.pairs.len() {
            if self.pairs[i] == (v, w) {
                let k = self.keep.borrow()[i];
                let k = match k {
                    Some(k) => k,
                    None => {
                        let k = choice(2) == 1;
                        self.keep.borrow_mut()[i] = Some(k);
                        k
                    }
                };
                return if k { Some(100 + i as u8) } else { None };
            }
        }
        check(false, "the function is given the values of a key in both trees");
        None
    }
    #[inline(never)]
    pub fn ask_left(&self, v: u8, w: Option<u8>) -> Option<u8> {
        match w {
            Some(w) => self.ask(v, w),
            None => {
                self.asked.set(self.asked.get() + 1);
                if self.alone {
                    Some(v)
                } else {
                    None
                }
            }
        }
    }
    #[inline(never)]
    pub fn ask_mut(&self, v: &mut u8, w: u8) -> bool {
        let r = self.ask(*v, w);
        *v = r.unwrap_or(99);
        r.is_some()
    }
    /// what it said for a key in both
    fn said(&self, v: u8, w: u8) -> Option<u8> {
        for i in 0..self.pairs.len() {
            if self.pairs[i] == (v, w) {
                return match self.keep.borrow()[i] {
                    None => {
                        check(false, "the function decides every key in both trees");
                        None
                    }
                    Some(k) => {
                        if k {
                            Some(100 + i as u8)
                        } else {
                            None
                        }
                    }
                };
            }
        }
        None
    }
}
/// the twelve combines of two trees
pub const COMBINES: usize = 12;
#[inline(never)]
pub fn combine<T: Tree, U: AbstractRadixTree<u8, u8, Materialized = T>>(op: usize, x: &mut T, y: &U, d: &Decide) {
    let r = match op {
        0 => x.union(y),
        1 => x.intersection(y),
        2 => x.difference(y),
        3 => x.outer_combine(y, |v, w| d.ask(*v, *w)),
        4 => x.inner_combine(y, |v, w| d.ask(*v, *w)),
        5 => x.left_combine(y, |v, w| d.ask_left(*v, w.copied())),
        6 => return x.union_with(y),
        7 => return x.intersection_with(y),
        8 => return x.difference_with(y),
        9 => return x.outer_combine_with(y, |v, w| d.ask_mut(v, *w)),
        10 => return x.inner_combine_with(y, |v, w| d.ask_mut(v, *w)),
        _ => return x.left_combine_with(y, |v, w| d.ask_mut(v, *w)),
    };
    *x = r;
}
/// what the combine prescribes
#[inline(never)]
pub fn combined(op: usize, j: &[(Key, Option<u8>, Option<u8>)], d: &Decide) -> Model {
    let mut m = Model::new();
    // keys in only one tree are all treated alike
    let drop_alone = op % 6 == 5 && !d.alone && d.asked.get() > 0;
    let inner = op % 6 == 1 || op % 6 == 4;
    let left = op % 3 == 2;
    for (k, v, w) in j {
        let r = match (v, w) {
            (Some(v), Some(w)) => match op % 6 {
                0 | 1 => Some(*v),
                2 => None,
                _ => d.said(*v, *w),
            },
            (Some(v), None) => {
                if inner || drop_alone {
                    None
                } else {
                    Some(*v)
                }
            }
            (None, Some(w)) => {
                if inner || left {
                    None
                } else {
                    Some(*w)
                }
            }
            _ => None,
        };
        if let Some(r) = r {
            m.push((k.clone(), r));
        }
    }
    m
}
/// the harness for combines
#[inline(never)]
pub fn check_combine<T: Tree>(build: fn(&Model) -> T) {
    let (ka, kb) = (Keys::pick(0), Keys::pick(4));
    let op = choice(COMBINES);
    let alone = op != 5 || choice(2) == 1;
    split();
    let (a, b) = (ka.model(1), kb.model(51));
    let j = join(&a, &b);
    let d = Decide::new(&j, alone);
    let (x, y) = (build(&a), build(&b));
    let mut r = x.clone();
    combine(op, &mut r, &y, &d);
    let e = combined(op, &j, &d);
    check_tree(&r, &e);
    check(Tree::eq(&r, &build(&e)), "the result is equal to a freshly built tree");
    check_tree(&y, &b);
    check(Tree::eq(&y, &build(&b)), "the right operand is unchanged");
    check(Tree::eq(&x, &build(&a)), "the left operand is unchanged");
}

/// the harness for predicates
#[inline(never)]
pub fn check_predicates<T: Tree>(build: fn(&Model) -> T) {
    let (ka, kb) = (Keys::pick(0), Keys::pick(4));
    let op = choice(5);
    split();
    let (a, b) = (ka.model(1), kb.model(51));
    let (x, y) = (build(&a), build(&b));
    let j = join(&a, &b);
    let (mut subset, mut superset, mut disjoint) = (true, true, true);
    for (_, v, w) in &j {
        subset &= w.is_some();
        superset &= v.is_some();
        disjoint &= v.is_none() || w.is_none();
    }
    match op {
        0 => check(x.is_subset(&y) == subset, "is_subset is exact"),
        1 => check(x.is_superset(&y) == superset, "is_superset is exact"),
        2 => check(x.is_disjoint(&y) == disjoint, "is_disjoint is exact"),
        3 => check(x.intersects(&y) == !disjoint, "intersects is exact"),
        _ => check(x.is_empty() == a.is_empty(), "is_empty is exact"),
    }
    out(subset as u64 + 2 * superset as u64 + 4 * disjoint as u64);
}
/// an arbitrary predicate on the values of the prefix tree
pub struct Accept(std::cell::RefCell<Vec<Option<bool>>>, u8);
impl Accept {
    #[inline(never)]
    pub fn new(m: &Model) -> Accept {
        Accept(std::cell::RefCell::new(vec![None; m.len()]), if m.is_empty() { 0 } else { m[0].1 })
    }
    #[inline(never)]
    pub fn ask(&self, w: u8) -> bool {
        let i = (w.wrapping_sub(self.1)) as usize;
        let mut d = self.0.borrow_mut();
        if i >= d.len() {
            check(false, "the predicate is given a value of the prefix tree");
            return false;
        }
        match d[i] {
            Some(r) => r,
            None => {
                let r = choice(2) == 1;
                d[i] = Some(r);
                r
            }
        }
    }
}
/// the harness for prefix operations with a single prefix
#[inline(never)]
pub fn check_prefix<T: Tree>(build: fn(&Model) -> T) {
    let ka = Keys::pick(0);
    let op = choice(3);
    split();
    let a = ka.model(1);
    let p = probe(&a, param(4));
    let x = build(&a);
    let e: Model = if op == 2 {
        a.iter().map(|(k, v)| ([&p[..], &k[..]].concat(), *v)).collect()
    } else {
        a.iter().filter(|(k, _)| starts(k, &p)).cloned().collect()
    };
    match op {
        0 => {
            let r = x.filter_prefix(&p);
            check_tree(&r, &e);
            check(Tree::eq(&r, &build(&e)), "filter_prefix is equal to a freshly built tree");
            check(Tree::eq(&x, &build(&a)), "the tree is unchanged");
        }
        1 => {
            let r: Vec<_> = x.scan_prefix(&p).take(e.len() + 1).collect();
            check(r.len() == e.len(), "scan_prefix yields each key with the prefix");
            let mut ok = true;
            for i in 0..r.len() {
                ok &= same(&r[i].0, &e[i].0) & (*r[i].1 == e[i].1);
            }
            check(ok, "scan_prefix yields full keys in order");
        }
        _ => {
            let mut r = x.clone();
            r.prepend(&p);
            check_tree(&r, &e);
            check(Tree::eq(&r, &build(&e)), "prepend is equal to a freshly built tree");
            check(Tree::eq(&x, &build(&a)), "the tree is unchanged");
        }
    }
    out(e.len() as u64);
}
/// the harness for prefix operations with a tree of prefixes
#[inline(never)]
pub fn check_prefixes<T: Tree>(build: fn(&Model) -> T) {
    let (ka, kb) = (Keys::pick(0), Keys::pick(4));
    let op = choice(2);
    split();
    let (a, b) = (ka.model(1), kb.model(51));
    let (x, y) = (build(&a), build(&b));
    let f = Accept::new(&b);
    let mut r = x.clone();
    if op == 0 {
        r.remove_prefix_with(&y, |w| f.ask(*w));
    } else {
        r.retain_prefix_with(&y, |w| f.ask(*w));
    }
    let mut e = Model::new();
    for (k, v) in &a {
        let mut has = false;
        for (p, w) in &b {
            // the predicate is asked only where its answer matters
            if !has && starts(k, p) && f.ask(*w) {
                has = true;
            }
        }
        if has == (op == 1) {
            e.push((k.clone(), *v));
        }
    }
    check_tree(&r, &e);
    check(Tree::eq(&r, &build(&e)), "the result is equal to a freshly built tree");
    check_tree(&y, &b);
    check(Tree::eq(&x, &build(&a)), "a clone is not affected");
}
