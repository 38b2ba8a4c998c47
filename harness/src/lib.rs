//! Support for harnesses. In the engine build the `sym_*` functions are left
//! undefined and are interpreted by the symbolic execution engine; with the
//! feature `native` they replay recorded inputs against the real build.
use std::alloc::{GlobalAlloc, Layout};
use vec_collections::{Array, VecMap, VecSet};

#[cfg(feature = "native")]
mod native;
pub mod rk;
pub mod se;
pub mod tree;

extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_choice(n: u32) -> u32;
    fn sym_split();
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, p: *const u8, n: usize);
    fn sym_cover(p: *const u8, n: usize);
    fn sym_out(x: u64);
    fn sym_alloc(size: usize, align: usize) -> *mut u8;
    fn sym_dealloc(p: *mut u8, size: usize, align: usize);
    fn sym_realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8;
    fn sym_heap_live() -> i64;
    fn sym_alloc_count() -> u64;
    fn sym_param(i: u32) -> u64;
    fn sym_concrete(x: u64) -> u64;
    fn sym_spawn(f: extern "C" fn(*mut u8), data: *mut u8) -> u32;
    fn sym_join(t: u32);
    fn sym_preemptions(n: u32);
    fn sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u8;
}

pub struct SymAlloc;
unsafe impl GlobalAlloc for SymAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sym_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sym_dealloc(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        sym_realloc(p, l.size(), l.align(), new)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = sym_alloc(l.size(), l.align());
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
}
#[global_allocator]
static GLOBAL: SymAlloc = SymAlloc;

// ---- symbolic inputs -----------------------------------------------------
#[inline]
pub fn u8() -> u8 {
    unsafe { sym_u8() }
}
#[inline]
pub fn u16() -> u16 {
    unsafe { sym_u16() }
}
#[inline]
pub fn u32() -> u32 {
    unsafe { sym_u32() }
}
#[inline]
pub fn u64() -> u64 {
    unsafe { sym_u64() }
}
#[inline]
pub fn boolean() -> bool {
    unsafe { sym_u8() & 1 == 1 }
}
/// an arbitrary number below `n`, explored as separate paths
#[inline]
pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n as u32) as usize }
}
/// an arbitrary number in `lo..=hi`, explored as separate paths
#[inline]
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choice(hi - lo + 1)
}
/// work is divided between engine processes by the choices made so far
#[inline]
pub fn split() {
    unsafe { sym_split() }
}
#[inline]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline]
pub fn check(c: bool, id: &'static str) {
    unsafe { sym_assert(c, id.as_ptr(), id.len()) }
}
#[inline]
pub fn cover(id: &'static str) {
    unsafe { sym_cover(id.as_ptr(), id.len()) }
}
#[inline]
pub fn out(x: u64) {
    unsafe { sym_out(x) }
}
#[inline]
pub fn heap_live() -> i64 {
    unsafe { sym_heap_live() }
}
#[inline]
pub fn alloc_count() -> u64 {
    unsafe { sym_alloc_count() }
}
#[inline]
pub fn param(i: u32) -> usize {
    unsafe { sym_param(i) as usize }
}
#[inline]
pub fn concrete(x: u64) -> u64 {
    unsafe { sym_concrete(x) }
}
/// runs `f`; true if it returned, false if it panicked
pub fn attempt<F: FnOnce()>(f: F) -> bool {
    extern "C-unwind" fn call<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<F>)).take() };
        if let Some(f) = f {
            f()
        }
    }
    let mut slot = Some(f);
    unsafe { sym_try(call::<F>, &mut slot as *mut Option<F> as *mut u8) == 0 }
}

/// a thread that runs `f` on the given value; give it back with `join`.
/// The value lives on the heap: a thread does not touch another one's stack.
pub struct Running<T> {
    data: *mut (T, fn(&mut T)),
    id: u32,
}
pub fn spawn<T: Send>(t: T, f: fn(&mut T)) -> Running<T> {
    extern "C" fn call<T>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut (T, fn(&mut T))) };
        (d.1)(&mut d.0)
    }
    let data = Box::into_raw(Box::new((t, f)));
    Running { data, id: unsafe { sym_spawn(call::<T>, data as *mut u8) } }
}
pub fn wait_for<T: Send>(r: Running<T>) -> T {
    unsafe {
        sym_join(r.id);
        Box::from_raw(r.data).0
    }
}
/// how often a thread may be interrupted although it could go on
pub fn preemptions(n: usize) {
    unsafe { sym_preemptions(n as u32) }
}

// ---- inputs made of the above -------------------------------------------
pub trait Sym: Copy + Ord {
    fn sym() -> Self;
    fn of(x: u8) -> Self;
    fn at(x: usize) -> Self;
    fn code(self) -> u64;
}
macro_rules! int {
    ($($t:ident $f:ident),*) => {$(impl Sym for $t {
        #[inline] fn sym() -> $t { unsafe { $f() as $t } }
        #[inline] fn of(x: u8) -> $t { x as $t }
        #[inline] fn at(x: usize) -> $t { x as $t }
        #[inline] fn code(self) -> u64 { self as u64 }
    })*};
}
int!(u8 sym_u8, u16 sym_u16, u32 sym_u32, u64 sym_u64, i8 sym_u8, i16 sym_u16, i32 sym_u32, i64 sym_u64);

/// `n` arbitrary values
#[inline(never)]
pub fn any<T: Sym>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(T::sym());
        i += 1;
    }
    v
}
/// `n` arbitrary values in strictly ascending order
#[inline(never)]
pub fn ascending<T: Sym>(n: usize) -> Vec<T> {
    let v = any::<T>(n);
    assume(is_ascending(&v));
    v
}
/// branch free
#[inline(never)]
pub fn is_ascending<T: Ord>(v: &[T]) -> bool {
    let mut ok = true;
    let mut i = 1;
    while i < v.len() {
        ok &= v[i - 1] < v[i];
        i += 1;
    }
    ok
}
/// branch free
#[inline(never)]
pub fn member<T: PartialEq>(v: &[T], w: &T) -> bool {
    let mut r = false;
    let mut i = 0;
    while i < v.len() {
        r |= v[i] == *w;
        i += 1;
    }
    r
}
/// branch free, lengths compared concretely
#[inline(never)]
pub fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    let mut i = 0;
    while i < a.len() {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}
/// branch free number of elements smaller than `w`
#[inline(never)]
pub fn rank<T: Ord>(v: &[T], w: &T) -> usize {
    let mut r = 0;
    let mut i = 0;
    while i < v.len() {
        r += (v[i] < *w) as usize;
        i += 1;
    }
    r
}
#[inline(never)]
pub fn outs<T: Sym>(v: &[T]) {
    out(v.len() as u64);
    let mut i = 0;
    while i < v.len() {
        out(v[i].code());
        i += 1;
    }
}

/// the shape of an operand, given by three params: kind, least and greatest length.
/// Kind 0: all elements arbitrary; kind 1: a fixed ladder 3, 9, 15, ...; kind 2: a fixed ladder 1, 3, 5, ...;
/// kind 100 + m: arbitrary ones near the first, the middle or the last of a ladder of kind 2 with m elements
#[derive(Clone, Copy)]
pub struct Shape {
    pub kind: usize,
    pub n: usize,
    from: usize,
}
impl Shape {
    #[inline(never)]
    pub fn pick(base: u32) -> Shape {
        let kind = param(base);
        let n = range(param(base + 1), param(base + 2));
        let from = if kind >= 100 { [0, kind - 104, 2 * (kind - 100) - 5][choice(3)] } else { 0 };
        Shape { kind, n, from }
    }
    #[inline(never)]
    pub fn sorted<T: Sym>(self) -> Vec<T> {
        if self.kind == 1 {
            ladder(self.n)
        } else if self.kind == 2 {
            dense(self.n)
        } else {
            let v = ascending(self.n);
            if self.kind >= 100 {
                for e in v.iter() {
                    assume((*e >= T::at(self.from)) & (*e < T::at(self.from + 8)));
                }
            }
            v
        }
    }
}
/// an arbitrary value; one near the first, the middle or the last of a ladder of kind 2 with `m`
/// elements, unless that is zero
#[inline(never)]
pub fn near<T: Sym>(m: usize) -> T {
    let e = T::sym();
    if m > 0 {
        let from = [0, m - 4, 2 * m - 5][choice(3)];
        assume((e >= T::at(from)) & (e < T::at(from + 8)));
    }
    e
}
/// values for mappings: all arbitrary, or only the one in the middle if there are many
#[inline(never)]
pub fn some_any(n: usize, many: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(if !many || i == n / 2 { u8() } else { 7 });
        i += 1;
    }
    v
}
#[inline(never)]
pub fn ladder<T: Sym>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(T::of((6 * i + 3) as u8));
        i += 1;
    }
    v
}
#[inline(never)]
pub fn dense<T: Sym>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(T::at(2 * i + 1));
    }
    v
}
/// asserts that the methods that an iterator may override agree with `next`, for one that gives `n` items;
/// `f` tells whether an item is the right one for a position
#[inline(never)]
pub fn provided<I: Iterator, F: Fn(I::Item, usize) -> bool>(mut i: I, n: usize, f: F) {
    let mut ok = true;
    match choice(7) {
        0 => {
            // some with next, then nth, then the rest
            let (j, k) = (choice(3), choice(n + 2));
            for p in 0..j.min(n) {
                ok &= i.next().map_or(false, |x| f(x, p));
            }
            let p = j.min(n) + k;
            let r = i.nth(k);
            check(r.is_some() == (p < n), "nth gives an item if there is one");
            if let Some(x) = r {
                ok &= f(x, p);
                for q in p + 1..n {
                    ok &= i.next().map_or(false, |x| f(x, q));
                }
                check(i.next().is_none(), "nothing after that");
            }
        }
        1 => check(i.count() == n, "count"),
        2 => match i.last() {
            Some(x) => ok &= n > 0 && f(x, n - 1),
            None => check(n == 0, "the last item"),
        },
        3 => {
            let m = i.fold(0, |p, x| {
                ok &= p < n && f(x, p);
                p + 1
            });
            check(m == n, "fold sees every item");
        }
        4 => {
            let k = choice(n + 2);
            let mut p = k;
            for x in i.skip(k) {
                ok &= p < n && f(x, p);
                p += 1;
            }
            check(p == n.max(k), "skip leaves the rest");
        }
        5 => {
            let mut p = 0;
            for x in i.step_by(2) {
                ok &= p < n && f(x, p);
                p += 2;
            }
            check(p == n + n % 2, "every second item");
        }
        _ => {
            let k = choice(n + 2);
            let mut p = 0;
            let r = i.find(|_| {
                p += 1;
                p == k + 1
            });
            check(r.is_some() == (k < n), "find stops at an item");
            let (lo, hi) = i.size_hint();
            let rest = n.saturating_sub(k + 1);
            check(lo <= rest && hi.map_or(true, |h| rest <= h), "the size hint bounds what is still to come");
            if let Some(x) = r {
                ok &= f(x, k);
            }
            check(i.count() == rest, "count of the rest");
        }
    }
    check(ok, "the right items");
    out(n as u64);
}
/// an unsorted sequence with duplicates. Params: number of arbitrary elements (least, greatest),
/// then a length and a step of a fixed background, into which they are spread.
/// The background goes up, down or in a zig-zag.
#[inline(never)]
pub fn sequence<T: Sym>(base: u32) -> Vec<T> {
    let n = range(param(base), param(base + 1));
    let bg = param(base + 2);
    let order = if bg > 0 { choice(3) } else { 0 };
    let at = if bg > 0 { choice(3) } else { 0 };
    let mut s = Vec::with_capacity(n);
    for _ in 0..n {
        // into a long background: near its least, middle or greatest elements
        s.push(near::<T>(if bg > 60 { bg } else { 0 }));
    }
    split();
    let mut r = Vec::with_capacity(n + bg);
    let mut j = 0;
    for i in 0..bg {
        // where the arbitrary ones go: at the front, in the middle, or at the end
        let here = match at {
            0 => i == 0,
            1 => i == bg / 2,
            _ => i + 1 == bg,
        };
        if here {
            while j < n {
                r.push(s[j]);
                j += 1;
            }
        }
        let k = match order {
            0 => i,
            1 => bg - 1 - i,
            _ => (i * 7) % bg,
        };
        // every value twice
        r.push(T::at(4 * (k / 2) + 3));
    }
    while j < n {
        r.push(s[j]);
        j += 1;
    }
    r
}
/// asserts that `c` holds exactly the elements of `a` op `b`
#[inline(never)]
pub fn check_set<T: Sym>(op: usize, a: &[T], b: &[T], c: &[T]) {
    check(is_ascending(c), "result is strictly ascending");
    let w = T::sym();
    let (x, y) = (member(a, &w), member(b, &w));
    let e = match op {
        0 => x | y,
        1 => x & y,
        2 => x & !y,
        _ => x ^ y,
    };
    check(member(c, &w) == e, "result has exactly the elements the operation prescribes");
    outs(c);
}

/// `n` arbitrary answers; beyond six, all but four of them are fixed
#[inline(never)]
pub fn answers(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let free = n <= 6 || i == 0 || i == n / 2 || i == n / 2 + 1 || i == n - 1;
        v.push(if free { u8() } else { (i % 3 != 0) as u8 });
    }
    v
}

// ---- maps: parallel slices of keys and u8 values ---------------------------
/// all ones if the condition holds
#[inline]
pub fn ones(c: bool) -> u8 {
    0u8.wrapping_sub(c as u8)
}
/// branch free: is there an entry for `w`, and the value of the last one
#[inline(never)]
pub fn lookup<K: PartialEq>(k: &[K], v: &[u8], w: &K) -> (bool, u8) {
    let (mut f, mut r) = (false, 0u8);
    let mut i = 0;
    while i < k.len() {
        let e = k[i] == *w;
        let m = ones(e);
        f |= e;
        r = (v[i] & m) | (r & !m);
        i += 1;
    }
    (f, r)
}
#[inline(never)]
pub fn zip<K: Copy>(k: &[K], v: &[u8]) -> Vec<(K, u8)> {
    let mut r = Vec::with_capacity(k.len());
    let mut i = 0;
    while i < k.len() {
        r.push((k[i], v[i]));
        i += 1;
    }
    r
}
#[inline(never)]
pub fn unzip<K: Copy>(p: &[(K, u8)]) -> (Vec<K>, Vec<u8>) {
    let (mut k, mut v) = (Vec::with_capacity(p.len()), Vec::with_capacity(p.len()));
    let mut i = 0;
    while i < p.len() {
        k.push(p[i].0);
        v.push(p[i].1);
        i += 1;
    }
    (k, v)
}
/// asserts that the pairs `r` are exactly the map with `k` and `v`
#[inline(never)]
pub fn check_map<K: Sym>(k: &[K], v: &[u8], r: &[(K, u8)]) {
    let (rk, rv) = unzip(r);
    check(is_ascending(&rk), "keys are strictly ascending");
    let w = K::sym();
    let (x, y) = (lookup(k, v, &w), lookup(&rk, &rv, &w));
    check((x.0 == y.0) & (!x.0 | (x.1 == y.1)), "the map has exactly the mappings prescribed");
    outs(&rk);
    outs(&rv);
}
/// branch free, for equal lengths
#[inline(never)]
pub fn same_map<K: PartialEq>(k: &[K], v: &[u8], r: &[(K, u8)]) -> bool {
    if r.len() != k.len() {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < k.len() {
        ok &= (r[i].0 == k[i]) & (r[i].1 == v[i]);
        i += 1;
    }
    ok
}
/// a branch free (a < b, a == b) of two sequences, lexicographically
#[inline(never)]
pub fn lex<T: Ord>(a: &[T], b: &[T]) -> (bool, bool) {
    let (mut lt, mut eq) = (false, true);
    let mut i = 0;
    while i < a.len() && i < b.len() {
        lt |= eq & (a[i] < b[i]);
        eq &= a[i] == b[i];
        i += 1;
    }
    (lt | (eq & (a.len() < b.len())), eq & (a.len() == b.len()))
}
/// records everything fed to it, so that equality of hashes can be stated for every hasher
#[derive(Default)]
pub struct Recorder(pub Vec<u8>);
impl std::hash::Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
#[inline(never)]
pub fn hashed<T: std::hash::Hash>(t: &T) -> Vec<u8> {
    let mut h = Recorder::default();
    t.hash(&mut h);
    h.0
}

/// a set of the given ascending elements, possibly spilled to the heap although it fits inline
#[inline(never)]
pub fn set_of<T: Sym, A: Array<Item = T>>(a: &[T], spilled: bool) -> VecSet<A> {
    if spilled {
        let mut x: VecSet<A> = ladder::<T>(A::size() + 1).into_iter().collect();
        x.retain(|_| false);
        for e in a {
            x.insert(*e);
        }
        x
    } else {
        a.iter().cloned().collect()
    }
}
#[inline(never)]
pub fn map_of<K: Sym + 'static, A: Array<Item = (K, u8)>>(k: &[K], v: &[u8], spilled: bool) -> VecMap<A> {
    if spilled {
        let mut x: VecMap<A> = ladder::<K>(A::size() + 1).into_iter().map(|k| (k, 0)).collect();
        x.retain(|_| false);
        for i in 0..k.len() {
            x.insert(k[i], v[i]);
        }
        x
    } else {
        zip(k, v).into_iter().collect()
    }
}

pub type Harness = (&'static str, extern "C-unwind" fn());

#[cfg(not(feature = "native"))]
pub fn main(t: &[Harness]) {
    for (_, f) in t {
        f()
    }
}
#[cfg(feature = "native")]
pub fn main(t: &[Harness]) {
    native::main(t)
}

/// declares harnesses and the main function of a binary
#[macro_export]
macro_rules! harnesses {
    ($(fn $n:ident() $b:block)*) => {
        $(#[no_mangle] #[inline(never)] pub extern "C-unwind" fn $n() $b)*
        fn main() {
            $crate::main(&[$((stringify!($n), $n as extern "C-unwind" fn())),*])
        }
    };
}

// ---- joins -----------------------------------------------------------------
/// one call of a user's function: the key, the values given, the answer
#[derive(Clone, Copy)]
pub struct Call<K> {
    pub k: K,
    pub v: Option<u8>,
    pub w: Option<u8>,
    pub keep: bool,
    pub r: u8,
}
/// an arbitrary function: every call gives an arbitrary answer, all of them are remembered.
/// The first `free` calls may drop the key or keep it, and so may some of the later ones.
pub struct Log<K> {
    pub calls: std::cell::RefCell<Vec<Call<K>>>,
    free: usize,
}
impl<K: Sym> Log<K> {
    pub fn new(free: usize) -> Self {
        Log { calls: std::cell::RefCell::new(Vec::new()), free }
    }
    #[inline(never)]
    pub fn call(&self, k: K, v: Option<u8>, w: Option<u8>) -> Option<u8> {
        let mut c = self.calls.borrow_mut();
        let i = c.len();
        let keep = if i < self.free || i == 2 * self.free + 5 { boolean() } else { i % 3 != 1 };
        let r = u8();
        c.push(Call { k, v, w, keep, r });
        if keep {
            Some(r)
        } else {
            None
        }
    }
    /// asserts that a join of a and b (0 outer, 1 left, 2 right, 3 inner) called this function as it should,
    /// and that `res` is what the answers amount to
    #[inline(never)]
    pub fn check(&self, join: usize, a: (&[K], &[u8]), b: (&[K], &[u8]), res: &[(K, u8)]) {
        let calls = self.calls.borrow();
        let (mut n, mut once, mut args) = (0, true, true);
        let mut expected: Vec<(K, u8)> = vec![];
        for (k, i, j) in paired(a.0, b.0) {
            let covered = match join {
                0 => true,
                1 => i.is_some(),
                2 => j.is_some(),
                _ => i.is_some() && j.is_some(),
            };
            if !covered {
                continue;
            }
            // the call for this key; most likely the next one
            let mut at = None;
            for c in 0..calls.len() {
                let c = (n + c) % calls.len();
                if calls[c].k == k {
                    at = Some(c);
                    break;
                }
            }
            n += 1;
            match at {
                None => once = false,
                Some(c) => {
                    let c = &calls[c];
                    args &= c.v.is_some() == i.is_some() && c.w.is_some() == j.is_some();
                    if let (Some(v), Some(i)) = (c.v, i) {
                        args &= v == a.1[i];
                    }
                    if let (Some(w), Some(j)) = (c.w, j) {
                        args &= w == b.1[j];
                    }
                    if c.keep {
                        expected.push((k, c.r));
                    }
                }
            }
        }
        check(once, "the function is called for every key the join covers");
        check(n == calls.len(), "the function is called once per key the join covers");
        check(args, "the function is given the values of both maps");
        check_pairs(&expected, res);
    }
}
/// the union of two ascending sequences, with the positions in both
#[inline(never)]
pub fn paired<K: Sym>(a: &[K], b: &[K]) -> Vec<(K, Option<usize>, Option<usize>)> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i] < b[j]) {
            r.push((a[i], Some(i), None));
            i += 1;
        } else if i == a.len() || b[j] < a[i] {
            r.push((b[j], None, Some(j)));
            j += 1;
        } else {
            r.push((a[i], Some(i), Some(j)));
            i += 1;
            j += 1;
        }
    }
    r
}
/// asserts that `r` is the ascending sequence of pairs `e`
#[inline(never)]
pub fn check_pairs<K: Sym>(e: &[(K, u8)], r: &[(K, u8)]) {
    check(e.len() == r.len(), "as many mappings as prescribed");
    let mut ok = true;
    let mut i = 0;
    while i < e.len() {
        ok &= e[i].0 == r[i].0;
        i += 1;
    }
    check(ok, "exactly the keys prescribed, in ascending order");
    let mut i = 0;
    while i < e.len() {
        ok &= e[i].1 == r[i].1;
        i += 1;
    }
    check(ok, "exactly the values prescribed");
    let mut i = 0;
    out(r.len() as u64);
    while i < r.len() {
        out(r[i].0.code());
        out(r[i].1 as u64);
        i += 1;
    }
}
