//! C26: the documented bounds on work and on intermediate storage
use std::cmp::Ordering;
use vec_collections::radix_tree::*;
use vec_collections::total_vec_map::*;
use vec_collections::total_vec_set::*;
use vec_collections::*;
use vh::rk::*;
use vh::*;

/// an element whose comparisons are counted
#[derive(Clone, Copy, Debug)]
struct C(u16);
static mut CMPS: usize = 0;
fn cmps() -> usize {
    unsafe { CMPS }
}
fn compared() {
    unsafe { CMPS += 1 }
}
impl PartialEq for C {
    fn eq(&self, o: &C) -> bool {
        compared();
        self.0 == o.0
    }
}
impl Eq for C {}
impl PartialOrd for C {
    fn partial_cmp(&self, o: &C) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for C {
    fn cmp(&self, o: &C) -> Ordering {
        compared();
        self.0.cmp(&o.0)
    }
}
impl rkyv::Archive for C {
    type Archived = C;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut C) {
        out.write(*self)
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for C {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}
fn cs(a: &[u16]) -> Vec<C> {
    a.iter().map(|x| C(*x)).collect()
}

/// a value whose copies and live instances are counted
#[derive(Debug, PartialEq, Eq)]
struct V(u8);
static mut COPIES: usize = 0;
static mut LIVE: usize = 0;
fn copies() -> usize {
    unsafe { COPIES }
}
fn live() -> usize {
    unsafe { LIVE }
}
impl V {
    fn new(x: u8) -> V {
        unsafe { LIVE += 1 }
        V(x)
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        // only of what a tree held before an operation
        unsafe { COPIES += (self.0 == 1) as usize }
        V::new(self.0)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        unsafe { LIVE -= 1 }
    }
}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl rkyv::Archive for V {
    type Archived = V;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut V) {
        out.write(V(self.0))
    }
}

/// the least b with n < 2^b
fn bits(n: usize) -> usize {
    let mut b = 0;
    while n >> b > 0 {
        b += 1;
    }
    b
}
/// comparisons that a search among `n` entries may take: logarithmic, with room for ways of
/// searching that compare twice in a step and a few times at the end
fn search(n: usize) -> usize {
    3 * bits(n) + 6
}

/// every key of `m` bytes, each one of `w` different ones
fn grid(m: usize, w: usize) -> Vec<Vec<u8>> {
    let mut r = vec![vec![]];
    for _ in 0..m {
        let mut s = vec![];
        for k in r {
            for i in 0..w {
                let mut l: Vec<u8> = k.clone();
                l.push((2 * i + 1) as u8);
                s.push(l);
            }
        }
        r = s;
    }
    r
}
fn tree_of<T: AbstractRadixTreeMut<u8, V>>(keys: &[Vec<u8>]) -> T {
    let mut t = T::empty();
    for k in keys {
        t.insert(k, V::new(1));
    }
    t
}
fn shares<T: AbstractRadixTreeMut<u8, V> + AbstractRadixTree<u8, V, Materialized = T> + Clone>(shared: bool) {
    let (m, w) = (param(0), param(1));
    let op = choice(6);
    split();
    let keys = grid(m, w);
    let total = keys.len();
    let mut t: T = tree_of(&keys);
    // a key like those in the tree, a prefix of some, or an extension
    let n = choice(m + 2);
    let key = any::<u8>(n);
    let (c, l) = (copies(), live());
    match op {
        0 if shared => {
            let a = alloc_count();
            let s = t.clone();
            check(alloc_count() - a <= 2, "a snapshot allocates nothing below the root");
            check(copies() - c <= 1, "a snapshot copies nothing below the root");
            check(live() - l <= 1, "a snapshot shares what it holds");
            out(s.get(&key).is_some() as u64);
        }
        1 => {
            t.insert(&key, V::new(2));
            check(copies() == c, "inserting into a tree that is not shared copies nothing");
        }
        2 if shared => {
            // the children along the path are copied, what is below them is shared
            let s = t.clone();
            t.insert(&key, V::new(2));
            check(copies() - c <= (m + 1) * w + 4, "a change copies the nodes along its path only");
            check(live() - l <= (m + 1) * w + 5, "the rest stays shared");
            out(s.get(&key).is_some() as u64);
        }
        3 => {
            t.prepend(&key);
            check(copies() == c, "prepending copies nothing");
        }
        4 => {
            let s = t.filter_prefix(&key);
            let found = s.iter().count();
            check(copies() - c <= if shared { 1 } else { found }, "filtering copies no more than what it finds");
            check(live() - l <= if shared { 1 } else { found }, "filtering shares what it finds");
            out(found as u64);
        }
        5 => {
            out(t.scan_prefix(&key).count() as u64 + t.values().count() as u64 + t.get(&key).is_some() as u64);
            check(copies() == c, "reading copies nothing");
        }
        _ => {}
    }
    out(total as u64);
}

harnesses! {
    fn h_search() {
        let s = Shape::pick(0);
        let op = choice(14);
        split();
        let (a, k) = (s.sorted::<u16>(), C(near::<u16>(param(3))));
        let n = a.len();
        let set = |v: Vec<C>| -> VecSet<[C; 2]> { v.into_iter().collect() };
        let map = |v: Vec<C>| -> VecMap<[(C, u8); 2]> { v.into_iter().map(|k| (k, 1)).collect() };
        let mut x = set(cs(&a));
        let mut y = map(cs(&a));
        let mut z: TotalVecSet<[C; 2]> = TotalVecSet::from(x.clone());
        let t = TotalVecMap::new(y.clone(), 0u8);
        let c = cmps();
        let r = match op {
            0 => x.contains(&k),
            1 => x.insert(k),
            2 => x.remove(&k),
            3 => y.get(&k).is_some(),
            4 => y.get_mut(&k).is_some(),
            5 => y.insert(k, 3).is_some(),
            6 => t[&k] == 1,
            7 => z.contains(&k),
            8 => {
                z.insert(k);
                true
            }
            9 => {
                z.remove(&k);
                false
            }
            10 => {
                z = !z;
                z.contains(&k)
            }
            11 => {
                z = !z;
                z.insert(k);
                false
            }
            12 => {
                let b = Exact::new(&archive(&x));
                let y = unsafe { rkyv::archived_root::<VecSet<[C; 2]>>(b.bytes()) };
                AbstractVecSet::contains(y, &k)
            }
            _ => {
                let b = Exact::new(&archive(&y));
                let y = unsafe { rkyv::archived_root::<VecMap<[(C, u8); 2]>>(b.bytes()) };
                y.get(&k).is_some()
            }
        };
        check(cmps() - c <= search(n), "a search takes a logarithmic number of comparisons");
        out(r as u64);
        out(n as u64);
    }
    fn h_tree_search() {
        // a node with many children, and a few long keys below one of them
        let (w, deep) = (param(0), param(1));
        let op = choice(5);
        split();
        let k = near::<u16>(w);
        let at = choice(3);
        let (i, len) = ([0, w / 2, w - 1][at], choice(4));
        let mut t: RadixTree<C, u8> = RadixTree::empty();
        for i in 0..w {
            t.insert(&[C(2 * i as u16 + 1)], 1);
        }
        let mut long = vec![C(2 * i as u16 + 1)];
        for _ in 0..deep {
            long.push(C(9));
            t.insert(&long, 2);
        }
        let mut q = match choice(2) {
            0 => vec![C(k)],
            _ => {
                let n = deep / 3 * len;
                long[..n + 1].to_vec()
            }
        };
        if choice(2) == 1 {
            q.push(C(u16()));
        }
        let c = cmps();
        let r = match op {
            0 => t.get(&q).is_some(),
            1 => t.contains_key(&q),
            2 => t.scan_prefix(&q).next().is_some(),
            3 => !t.filter_prefix(&q).is_empty(),
            _ => {
                t.insert(&q, 5);
                true
            }
        };
        check(cmps() - c <= search(w) + 6 * q.len() + 30, "finding a prefix is logarithmic in the number of children, linear in the key");
        out(r as u64);
    }
    fn h_sorted() {
        // sequences that are in order already
        let s = Shape::pick(0);
        let op = choice(5);
        split();
        let a = s.sorted::<u16>();
        let n = a.len();
        let v = cs(&a);
        let c = cmps();
        let r = match op {
            0 => v.into_iter().collect::<VecSet<[C; 2]>>().len(),
            1 => VecSet::<[C; 4]>::from(v).len(),
            2 => v.into_iter().map(|k| (k, 1u8)).collect::<VecMap<[(C, u8); 2]>>().len(),
            // every one of them twice
            3 => v.into_iter().flat_map(|k| [k, k]).collect::<VecSet<[C; 2]>>().len(),
            _ => sort_dedup::<_, Vec<C>>(v.into_iter(), Keep::First).len(),
        };
        check(cmps() - c <= 8 * n + 32, "building from a sorted sequence takes a linear number of comparisons");
        check(r == n, "all are kept");
        out(r as u64);
    }
    fn h_unsorted() {
        // arbitrary elements in fixed backgrounds
        let op = choice(2);
        split();
        let a = sequence::<u16>(0);
        let n = a.len();
        let v = cs(&a);
        let c = cmps();
        let r = match op {
            0 => v.into_iter().collect::<VecSet<[C; 2]>>().len(),
            _ => v.into_iter().map(|k| (k, 1u8)).collect::<VecMap<[(C, u8); 2]>>().len(),
        };
        let b = bits(n);
        check(cmps() - c <= 2 * n * b * b + 32, "building takes O(n log(n)^2) comparisons");
        out(r as u64);
    }
    fn h_storage() {
        // many elements, few of which are different
        let (n, most) = (param(0), param(1));
        let d = range(1, most);
        let op = choice(3);
        let order = choice(3);
        split();
        let e = any::<u8>(param(2));
        let mut distinct = d;
        for i in 0..e.len() {
            let mut new = (e[i] as usize) >= d;
            for j in 0..i {
                new &= e[j] != e[i];
            }
            distinct += new as usize;
        }
        let step = n / (e.len() + 1).max(1);
        let mut peak = 0;
        let l = live();
        let mut i = 0;
        let mut next = 0;
        let peaks = &mut peak;
        let it = std::iter::from_fn(|| {
            *peaks = (*peaks).max(live() - l);
            if i == n {
                return None;
            }
            i += 1;
            let x = match order {
                0 => i % d,
                1 => (n - i) % d,
                _ => (i * i + 3 * i) % 7 * (d - 1) / 6,
            } as u8;
            Some(V::new(if next < e.len() && i == step * (next + 1) {
                next += 1;
                e[next - 1]
            } else {
                x
            }))
        });
        let r = match op {
            0 => it.collect::<VecSet<[V; 2]>>().len(),
            1 => it.map(|k| (k, 1u8)).collect::<VecMap<[(V, u8); 2]>>().len(),
            _ => {
                let mut s: VecSet<[V; 2]> = VecSet::empty();
                s.extend(it);
                s.len()
            }
        };
        check(peak <= 2 * distinct + 17, "the intermediate storage is at most twice the result");
        check(r <= distinct, "not more than there are");
        out(r as u64);
    }
    fn h_share_arc() { shares::<ArcRadixTree<u8, V>>(true) }
    fn h_share_lazy() { shares::<LazyRadixTree<'static, u8, V>>(true) }
    fn h_share_plain() { shares::<RadixTree<u8, V>>(false) }
}
