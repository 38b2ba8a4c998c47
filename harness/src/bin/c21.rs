//! C21: elements are dropped exactly once and memory stays valid, even on panics.
//!
//! Every element owns a heap block, so a second drop is a double free, a missing one a leak and
//! a use after the drop a use after free: the engine (and the replay) sees all of them.
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use vec_collections::radix_tree::*;
use vec_collections::total_vec_map::*;
use vec_collections::total_vec_set::*;
use vec_collections::*;
use vh::tree::{starts, Keys, Model};
use vh::*;

struct Fault {
    /// how many more panics there may be
    left: Cell<u32>,
    /// how many more calls of user code may panic
    calls: Cell<u32>,
}
unsafe impl Sync for Fault {}
static FAULT: Fault = Fault { left: Cell::new(0), calls: Cell::new(0) };
/// each call of user code either panics or does not
#[inline(never)]
fn fault() {
    if FAULT.left.get() > 0 && FAULT.calls.get() > 0 {
        FAULT.calls.set(FAULT.calls.get() - 1);
        if choice(2) == 1 {
            FAULT.left.set(FAULT.left.get() - 1);
            panic!("user code")
        }
    }
}
fn arm() {
    FAULT.left.set(1);
    FAULT.calls.set(param(6) as u32);
}
fn disarm() {
    FAULT.left.set(0);
}

struct D(Box<u8>);
impl std::fmt::Debug for D {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl rkyv::Archive for D {
    type Archived = u8;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut u8) {
        out.write(*self.0)
    }
}
impl D {
    fn new(x: u8) -> D {
        D(Box::new(x))
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        fault();
        D::new(*self.0)
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        fault();
        *self.0 == *o.0
    }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for D {
    fn cmp(&self, o: &D) -> Ordering {
        fault();
        (*self.0).cmp(&*o.0)
    }
}
fn ds(a: &[u8]) -> Vec<D> {
    let mut v = Vec::with_capacity(a.len());
    for x in a {
        v.push(D::new(*x));
    }
    v
}
type A = [D; 2];
type B = [D; 1];
type MA = [(D, D); 2];
type MB = [(D, D); 1];
/// a set that may be spilled although it fits
fn set<X: Array<Item = D>>(a: &[u8], spilled: bool) -> VecSet<X> {
    let mut s: VecSet<X> = VecSet::empty();
    if spilled {
        for i in 0..X::size() + 1 {
            s.insert(D::new(i as u8));
        }
        s.retain(|_| false);
    }
    s.extend(ds(a));
    s
}
fn gut<X: Array<Item = D>>(s: &mut VecSet<X>) -> VecSet<X> {
    std::mem::replace(s, VecSet::empty())
}
fn map<X: Array<Item = (D, D)>>(k: &[u8], v: &[u8]) -> VecMap<X> {
    let mut p = Vec::with_capacity(k.len());
    for i in 0..k.len() {
        p.push((D::new(k[i]), D::new(v[i])));
    }
    p.into_iter().collect()
}
/// still a set: ascending, and it can be read, changed and dropped
fn valid<X: Array<Item = D>>(s: &mut VecSet<X>) {
    disarm();
    let v = s.as_ref();
    let mut ok = true;
    for i in 1..v.len() {
        ok &= *v[i - 1].0 < *v[i].0;
    }
    check(ok, "the set is still strictly ascending");
    let n = s.len();
    let e = D::new(7);
    let had = s.contains(&e);
    check(s.insert(e) != had, "the set can still be used");
    check(s.len() == n + !had as usize, "the set has the element inserted");
}
fn valid_map<X: Array<Item = (D, D)>>(s: &mut VecMap<X>) {
    disarm();
    let v: &[(D, D)] = s.as_ref();
    let (mut ok, mut sum) = (true, 0u8);
    for i in 0..v.len() {
        ok &= i == 0 || *v[i - 1].0 .0 < *v[i].0 .0;
        sum = sum.wrapping_add(*v[i].1 .0);
    }
    check(ok, "the keys are still strictly ascending");
    out(sum as u64);
    s.insert(D::new(7), D::new(9));
    let r = s.get(&D::new(7));
    check(r.is_some(), "the map can still be used");
}
harnesses! {
    fn h_set() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(21);
        let spilled = choice(2) == 1;
        split();
        let before = heap_live();
        {
            let (a, b) = (sa.sorted::<u8>(), sb.sorted::<u8>());
            let mut x: VecSet<A> = set(&a, spilled);
            let mut y: VecSet<B> = set(&b, false);
            let mut done = false;
            arm();
            let returned = attempt(|| {
                match op {
                    0 => drop(&x | &y),
                    1 => drop(&x & &y),
                    2 => drop(&x - &y),
                    3 => drop(&x ^ &y),
                    4 => x |= &y,
                    5 => x &= &y,
                    6 => x -= &y,
                    7 => x ^= &y,
                    8 => x |= gut(&mut y),
                    9 => x &= gut(&mut y),
                    10 => x -= gut(&mut y),
                    11 => x ^= gut(&mut y),
                    12 => {
                        x.insert(D::new(b.len() as u8));
                    }
                    13 => {
                        x.remove(&D::new(b.len() as u8));
                    }
                    14 => x.retain(|d| {
                        fault();
                        *d.0 & 1 == 1
                    }),
                    15 => drop(x.clone()),
                    16 => x.extend(gut(&mut y)),
                    17 => {
                        // partly consumed
                        let mut i = gut(&mut x).into_iter();
                        let e = i.next();
                        drop(i);
                        drop(e);
                    }
                    18 => {
                        let v: Vec<D> = gut(&mut x).into();
                        x = v.into();
                    }
                    19 => {
                        x.shrink_to_fit();
                        let s: smallvec::SmallVec<A> = gut(&mut x).into();
                        drop(s);
                    }
                    _ => {
                        out((x.is_subset(&y) as u64) + 2 * x.is_disjoint(&y) as u64 + 4 * x.is_superset(&y) as u64);
                    }
                }
                done = true;
            });
            check(done == returned, "an operation either returns or panics");
            out(done as u64);
            valid(&mut x);
            valid(&mut y);
        }
        check(heap_live() == before, "every element is dropped");
    }
    fn h_build() {
        // unsorted sequences with duplicates
        let n = range(0, param(0));
        let op = choice(4);
        split();
        let before = heap_live();
        {
            let a = any::<u8>(n);
            let b = any::<u8>(n);
            let v = ds(&a);
            let mut p = vec![];
            for i in 0..n {
                p.push((D::new(a[i]), D::new(b[i])));
            }
            arm();
            attempt(move || match op {
                0 => {
                    let mut s: VecSet<A> = v.into_iter().collect();
                    valid(&mut s)
                }
                1 => {
                    let mut s: VecSet<A> = v.into();
                    valid(&mut s)
                }
                2 => {
                    let mut m: VecMap<MA> = p.into_iter().collect();
                    valid_map(&mut m)
                }
                _ => {
                    let mut m: VecMap<MA> = VecMap::empty();
                    for (k, v) in p {
                        m.insert(k, v);
                    }
                    valid_map(&mut m)
                }
            });
            disarm();
        }
        check(heap_live() == before, "every element is dropped");
    }
    fn h_map() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(18);
        split();
        let before = heap_live();
        {
            let (a, b) = (sa.sorted::<u8>(), sb.sorted::<u8>());
            let mut x: VecMap<MA> = map(&a, &a);
            let mut y: VecMap<MB> = map(&b, &b);
            arm();
            // a call keeps or drops its key, by turns
            let n = RefCell::new(0);
            let turn = || {
                let mut n = n.borrow_mut();
                *n += 1;
                *n % 3 != 2
            };
            attempt(|| match op {
                0 => drop(x.outer_join::<D, D, _, MA>(&y, |_| {
                    fault();
                    Some(D::new(1))
                })),
                1 => drop(x.left_join::<D, D, _, MA>(&y, |_, v, _| {
                    fault();
                    Some(v.clone())
                })),
                2 => drop(x.right_join::<D, D, _, MA>(&y, |_, _, w| {
                    fault();
                    Some(w.clone())
                })),
                3 => drop(x.inner_join::<D, D, _, MA>(&y, |_, _, w| {
                    fault();
                    Some(w.clone())
                })),
                4 => x.outer_join_with(&y, |a| {
                    fault();
                    match a {
                        OuterJoinArg::Left(_, v) => turn().then_some(v),
                        OuterJoinArg::Right(_, w) => turn().then(|| w.clone()),
                        OuterJoinArg::Both(_, v, _) => turn().then_some(v),
                    }
                }),
                5 => x.left_join_with(&y, |_, v, _| {
                    fault();
                    turn().then_some(v)
                }),
                6 => x.right_join_with(&y, |_, v, w| {
                    fault();
                    turn().then(|| v.unwrap_or_else(|| w.clone()))
                }),
                7 => x.inner_join_with(&y, |_, v, _| {
                    fault();
                    turn().then_some(v)
                }),
                8 => x.merge_with(std::mem::take(&mut y)),
                9 => x.combine_with(std::mem::take(&mut y), |v, w| {
                    fault();
                    if turn() {
                        v
                    } else {
                        w
                    }
                }),
                10 => x.extend(std::mem::take(&mut y)),
                11 => {
                    x.insert(D::new(b.len() as u8), D::new(1));
                }
                12 => {
                    if let Some(v) = x.get_mut(&D::new(b.len() as u8)) {
                        *v = D::new(2);
                    }
                }
                13 => x.retain(|_| {
                    fault();
                    turn()
                }),
                14 => drop(x.clone()),
                15 => {
                    let r: VecMap<MB> = std::mem::take(&mut x).map_values(|v| {
                        fault();
                        v
                    });
                    drop(r)
                }
                16 => {
                    let mut i = std::mem::take(&mut x).into_iter();
                    let e = i.next();
                    drop(i);
                    drop(e);
                }
                _ => {
                    let s: VecSet<MA> = std::mem::take(&mut x).into();
                    drop(s.into_inner());
                }
            });
            valid_map(&mut x);
            valid_map(&mut y);
        }
        check(heap_live() == before, "every element is dropped");
    }
    fn h_total() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(12);
        let (na, nb) = (choice(2) == 1, choice(2) == 1);
        split();
        let before = heap_live();
        {
            let (a, b) = (sa.sorted::<u8>(), sb.sorted::<u8>());
            if op < 8 {
                let mut x = TotalVecSet::<A>::from(set::<A>(&a, false));
                let mut y = TotalVecSet::<A>::from(set::<A>(&b, false));
                if na {
                    x = !x;
                }
                if nb {
                    y = !y;
                }
                arm();
                attempt(|| match op {
                    0 => drop(&x | &y),
                    1 => drop(&x & &y),
                    2 => drop(&x - &y),
                    3 => drop(&x ^ &y),
                    4 => x |= std::mem::replace(&mut y, TotalVecSet::empty()),
                    5 => x &= std::mem::replace(&mut y, TotalVecSet::empty()),
                    6 => x -= std::mem::replace(&mut y, TotalVecSet::empty()),
                    _ => x ^= std::mem::replace(&mut y, TotalVecSet::empty()),
                });
                disarm();
                for z in [&mut x, &mut y] {
                    let e = D::new(7);
                    let f = D::new(7);
                    z.insert(e);
                    check(z.contains(&f), "the total set can still be used");
                    z.remove(&f);
                    check(!z.contains(&f), "the total set can still be used");
                }
            } else {
                let mut x = TotalVecMap::<D, MA>::new(map(&a, &a), D::new(1));
                let y = TotalVecMap::<D, MA>::new(map(&b, &b), D::new(2));
                arm();
                attempt(|| match op {
                    8 => drop(x.combine_ref(&y, |v, w| {
                        fault();
                        D::new(v.0.wrapping_add(*w.0))
                    })),
                    9 => drop(x.clone()),
                    10 => {
                        x = std::mem::replace(&mut x, TotalVecMap::constant(D::new(0))).map_values(|v| {
                            fault();
                            D::new(v.0.wrapping_add(1))
                        })
                    }
                    _ => out((x == y) as u64),
                });
                disarm();
                let v = x[&D::new(7)].0.clone();
                out(*v as u64);
                drop(y);
            }
        }
        check(heap_live() == before, "every element is dropped");
    }
    fn h_tree() { trees::<RadixTree<u8, D>>() }
    fn h_arc_tree() { trees::<ArcRadixTree<u8, D>>() }
    fn h_into_iter() {
        // what the iterator hands out, kept while the iterator is there
        let ka = Keys::pick(0);
        split();
        let m = ka.model(1);
        let before = heap_live();
        {
            let mut i = plant::<RadixTree<u8, D>>(&m).into_iter();
            let mut v = vec![];
            while let Some((k, w)) = i.next() {
                v.push((k.to_vec(), w));
            }
            for x in &v {
                out(*x.1 .0 as u64);
            }
            drop(v);
        }
        check(heap_live() == before, "every element is dropped");
    }
    fn h_into_iter_outlived() {
        // what the iterator hands out, kept longer than the iterator
        let ka = Keys::pick(0);
        split();
        let m = ka.model(1);
        let v: Vec<u8>;
        {
            let kept: Vec<_> = plant::<RadixTree<u8, D>>(&m).into_iter().map(|x| x.1).collect();
            v = kept.iter().map(|x| *x.0).collect();
        }
        check(v.len() == m.len(), "every value is handed out");
    }
}
#[inline(never)]
fn plant<T: AbstractRadixTreeMut<u8, D>>(m: &Model) -> T {
    let mut t = T::empty();
    for (k, v) in m {
        t.insert(k, D::new(*v));
    }
    t
}
/// still a tree: its keys ascend, and it can be read, changed and dropped
#[inline(never)]
fn valid_tree<T: AbstractRadixTreeMut<u8, D>>(t: &mut T) {
    disarm();
    let mut ok = true;
    let mut last: Option<Vec<u8>> = None;
    let all: Vec<(Vec<u8>, u8)> = t.iter().map(|(k, v)| (k.to_vec(), *v.0)).collect();
    for (k, v) in all {
        if let Some(l) = &last {
            ok &= vh::tree::order(l, &k) == Ordering::Less;
        }
        ok &= t.get(&k).map(|x| *x.0) == Some(v);
        last = Some(k);
    }
    check(ok, "the keys are still strictly ascending and are found");
    t.insert(&[7, 7], D::new(9));
    check(t.get(&[7, 7]).map(|x| *x.0) == Some(9), "the tree can still be used");
    // nothing but the new key
    let n = t.iter().filter(|x| starts(&x.0.to_vec(), &[7, 7])).count();
    check(n >= 1, "the tree has the key inserted");
}
#[inline(never)]
fn trees<T>()
where
    T: AbstractRadixTreeMut<u8, D, Materialized = T> + 'static,
{
    let (ka, kb) = (Keys::pick(0), Keys::pick(4));
    let op = choice(19);
    split();
    let (a, b) = (ka.model(1), kb.model(51));
    // whatever is made once
    drop(plant::<T>(&vec![]));
    let before = heap_live();
    {
        let (mut x, mut y): (T, T) = (plant(&a), plant(&b));
        let snapshot = x.clone();
        let n = Cell::new(0);
        let turn = || {
            n.set(n.get() + 1);
            n.get() % 3 != 2
        };
        FAULT.left.set(1);
        FAULT.calls.set(param(8) as u32);
        attempt(|| match op {
            0 => x.insert(&[3, 4], D::new(4)),
            1 => drop(x.union(&y)),
            2 => drop(x.intersection(&y)),
            3 => drop(x.difference(&y)),
            4 => drop(x.outer_combine(&y, |_, w| {
                fault();
                turn().then(|| w.clone())
            })),
            5 => drop(x.inner_combine(&y, |_, w| {
                fault();
                turn().then(|| w.clone())
            })),
            6 => drop(x.left_combine(&y, |v, _| {
                fault();
                turn().then(|| v.clone())
            })),
            7 => x.union_with(&y),
            8 => x.intersection_with(&y),
            9 => x.difference_with(&y),
            10 => x.outer_combine_with(&y, |v, _| {
                fault();
                *v = D::new(5);
                turn()
            }),
            11 => x.inner_combine_with(&y, |v, _| {
                fault();
                *v = D::new(5);
                turn()
            }),
            12 => x.left_combine_with(&y, |v, _| {
                fault();
                *v = D::new(5);
                turn()
            }),
            13 => x.remove_prefix_with(&y, |_| {
                fault();
                turn()
            }),
            14 => x.retain_prefix_with(&y, |_| {
                fault();
                turn()
            }),
            15 => drop(x.filter_prefix(&[1])),
            16 => x.prepend(&[1]),
            17 => drop(x.clone()),
            _ => {
                let mut i = std::mem::take(&mut x).into_iter();
                i.next();
            }
        });
        valid_tree(&mut x);
        valid_tree(&mut y);
        disarm();
        let mut same = true;
        let mut i = 0;
        for (_, v) in snapshot.iter() {
            same &= i < a.len() && *v.0 == a[i].1;
            i += 1;
        }
        check(same && i == a.len(), "a snapshot is as it was");
    }
    check(heap_live() == before, "every element is dropped");
}
