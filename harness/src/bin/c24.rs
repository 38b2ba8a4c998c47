//! C24: iteration and conversion yield exactly the sorted contents
use vec_collections::*;
use vh::*;

/// asserts that the iterator gives exactly the items, with exact size hints throughout
#[inline(never)]
fn gives<I: Iterator, F: Fn(I::Item, usize) -> bool>(mut i: I, n: usize, f: F) {
    let mut ok = true;
    for k in 0..n {
        check(i.size_hint() == (n - k, Some(n - k)), "the size hint is what is still to come");
        match i.next() {
            Some(x) => ok &= f(x, k),
            None => check(false, "as many items as there are elements"),
        }
    }
    check(ok, "the elements in order");
    check(i.size_hint() == (0, Some(0)), "nothing left");
    check(i.next().is_none(), "no more items than there are elements");
    check(i.next().is_none(), "nor later");
}
#[inline(never)]
fn set<T: Sym, A: Array<Item = T>>() {
    let sa = Shape::pick(0);
    let op = choice(8);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    split();
    let a = sa.sorted::<T>();
    let x: VecSet<A> = set_of(&a, spilled);
    let n = a.len();
    match op {
        0 => gives(x.iter(), n, |e, i| *e == a[i]),
        1 => gives((&x).into_iter(), n, |e, i| *e == a[i]),
        2 => gives(AbstractVecSet::iter(&x), n, |e, i| *e == a[i]),
        3 => gives(x.into_iter(), n, |e, i| e == a[i]),
        4 => check(same(x.as_ref(), &a), "as a slice"),
        5 => {
            let v: Vec<T> = x.into();
            check(same(&v, &a), "as a vector");
            outs(&v);
        }
        6 => {
            let v: smallvec::SmallVec<A> = x.into();
            check(same(&v, &a), "as a SmallVec");
        }
        _ => {
            let v = x.into_inner();
            check(same(&v, &a), "into_inner");
        }
    }
}
#[inline(never)]
fn map<A: Array<Item = (u8, u8)>>() {
    let sa = Shape::pick(0);
    let op = choice(7);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    split();
    let k = sa.sorted::<u8>();
    let v = any::<u8>(k.len());
    let x: VecMap<A> = map_of(&k, &v, spilled);
    let n = k.len();
    match op {
        0 => gives(x.iter(), n, |(a, b), i| (*a == k[i]) & (*b == v[i])),
        1 => gives((&x).into_iter(), n, |(a, b), i| (*a == k[i]) & (*b == v[i])),
        2 => gives(x.into_iter(), n, |(a, b), i| (a == k[i]) & (b == v[i])),
        3 => check(same_map(&k, &v, x.as_ref()), "as a slice"),
        4 => {
            let s: smallvec::SmallVec<A> = x.into();
            check(same_map(&k, &v, &s), "as a SmallVec");
        }
        5 => check(same_map(&k, &v, &x.into_inner()), "into_inner"),
        _ => {
            let s: VecSet<A> = x.into();
            check(same_map(&k, &v, s.as_ref()), "as a set of pairs");
        }
    }
    outs(&k);
}
harnesses! {
    fn h_set() { set::<u8, [u8; 4]>() }
    fn h_set_wide() { set::<i64, [i64; 1]>() }
    fn h_map() { map::<[(u8, u8); 3]>() }
    fn h_provided() {
        // what is derived from next
        let sa = Shape::pick(0);
        let op = choice(5);
        let spilled = choice(2) == 1;
        split();
        let k = sa.sorted::<u8>();
        let n = k.len();
        match op {
            0 => provided(set_of::<u8, [u8; 4]>(&k, spilled).iter(), n, |e, i| *e == k[i]),
            1 => provided(set_of::<u8, [u8; 4]>(&k, spilled).into_iter(), n, |e, i| e == k[i]),
            2 => {
                let v = any::<u8>(n);
                provided(map_of::<u8, [(u8, u8); 3]>(&k, &v, spilled).iter(), n, |(a, b), i| (*a == k[i]) & (*b == v[i]))
            }
            3 => {
                let v = any::<u8>(n);
                provided(map_of::<u8, [(u8, u8); 3]>(&k, &v, spilled).into_iter(), n, |(a, b), i| (a == k[i]) & (b == v[i]))
            }
            _ => {
                // the least and the greatest
                let x: VecSet<[u8; 4]> = set_of(&k, spilled);
                check(x.iter().min().copied() == k.first().copied(), "the least element");
                check(x.iter().max().copied() == k.last().copied(), "the greatest element");
                check(x.iter().eq(k.iter()), "equal to the elements as an iterator");
                let w = u8();
                check(x.iter().position(|e| *e == w).is_some() == member(&k, &w), "position finds members");
            }
        }
    }
    fn h_sorted_ops() {
        // sorted iterator operations agree with the set operations
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(4);
        let owned = choice(2) == 1;
        split();
        let (a, b) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (x, y): (VecSet<[u8; 4]>, VecSet<[u8; 2]>) = (set_of(&a, false), set_of(&b, false));
        let e: VecSet<[u8; 4]> = match op {
            0 => &x | &y,
            1 => &x & &y,
            2 => &x - &y,
            _ => &x ^ &y,
        };
        let mut r: Vec<u8> = vec![];
        if owned {
            let (i, j) = (x.into_iter(), y.into_iter());
            match op {
                0 => r.extend(SortedIterator::union(i, j)),
                1 => r.extend(SortedIterator::intersection(i, j)),
                2 => r.extend(SortedIterator::difference(i, j)),
                _ => r.extend(SortedIterator::symmetric_difference(i, j)),
            }
        } else {
            let (i, j) = (x.iter(), y.iter());
            match op {
                0 => r.extend(SortedIterator::union(i, j)),
                1 => r.extend(SortedIterator::intersection(i, j)),
                2 => r.extend(SortedIterator::difference(i, j)),
                _ => r.extend(SortedIterator::symmetric_difference(i, j)),
            }
        }
        check(same(&r, e.as_ref()), "the same elements as the set operation");
        check_set(op, &a, &b, &r);
    }
    fn h_sorted_pairs() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(4);
        split();
        let (ka, kb) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (va, vb) = (any::<u8>(ka.len()), any::<u8>(kb.len()));
        let x: VecMap<[(u8, u8); 2]> = map_of(&ka, &va, false);
        let y: VecMap<[(u8, u8); 2]> = map_of(&kb, &vb, false);
        let mut r: Vec<(u8, Option<u8>, Option<u8>)> = vec![];
        let (i, j) = (x.into_iter(), y.into_iter());
        match op {
            0 => r.extend(SortedPairIterator::outer_join(i, j).map(|(k, (v, w))| (k, v, w))),
            1 => r.extend(SortedPairIterator::left_join(i, j).map(|(k, (v, w))| (k, Some(v), w))),
            2 => r.extend(SortedPairIterator::right_join(i, j).map(|(k, (v, w))| (k, v, Some(w)))),
            _ => r.extend(SortedPairIterator::join(i, j).map(|(k, (v, w))| (k, Some(v), Some(w)))),
        }
        let mut n = 0;
        let mut ok = true;
        for (k, i, j) in paired(&ka, &kb) {
            let covered = match op {
                0 => true,
                1 => i.is_some(),
                2 => j.is_some(),
                _ => i.is_some() && j.is_some(),
            };
            if covered {
                check(n < r.len(), "every key the join covers");
                let e = &r[n];
                ok &= (e.0 == k) & (e.1.is_some() == i.is_some()) & (e.2.is_some() == j.is_some());
                if let (Some(v), Some(i)) = (e.1, i) {
                    ok &= v == va[i];
                }
                if let (Some(w), Some(j)) = (e.2, j) {
                    ok &= w == vb[j];
                }
                n += 1;
            }
        }
        check(n == r.len(), "no other key");
        check(ok, "the keys in order, with the values of both maps");
        out(n as u64);
    }
}
