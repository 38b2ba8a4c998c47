//! C23: small collections and shrinking in-place operations do not allocate
use vec_collections::*;
use vh::*;

type A = [u8; 4];
/// asserts that nothing is allocated by `f`
#[inline(never)]
fn none<F: FnOnce()>(f: F) {
    let n = alloc_count();
    f();
    check(alloc_count() == n, "no heap allocation");
}
fn total(s: &[u8]) -> u64 {
    let mut r = 0;
    for x in s {
        r += *x as u64;
    }
    r
}
#[inline(never)]
fn small_set<X: Array<Item = u8>>() {
    // operands and results that fit
    let cap = X::size();
    let (na, nb) = (range(0, param(0).min(cap)), range(0, param(1).min(cap)));
    let op = choice(18);
    split();
    let (a, b) = (ascending::<u8>(na), ascending::<u8>(nb));
    let n = paired(&a, &b).len();
    let e = u8();
    none(|| {
        let mut x: VecSet<X> = a.iter().copied().collect();
        let y: VecSet<X> = b.iter().copied().collect();
        let r: VecSet<X> = match op {
            0 if n <= cap => &x | &y,
            1 => &x & &y,
            2 => &x - &y,
            3 if n <= cap => &x ^ &y,
            4 if n <= cap => {
                for e in &b {
                    x.insert(*e);
                }
                x
            }
            5 if na < cap => {
                x.insert(e);
                x.remove(&e);
                x
            }
            6 => x.clone(),
            7 => {
                x.retain(|y| *y > e);
                x
            }
            8 => x.difference(&y),
            9 => x.intersection(&y),
            10 if n <= cap => x.union(&y),
            11 => {
                x &= &y;
                x
            }
            12 => {
                x -= y;
                x
            }
            13 => {
                x &= y;
                x
            }
            14 => {
                x -= &y;
                x
            }
            15 if n <= cap => x.symmetric_difference(&y),
            16 => {
                x.remove(&e);
                x
            }
            _ => VecSet::single(e),
        };
        check(r.len() <= cap, "fits");
        out(total(r.as_ref()));
    });
}
#[inline(never)]
fn small_union_with<X: Array<Item = u8>>() {
    // the in-place forms that can grow
    let cap = X::size();
    let (na, nb) = (range(0, param(0).min(cap)), range(0, param(1).min(cap)));
    let op = choice(6);
    split();
    let (a, b) = (ascending::<u8>(na), ascending::<u8>(nb));
    let n = paired(&a, &b).len();
    if n > cap {
        return;
    }
    none(|| {
        let mut x: VecSet<X> = a.iter().copied().collect();
        let y: VecSet<X> = b.iter().copied().collect();
        match op {
            0 => x |= &y,
            1 => x |= y,
            2 => x ^= &y,
            3 => x ^= y,
            4 => x.extend(b.iter().copied()),
            _ => x.union_with(&y),
        }
        out(total(x.as_ref()));
    });
}
#[inline(never)]
fn small_map<X: Array<Item = (u8, u8)>>() {
    let cap = X::size();
    let (na, nb) = (range(0, param(0).min(cap)), range(0, param(1).min(cap)));
    let op = choice(12);
    split();
    let (a, b) = (ascending::<u8>(na), ascending::<u8>(nb));
    let n = paired(&a, &b).len();
    let e = u8();
    none(|| {
        let mut x: VecMap<X> = a.iter().map(|k| (*k, 1)).collect();
        let y: VecMap<X> = b.iter().map(|k| (*k, 2)).collect();
        match op {
            0 if n <= cap => x = x.outer_join(&y, |_| Some(3)),
            1 => x = x.left_join(&y, |_, v, _| Some(*v)),
            2 => x = x.right_join(&y, |_, _, w| Some(*w)),
            3 => x = x.inner_join(&y, |_, v, _| Some(*v)),
            4 => x = x.clone(),
            5 if na < cap => {
                x.insert(e, 1);
            }
            6 => x.retain(|(k, _)| *k > e),
            7 => x = x.map_values(|v| v + 1),
            8 => x.left_join_with(&y, |_, v, _| Some(v)),
            9 => x.inner_join_with(&y, |_, v, w| if *w > 1 { Some(v) } else { None }),
            10 => x = VecMap::single((e, e)),
            11 if n <= cap => {
                for k in &b {
                    x.insert(*k, 2);
                }
            }
            _ => {}
        }
        check(x.len() <= cap, "fits");
        let mut s = 0;
        for (k, v) in x.iter() {
            s += *k as u64 + *v as u64;
        }
        out(s);
    });
}
#[inline(never)]
fn small_map_with<X: Array<Item = (u8, u8)>>() {
    // the in-place forms that can grow
    let cap = X::size();
    let (na, nb) = (range(0, param(0).min(cap)), range(0, param(1).min(cap)));
    let op = choice(5);
    split();
    let (a, b) = (ascending::<u8>(na), ascending::<u8>(nb));
    let n = paired(&a, &b).len();
    if n > cap {
        return;
    }
    none(|| {
        let mut x: VecMap<X> = a.iter().map(|k| (*k, 1)).collect();
        let y: VecMap<X> = b.iter().map(|k| (*k, 2)).collect();
        match op {
            0 => x.outer_join_with(&y, |_| Some(3)),
            1 => x.right_join_with(&y, |_, _, w| Some(*w)),
            2 => x.merge_with(y),
            3 => x.combine_with(y, |v, w| v + w),
            _ => x.extend(b.iter().map(|k| (*k, 2))),
        }
        let mut s = 0;
        for (k, v) in x.iter() {
            s += *k as u64 + *v as u64;
        }
        out(s);
    });
}
/// operands that are on the heap although they would fit
#[inline(never)]
fn heap<X: Array<Item = u8>, Y: Array<Item = (u8, u8)>>() {
    let cap = X::size();
    let (na, nb) = (range(0, param(0).min(cap)), range(0, param(1).min(cap)));
    let op = choice(9);
    split();
    let (a, b) = (ascending::<u8>(na), ascending::<u8>(nb));
    if paired(&a, &b).len() > cap {
        return;
    }
    let (x, y): (VecSet<X>, VecSet<X>) = (set_of(&a, true), set_of(&b, true));
    let (m, n): (VecMap<Y>, VecMap<Y>) = (map_of(&a, &a, true), map_of(&b, &b, true));
    none(|| {
        let mut r: VecSet<X> = VecSet::empty();
        let mut s: VecMap<Y> = VecMap::empty();
        match op {
            0 => r = x.clone(),
            1 => r = &x | &y,
            2 => r = &x & &y,
            3 => r = &x - &y,
            4 => r = &x ^ &y,
            5 => s = m.clone(),
            6 => s = m.outer_join(&n, |_| Some(3)),
            7 => s = m.inner_join(&n, |_, v, _| Some(*v)),
            _ => {
                r.union_with(&x);
                s.outer_join_with(&n, |_| Some(3));
            }
        }
        out(total(r.as_ref()));
        out(s.len() as u64);
    });
}
harnesses! {
    fn h_heap() { heap::<[u8; 4], [(u8, u8); 4]>() }
    fn h_small_set_1() { small_set::<[u8; 1]>() }
    fn h_small_union_with_1() { small_union_with::<[u8; 1]>() }
    fn h_small_map_1() { small_map::<[(u8, u8); 1]>() }
    fn h_small_map_with_1() { small_map_with::<[(u8, u8); 1]>() }
    fn h_small_set_2() { small_set::<[u8; 2]>() }
    fn h_small_union_with_2() { small_union_with::<[u8; 2]>() }
    fn h_small_map_2() { small_map::<[(u8, u8); 2]>() }
    fn h_small_map_with_2() { small_map_with::<[(u8, u8); 2]>() }
    fn h_small_set_4() { small_set::<[u8; 4]>() }
    fn h_small_union_with_4() { small_union_with::<[u8; 4]>() }
    fn h_small_map_4() { small_map::<[(u8, u8); 4]>() }
    fn h_small_map_with_4() { small_map_with::<[(u8, u8); 4]>() }
    fn h_small_set_8() { small_set::<[u8; 8]>() }
    fn h_small_union_with_8() { small_union_with::<[u8; 8]>() }
    fn h_small_map_8() { small_map::<[(u8, u8); 8]>() }
    fn h_small_map_with_8() { small_map_with::<[(u8, u8); 8]>() }
    fn h_shrinking() {
        // in-place intersection and difference, whatever the sizes
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(8);
        split();
        let (a, b) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let mut x: VecSet<[u8; 2]> = set_of(&a, false);
        let mut y: VecSet<[u8; 3]> = set_of(&b, false);
        let mut m: VecMap<[(u8, u8); 2]> = map_of(&a, &a, false);
        let n: VecMap<[(u8, u8); 3]> = map_of(&b, &b, false);
        none(|| {
            match op {
                0 => x &= &y,
                1 => x &= std::mem::take(&mut y),
                2 => x -= &y,
                3 => x -= std::mem::take(&mut y),
                4 => x.intersection_with(&y),
                5 => x.difference_with(&y),
                6 => m.inner_join_with(&n, |_, v, w| if v < 100 { Some(*w) } else { None }),
                _ => m.left_join_with(&n, |_, v, w| if w.is_some() { Some(v) } else { None }),
            }
        });
        outs(x.as_ref());
    }
    fn h_shrink_to_fit() {
        let n = choice(param(0) + 1);
        let more = choice(param(1) + 1);
        split();
        let a = ascending::<u8>(n + more);
        let mut x: VecSet<A> = set_of(&a, n + more <= 4);
        let mut left = n + more;
        x.retain(|_| {
            left -= 1;
            left < n
        });
        check(x.len() == n, "set up");
        x.shrink_to_fit();
        check(same(x.as_ref(), &a[more..]), "shrink_to_fit keeps the elements");
        let live = heap_live();
        let s = x.into_inner();
        check(s.spilled() == (n > 4), "a set that fits is inline again");
        drop(s);
        check((heap_live() != live) == (n > 4), "a set that fits owns no heap block");
        out(n as u64);
    }
}
