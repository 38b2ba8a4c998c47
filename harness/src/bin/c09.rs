//! C09: equality, ordering and hashing reflect contents only
use std::cmp::Ordering;
use vec_collections::total_vec_map::*;
use vec_collections::total_vec_set::*;
use vec_collections::*;
use vh::*;

/// the set of the given elements, arrived at in different ways
#[inline(never)]
fn set<T: Sym, A: Array<Item = T>>(a: &[T], route: usize) -> VecSet<A> {
    match route {
        0 => set_of(a, false),
        1 => set_of(a, a.len() <= A::size()),
        2 => {
            // removed again: an element that may or may not be there
            let e = T::sym();
            let mut x: VecSet<A> = set_of(a, false);
            if x.insert(e) {
                x.remove(&e);
            }
            x
        }
        3 => {
            // the union of two halves
            let m = a.len() / 2;
            let (l, r): (VecSet<A>, VecSet<A>) = (set_of(&a[..m], false), set_of(&a[m..], false));
            &l | &r
        }
        _ => {
            let mut x: VecSet<A> = set_of(a, a.len() <= A::size());
            x.shrink_to_fit();
            x
        }
    }
}
#[inline(never)]
fn map<K: Sym + 'static, A: Array<Item = (K, u8)>>(k: &[K], v: &[u8], route: usize) -> VecMap<A> {
    match route {
        0 => map_of(k, v, false),
        1 => map_of(k, v, k.len() <= A::size()),
        2 => {
            // every value overwritten
            let mut x: VecMap<A> = map_of(k, &any::<u8>(k.len()), false);
            for i in 0..k.len() {
                x.insert(k[i], v[i]);
            }
            x
        }
        _ => {
            let m = k.len() / 2;
            let mut x: VecMap<A> = map_of(&k[m..], &v[m..], false);
            let y: VecMap<A> = map_of(&k[..m], &v[..m], false);
            x.merge_with(y);
            x
        }
    }
}
#[inline(never)]
fn agree<X: Ord + std::hash::Hash>(x: &X, y: &X, lt: bool, eq: bool) {
    check((x == y) == eq, "equal exactly when the contents are");
    check((x != y) != eq, "!= is the negation of ==");
    let o = x.cmp(y);
    check((o == Ordering::Less) == lt, "the order is the lexicographic one");
    check((o == Ordering::Equal) == eq, "the order is consistent with equality");
    check(x.partial_cmp(y) == Some(o), "partial_cmp agrees with cmp");
    check(y.cmp(x) == o.reverse(), "cmp is antisymmetric");
    check((x < y) == lt && (x <= y) == (lt | eq), "the operators agree with cmp");
    let (g, h) = (hashed(x), hashed(y));
    check(!eq | same(&g, &h), "equal collections feed the same to a hasher");
    out(lt as u64);
    out(eq as u64);
}
#[inline(never)]
fn sets<T: Sym + std::hash::Hash, A: Array<Item = T>>() {
    let (sa, sb) = (Shape::pick(0), Shape::pick(3));
    let (ra, rb) = (choice(5), choice(5));
    split();
    let (a, b) = (sa.sorted::<T>(), sb.sorted::<T>());
    let (x, y): (VecSet<A>, VecSet<A>) = (set(&a, ra), set(&b, rb));
    let (lt, eq) = lex(&a, &b);
    agree(&x, &y, lt, eq);
}
#[inline(never)]
fn clones() {
    let sa = Shape::pick(0);
    let ra = choice(4);
    split();
    let k = sa.sorted::<u8>();
    let v = any::<u8>(k.len());
    let x: VecMap<[(u8, u8); 2]> = map(&k, &v, ra);
    let y = x.clone();
    agree(&x, &y, false, true);
    check(same_map(&k, &v, y.as_ref()), "a clone has the same contents");
    let x: VecSet<[u8; 2]> = set(&k, ra);
    let y = x.clone();
    agree(&x, &y, false, true);
    check(same(&k, y.as_ref()), "a clone has the same contents");
}
harnesses! {
    fn h_set() { sets::<u8, [u8; 2]>() }
    fn h_set_wide() { sets::<i32, [i32; 3]>() }
    fn h_map() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let (ra, rb) = (choice(4), choice(4));
        split();
        let (ka, kb) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (va, vb) = (any::<u8>(ka.len()), any::<u8>(kb.len()));
        let (x, y): (VecMap<[(u8, u8); 2]>, VecMap<[(u8, u8); 2]>) = (map(&ka, &va, ra), map(&kb, &vb, rb));
        let (lt, eq) = lex(&zip(&ka, &va), &zip(&kb, &vb));
        agree(&x, &y, lt, eq);
    }
    fn h_clone() { clones() }
    fn h_total_set() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let (ra, rb) = (choice(5), choice(5));
        let (na, nb) = (choice(2) == 1, choice(2) == 1);
        split();
        let (a, b) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (mut x, mut y): (TotalVecSet<[u8; 2]>, TotalVecSet<[u8; 2]>) = (set(&a, ra).into(), set(&b, rb).into());
        if na {
            x = !x;
        }
        if nb {
            y = !&y;
        }
        // fewer than all values are listed: the same members is the same list and polarity
        let eq = same(&a, &b) & (na == nb);
        check((x == y) == eq, "equal exactly when the members are");
        let (g, h) = (hashed(&x), hashed(&y));
        check(!eq | same(&g, &h), "equal sets feed the same to a hasher");
        check(x.clone() == x, "a clone is equal");
        out(eq as u64);
    }
    fn h_total_map() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let (ra, rb) = (choice(4), choice(4));
        split();
        let (ka, kb) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (va, vb) = (some_any(ka.len(), sa.kind != 0), some_any(kb.len(), sb.kind != 0));
        let (da, db) = (u8(), u8());
        type M = TotalVecMap<u8, [(u8, u8); 2]>;
        let (x, y) = (M::new(map(&ka, &va, ra), da), M::new(map(&kb, &vb, rb), db));
        // the same function: the same default, and the same value at every key listed
        let mut eq = da == db;
        for k in ka.iter().chain(kb.iter()) {
            let (l, r) = (lookup(&ka, &va, k), lookup(&kb, &vb, k));
            let l = (l.1 & ones(l.0)) | (da & ones(!l.0));
            let r = (r.1 & ones(r.0)) | (db & ones(!r.0));
            eq &= l == r;
        }
        check((x == y) == eq, "equal exactly when they are the same function");
        let o = x.cmp(&y);
        check((o == Ordering::Equal) == eq, "the order is consistent with equality");
        check(x.partial_cmp(&y) == Some(o) && y.cmp(&x) == o.reverse(), "the order is antisymmetric");
        let (g, h) = (hashed(&x), hashed(&y));
        check(!eq | same(&g, &h), "equal maps feed the same to a hasher");
        check(x.clone() == x, "a clone is equal");
        out(eq as u64);
    }
    fn h_total_map_order() {
        let mut m = vec![];
        for _ in 0..3 {
            let n = choice(param(0) + 1);
            let k = ascending::<u8>(n);
            let v = any::<u8>(n);
            m.push(TotalVecMap::<u8, [(u8, u8); 2]>::new(map(&k, &v, 0), u8()));
        }
        check(!(m[0] < m[1] && m[1] < m[2]) || m[0] < m[2], "the order is transitive");
    }
}
