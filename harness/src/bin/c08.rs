//! C08: in-place VecMap joins agree with the relational result
use vec_collections::*;
use vh::*;

#[inline(never)]
fn join<K: Sym + 'static, A: Array<Item = (K, u8)>, B: Array<Item = (K, u8)>>() {
    let (sa, sb) = (Shape::pick(0), Shape::pick(3));
    let op = choice(4);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    split();
    let (ka, kb) = (sa.sorted::<K>(), sb.sorted::<K>());
    let (va, vb) = (any::<u8>(ka.len()), any::<u8>(kb.len()));
    let mut a: VecMap<A> = map_of(&ka, &va, spilled);
    let b: VecMap<B> = map_of(&kb, &vb, false);
    let l = Log::new(param(6));
    match op {
        0 => a.outer_join_with(&b, |x| match x {
            OuterJoinArg::Left(k, v) => l.call(*k, Some(v), None),
            OuterJoinArg::Right(k, w) => l.call(*k, None, Some(*w)),
            OuterJoinArg::Both(k, v, w) => l.call(*k, Some(v), Some(*w)),
        }),
        1 => a.left_join_with(&b, |k, v, w| l.call(*k, Some(v), w.copied())),
        2 => a.right_join_with(&b, |k, v, w| l.call(*k, v, Some(*w))),
        _ => a.inner_join_with(&b, |k, v, w| l.call(*k, Some(v), Some(*w))),
    }
    l.check(op, (&ka, &va), (&kb, &vb), a.as_ref());
    check(same_map(&kb, &vb, b.as_ref()), "the right map is unchanged");
}
#[inline(never)]
fn merge<K: Sym + 'static, A: Array<Item = (K, u8)>, B: Array<Item = (K, u8)>>() {
    let (sa, sb) = (Shape::pick(0), Shape::pick(3));
    let op = choice(3);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    split();
    let (ka, kb) = (sa.sorted::<K>(), sb.sorted::<K>());
    let (va, vb) = (any::<u8>(ka.len()), any::<u8>(kb.len()));
    let mut a: VecMap<A> = map_of(&ka, &va, spilled);
    let m = u8();
    match op {
        0 => a.merge_with(map_of::<K, B>(&kb, &vb, spilled)),
        1 => a.extend(zip(&kb, &vb)),
        // the function is arbitrary as far as a witness can tell: it depends on both values
        _ => a.combine_with(map_of::<K, B>(&kb, &vb, spilled), |v, w| v.wrapping_mul(3).wrapping_sub(w) ^ m),
    }
    let mut e = vec![];
    for (k, i, j) in paired(&ka, &kb) {
        e.push((k, match (i, j) {
            (Some(i), None) => va[i],
            (None, Some(j)) => vb[j],
            (Some(i), Some(j)) if op == 2 => va[i].wrapping_mul(3).wrapping_sub(vb[j]) ^ m,
            (_, j) => vb[j.unwrap_or(0)],
        }));
    }
    check_pairs(&e, a.as_ref());
}
/// extend with an unsorted sequence that has duplicates
#[inline(never)]
fn extend() {
    let (n, m) = (range(0, param(0)), range(0, param(1)));
    split();
    let ka = ascending::<u8>(n);
    let va = any::<u8>(n);
    let mut a: VecMap<[(u8, u8); 2]> = map_of(&ka, &va, false);
    let (kb, vb) = (any::<u8>(m), any::<u8>(m));
    a.extend(zip(&kb, &vb));
    let (mut k2, mut v2) = (ka, va);
    k2.extend_from_slice(&kb);
    v2.extend_from_slice(&vb);
    check_map(&k2, &v2, a.as_ref());
}
harnesses! {
    fn h_join() { join::<u8, [(u8, u8); 4], [(u8, u8); 2]>() }
    fn h_join_wide() { join::<i32, [(i32, u8); 1], [(i32, u8); 16]>() }
    fn h_merge() { merge::<u8, [(u8, u8); 4], [(u8, u8); 2]>() }
    fn h_merge_wide() { merge::<i64, [(i64, u8); 1], [(i64, u8); 4]>() }
    fn h_extend() { extend() }
}
