//! C07: VecMap joins produce exactly the relational result
use vec_collections::*;
use vh::*;

#[inline(never)]
fn join<K: Sym + 'static, A: Array<Item = (K, u8)>, B: Array<Item = (K, u8)>, R: Array<Item = (K, u8)>>() {
    let (sa, sb) = (Shape::pick(0), Shape::pick(3));
    let op = choice(4);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    split();
    let (ka, kb) = (sa.sorted::<K>(), sb.sorted::<K>());
    let (va, vb) = (any::<u8>(ka.len()), any::<u8>(kb.len()));
    let a: VecMap<A> = map_of(&ka, &va, spilled);
    let b: VecMap<B> = map_of(&kb, &vb, false);
    let l = Log::new(param(6));
    let r: VecMap<R> = match op {
        0 => a.outer_join(&b, |x| match x {
            OuterJoinArg::Left(k, v) => l.call(*k, Some(*v), None),
            OuterJoinArg::Right(k, w) => l.call(*k, None, Some(*w)),
            OuterJoinArg::Both(k, v, w) => l.call(*k, Some(*v), Some(*w)),
        }),
        1 => a.left_join(&b, |k, v, w| l.call(*k, Some(*v), w.copied())),
        2 => a.right_join(&b, |k, v, w| l.call(*k, v.copied(), Some(*w))),
        _ => a.inner_join(&b, |k, v, w| l.call(*k, Some(*v), Some(*w))),
    };
    l.check(op, (&ka, &va), (&kb, &vb), r.as_ref());
    check(same_map(&ka, &va, a.as_ref()), "the left map is unchanged");
    check(same_map(&kb, &vb, b.as_ref()), "the right map is unchanged");
}
harnesses! {
    fn h_join() { join::<u8, [(u8, u8); 4], [(u8, u8); 2], [(u8, u8); 3]>() }
    fn h_join_wide() { join::<i32, [(i32, u8); 1], [(i32, u8); 16], [(i32, u8); 0]>() }
}
