//! C03: VecSet predicates are exact
use vec_collections::*;
use vh::*;

/// branch free: number of elements of `a` that are in `b`
fn common<T: Sym>(a: &[T], b: &[T]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < a.len() {
        n += member(b, &a[i]) as usize;
        i += 1;
    }
    n
}
fn preds<T: Sym, A: Array<Item = T>, B: Array<Item = T>>() {
    let (sa, sb) = (Shape::pick(0), Shape::pick(3));
    split();
    let which = choice(3);
    let (a, b): (Vec<T>, Vec<T>) = (sa.sorted(), sb.sorted());
    let x: VecSet<A> = a.iter().cloned().collect();
    let y: VecSet<B> = b.iter().cloned().collect();
    let (r, e, id) = match which {
        0 => (x.is_subset(&y), common(&a, &b) == a.len(), "is_subset is exact"),
        1 => (x.is_superset(&y), common(&b, &a) == b.len(), "is_superset is exact"),
        _ => (x.is_disjoint(&y), common(&a, &b) == 0, "is_disjoint is exact"),
    };
    check(r == e, id);
    out(r as u64);
    check(same(x.as_ref(), &a) & same(y.as_ref(), &b), "operands unchanged");
}
fn probe<T: Sym, A: Array<Item = T>>() {
    let sa = Shape::pick(0);
    split();
    let a: Vec<T> = sa.sorted();
    let x: VecSet<A> = a.iter().cloned().collect();
    let w = T::sym();
    let r = x.contains(&w);
    check(r == member(&a, &w), "contains is exact");
    check(x.len() == a.len(), "len is exact");
    check(x.is_empty() == a.is_empty(), "is_empty is exact");
    check(AbstractVecSet::is_empty(&x) == a.is_empty(), "is_empty of the trait is exact");
    out(r as u64);
}
harnesses! {
    fn h_predicates() { preds::<u8, [u8; 4], [u8; 2]>() }
    fn h_predicates_wide() { preds::<u32, [u32; 2], [u32; 8]>() }
    fn h_contains() { probe::<u8, [u8; 4]>() }
}
