//! C05: insert, remove and retain keep a VecSet an exact sorted set
use vec_collections::*;
use vh::*;

#[inline(never)]
fn step<T: Sym, A: Array<Item = T>>() {
    let sa = Shape::pick(0);
    let op = choice(4);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    let shrink = choice(2) == 1;
    let e: T = near(param(3));
    split();
    let a: Vec<T> = sa.sorted();
    let mut x: VecSet<A> = set_of(&a, spilled);
    check(same(x.as_ref(), &a), "set up");
    if shrink {
        x.shrink_to_fit();
        check(same(x.as_ref(), &a), "shrink_to_fit keeps the elements");
    }
    let w = T::sym();
    let was = member(&a, &w);
    match op {
        0 => {
            let r = x.insert(e);
            check(r == !member(&a, &e), "insert reports whether it was absent");
            check(member(x.as_ref(), &w) == (was | (w == e)), "insert makes exactly that element present");
            out(r as u64);
        }
        1 => {
            let r = x.remove(&e);
            check(r == member(&a, &e), "remove reports whether it was present");
            check(member(x.as_ref(), &w) == (was & (w != e)), "remove makes exactly that element absent");
            out(r as u64);
        }
        2 => {
            // any predicate: one answer per element
            let d = answers(a.len());
            let mut i = 0;
            let (mut order, mut yes) = (true, false);
            x.retain(|y| {
                order &= *y == a[i];
                let k = d[i] & 1 == 1;
                yes |= k & (*y == w);
                i += 1;
                k
            });
            check(i == a.len(), "the predicate sees every element once");
            check(order, "the predicate sees the elements in order");
            check(member(x.as_ref(), &w) == yes, "retain keeps exactly what the predicate accepts");
        }
        _ => {
            x.shrink_to_fit();
            x.insert(e);
            x.shrink_to_fit();
            x.remove(&e);
            x.shrink_to_fit();
            check(member(x.as_ref(), &w) == (was & (w != e)), "insert, then remove");
        }
    }
    check(is_ascending(x.as_ref()), "strictly ascending");
    check(x.len() == x.as_ref().len(), "len");
    outs(x.as_ref());
}
harnesses! {
    fn h_step() { step::<u8, [u8; 4]>() }
    fn h_step_wide() { step::<i32, [i32; 2]>() }
    fn h_steps() {
        // a whole history of operations
        let n = param(0);
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(choice(3));
        }
        split();
        let w = u8();
        let mut has = false;
        let mut x: VecSet<[u8; 2]> = VecSet::empty();
        for op in ops {
            let e = u8();
            let before = member(x.as_ref(), &e);
            match op {
                0 => {
                    check(x.insert(e) == !before, "insert reports whether it was absent");
                    has |= e == w;
                }
                1 => {
                    check(x.remove(&e) == before, "remove reports whether it was present");
                    has &= e != w;
                }
                _ => {
                    x.retain(|y| *y > e);
                    has &= w > e;
                }
            }
            check(is_ascending(x.as_ref()), "strictly ascending");
            check(member(x.as_ref(), &w) == has, "exactly the elements of the history");
        }
        outs(x.as_ref());
    }
}
