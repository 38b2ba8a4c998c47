//! C01: VecSet union / intersection / difference / xor are the exact operations
use vec_collections::*;
use vh::*;

fn run<T: Sym, A: Array<Item = T>, B: Array<Item = T>, C: Array<Item = T>>(form: usize) {
    let (sa, sb) = (Shape::pick(0), Shape::pick(3));
    let op = choice(4);
    split();
    let (a, b): (Vec<T>, Vec<T>) = (sa.sorted(), sb.sorted());
    let x: VecSet<A> = a.iter().cloned().collect();
    let y: VecSet<B> = b.iter().cloned().collect();
    if form == 0 {
        // inherent methods
        let r: VecSet<A> = match op {
            0 => x.union(&y),
            1 => x.intersection(&y),
            2 => x.difference(&y),
            _ => x.symmetric_difference(&y),
        };
        check_set(op, &a, &b, r.as_ref());
    } else if form == 1 {
        // methods of the abstract trait, any output capacity
        let r: VecSet<C> = match op {
            0 => AbstractVecSet::union(&x, &y),
            1 => AbstractVecSet::intersection(&x, &y),
            2 => AbstractVecSet::difference(&x, &y),
            _ => AbstractVecSet::symmetric_difference(&x, &y),
        };
        check_set(op, &a, &b, r.as_ref());
    } else {
        let r: VecSet<A> = match op {
            0 => &x | &y,
            1 => &x & &y,
            2 => &x - &y,
            _ => &x ^ &y,
        };
        check_set(op, &a, &b, r.as_ref());
    }
    check(same(x.as_ref(), &a) & same(y.as_ref(), &b), "operands unchanged");
}

harnesses! {
    fn h_inherent() { run::<u8, [u8; 2], [u8; 4], [u8; 2]>(0) }
    fn h_trait() { run::<i32, [i32; 4], [i32; 2], [i32; 8]>(1) }
    fn h_inherent_wide() { run::<u16, [u16; 8], [u16; 4], [u16; 2]>(0) }
    fn h_operators() { run::<u16, [u16; 4], [u16; 8], [u16; 2]>(2) }
}
