//! C02: in-place set operations agree with the set algebra
use vec_collections::*;
use vh::*;

/// assigning operators
fn assign<T: Sym, A: Array<Item = T>, B: Array<Item = T>>(owned: bool) {
    let (sa, sb) = (Shape::pick(0), Shape::pick(3));
    let op = choice(4);
    split();
    let (a, b): (Vec<T>, Vec<T>) = (sa.sorted(), sb.sorted());
    let mut x: VecSet<A> = a.iter().cloned().collect();
    let y: VecSet<B> = b.iter().cloned().collect();
    if owned {
        match op {
            0 => x |= y,
            1 => x &= y,
            2 => x -= y,
            _ => x ^= y,
        }
    } else {
        match op {
            0 => x |= &y,
            1 => x &= &y,
            2 => x -= &y,
            _ => x ^= &y,
        }
        check(same(y.as_ref(), &b), "right side unchanged");
    }
    check_set(op, &a, &b, x.as_ref());
}
/// *_with methods, and extend with an unsorted sequence
fn with<T: Sym, A: Array<Item = T>, B: Array<Item = T>>() {
    let (sa, sb) = (Shape::pick(0), Shape::pick(3));
    let op = choice(4);
    split();
    let (a, b): (Vec<T>, Vec<T>) = (sa.sorted(), sb.sorted());
    let mut x: VecSet<A> = a.iter().cloned().collect();
    let y: VecSet<B> = b.iter().cloned().collect();
    match op {
        0 => x.union_with(&y),
        1 => x.intersection_with(&y),
        2 => x.difference_with(&y),
        _ => x.xor_with(&y),
    }
    check(same(y.as_ref(), &b), "right side unchanged");
    check_set(op, &a, &b, x.as_ref());
}
fn extend<T: Sym, A: Array<Item = T>>() {
    let (sa, sb) = (Shape::pick(0), Shape::pick(3));
    split();
    let (a, b): (Vec<T>, Vec<T>) = (sa.sorted(), any(sb.n));
    let mut x: VecSet<A> = a.iter().cloned().collect();
    x.extend(b.iter().cloned());
    check_set(0, &a, &b, x.as_ref());
}

harnesses! {
    fn h_assign_owned() { assign::<u8, [u8; 4], [u8; 2]>(true) }
    fn h_assign_ref() { assign::<u8, [u8; 2], [u8; 4]>(false) }
    fn h_assign_owned_wide() { assign::<u32, [u32; 2], [u32; 8]>(true) }
    fn h_with() { with::<u8, [u8; 4], [u8; 2]>() }
    fn h_extend() { extend::<u8, [u8; 4]>() }
}
