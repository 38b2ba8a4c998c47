//! C11: TotalVecSet predicates are exact
use vec_collections::total_vec_set::*;
use vec_collections::*;
use vh::*;

type S = TotalVecSet<[u8; 3]>;
#[inline(never)]
fn total(a: &[u8], neg: bool, spilled: bool) -> S {
    let s: S = set_of(a, spilled && a.len() <= 3).into();
    if neg {
        !s
    } else {
        s
    }
}
harnesses! {
    fn h_predicates() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let (na, nb, spilled) = (choice(2) == 1, choice(2) == 1, choice(2) == 1);
        let which = choice(4);
        split();
        let (a, b) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (x, y) = (total(&a, na, spilled), total(&b, nb, false));
        // fewer than 256 values are listed, so some value is in neither list: it is in x iff na, in y iff nb.
        // Every other value is one of those listed.
        let (mut sub, mut sup, mut dis) = (!na | nb, !nb | na, !(na & nb));
        for k in a.iter().chain(b.iter()) {
            let (p, q) = (na ^ member(&a, k), nb ^ member(&b, k));
            sub &= !p | q;
            sup &= !q | p;
            dis &= !(p & q);
        }
        match which {
            0 => check(x.is_subset(&y) == sub, "is_subset is exact"),
            1 => check(x.is_superset(&y) == sup, "is_superset is exact"),
            2 => check(x.is_disjoint(&y) == dis, "is_disjoint is exact"),
            _ => {
                check(x.is_empty() == (!na & a.is_empty()), "is_empty is exact");
                check(x.is_all() == (na & a.is_empty()), "is_all is exact");
                check(x.is_superset(&y) == y.is_subset(&x), "superset is the converse of subset");
            }
        }
        out(sub as u64);
        out(sup as u64);
        out(dis as u64);
    }
}
