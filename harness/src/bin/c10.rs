//! C10: TotalVecSet operations are exact over all values, with complement
use vec_collections::total_vec_set::*;
use vec_collections::*;
use vh::*;

type S = TotalVecSet<[u8; 4]>;
#[inline(never)]
fn total(a: &[u8], neg: bool, spilled: bool) -> S {
    let s: S = set_of(a, spilled && a.len() <= 4).into();
    if neg {
        !s
    } else {
        s
    }
}
#[inline(never)]
fn apply(op: usize, x: bool, y: bool) -> bool {
    match op {
        0 => x | y,
        1 => x & y,
        2 => x & !y,
        _ => x ^ y,
    }
}
harnesses! {
    fn h_binary() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let (op, assign) = (choice(4), choice(2) == 1);
        let (na, nb, spilled) = (choice(2) == 1, choice(2) == 1, sa.n <= 4 && choice(2) == 1);
        split();
        let (a, b) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (x, y) = (total(&a, na, spilled), total(&b, nb, false));
        let r = if assign {
            let mut x = x;
            match op {
                0 => x |= y,
                1 => x &= y,
                2 => x -= y,
                _ => x ^= y,
            }
            x
        } else {
            let r = match op {
                0 => &x | &y,
                1 => &x & &y,
                2 => &x - &y,
                _ => &x ^ &y,
            };
            check(x == total(&a, na, false) && y == total(&b, nb, true), "the operands are unchanged");
            r
        };
        if sa.n + sb.n <= 8 {
            let w = u8();
            let e = apply(op, na ^ member(&a, &w), nb ^ member(&b, &w));
            let g = r.contains(&w);
            check(g == e, "membership in the result is the boolean combination");
            out(g as u64);
        }
        // the result is the one that lists these elements
        let n = apply(op, na, nb);
        let mut l = vec![];
        for (k, i, j) in paired(&a, &b) {
            if apply(op, na ^ i.is_some(), nb ^ j.is_some()) != n {
                l.push(k);
            }
        }
        let same = r == total(&l, n, false);
        check(same, "the result is equal to a set made of the expected members");
        out(same as u64);
    }
    fn h_unary() {
        let sa = Shape::pick(0);
        let op = choice(6);
        let (na, spilled) = (choice(2) == 1, choice(2) == 1);
        split();
        let a = sa.sorted::<u8>();
        let mut x = total(&a, na, spilled);
        let (w, e) = (u8(), u8());
        let was = na ^ member(&a, &w);
        let want = match op {
            0 => {
                x = !x;
                !was
            }
            1 => {
                let y = !&x;
                check(y.contains(&w) == !was, "complement of a reference");
                was
            }
            2 => {
                x.insert(e);
                was | (w == e)
            }
            3 => {
                x.remove(&e);
                was & (w != e)
            }
            4 => {
                x.shrink_to_fit();
                let s: S = set_of(&a, spilled && a.len() <= 4).into();
                check(s.contains(&w) == member(&a, &w), "from a VecSet: its elements");
                was
            }
            _ => {
                let c = boolean();
                check(S::constant(c).contains(&w) == c, "constant contains everything or nothing");
                check(S::from(c).contains(&w) == c, "from a bool contains everything or nothing");
                check(S::all().contains(&w), "all contains everything");
                check(!S::empty().contains(&w), "empty contains nothing");
                check((!S::all()).contains(&w) == false && (!&S::empty()).contains(&w), "complement of all and empty");
                was
            }
        };
        check(x.contains(&w) == want, "membership is as prescribed");
        out(x.contains(&w) as u64);
    }
}
