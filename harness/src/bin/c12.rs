//! C12: TotalVecMap is a total function combined pointwise
use num_traits::{Bounded, One, Zero};
use std::num::Wrapping;
use vec_collections::total_vec_map::*;
use vec_collections::*;
use vh::*;

type V = Wrapping<u8>;
type A = [(u8, V); 2];
type M = TotalVecMap<V, A>;
#[inline(never)]
fn total(k: &[u8], v: &[u8], d: u8, spilled: bool) -> M {
    let mut m: VecMap<A> = VecMap::empty();
    if spilled {
        for i in 0..3 {
            m.insert(i, Wrapping(0));
        }
        m.retain(|_| false);
    }
    for i in 0..k.len() {
        m.insert(k[i], Wrapping(v[i]));
    }
    M::new(m, Wrapping(d))
}
/// the value of the function at w
#[inline(never)]
fn at(k: &[u8], v: &[u8], d: u8, w: &u8) -> u8 {
    let (f, r) = lookup(k, v, w);
    (r & ones(f)) | (d & ones(!f))
}
#[inline(never)]
fn canonical(m: &M, d: V) {
    let s: &[(u8, V)] = m.non_default_mappings().as_ref();
    let (mut ok, mut asc) = (true, true);
    for i in 0..s.len() {
        ok &= s[i].1 != d;
        if i > 0 {
            asc &= s[i - 1].0 < s[i].0;
        }
    }
    check(ok, "no mapping to the default value is stored");
    check(asc, "keys are strictly ascending");
}
/// asserts that m is the function given by the keys, values and default
#[inline(never)]
fn is(m: &M, k: &[u8], v: &[u8], d: u8) {
    canonical(m, Wrapping(d));
    if k.len() > 8 {
        // at the keys listed, and between them
        let mut ok = true;
        for i in 0..k.len() {
            ok &= m[&k[i]] == Wrapping(v[i]);
        }
        check(ok, "the value at every key is the one prescribed");
        check(m[&0] == Wrapping(at(k, v, d, &0)) && m[&255] == Wrapping(at(k, v, d, &255)), "the value at other keys is the default");
        return;
    }
    // a value not listed, too
    let w = u8();
    check(m[&w] == Wrapping(at(k, v, d, &w)), "the value at every key is the one prescribed");
    out(m[&w].0 as u64);
}
harnesses! {
    fn h_index() {
        let sa = Shape::pick(0);
        let spilled = choice(2) == 1;
        split();
        let k = sa.sorted::<u8>();
        let v = some_any(k.len(), sa.kind != 0);
        let d = u8();
        let m = total(&k, &v, d, spilled);
        is(&m, &k, &v, d);
        // zero and one tests depend on the function only
        let (mut zero, mut one) = (d == 0, d == 1);
        for i in 0..k.len() {
            zero &= v[i] == 0;
            one &= v[i] == 1;
        }
        check(m.is_zero() == zero, "is_zero tells the function");
        check(m.is_one() == one, "is_one tells the function");
    }
    fn h_constants() {
        let (w, c) = (u8(), u8());
        check(M::constant(Wrapping(c))[&w] == Wrapping(c), "constant");
        check(M::from(Wrapping(c))[&w] == Wrapping(c), "from a value");
        check(M::zero()[&w].0 == 0 && M::zero().is_zero() && !M::zero().is_one(), "zero");
        check(M::one()[&w].0 == 1 && M::one().is_one() && !M::one().is_zero(), "one");
        check(M::min_value()[&w].0 == 0 && M::max_value()[&w].0 == 255, "bounds");
        check(M::default()[&w].0 == 0, "default");
        check(M::constant(Wrapping(c)).is_zero() == (c == 0) && M::constant(Wrapping(c)).is_one() == (c == 1), "tests of constants");
    }
    fn h_combine() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        // multiplication and division only with small numbers where there are many
        let op = if sa.kind + sb.kind == 0 { choice(7) } else { [0, 1, 4, 5, 6][choice(5)] };
        let mask = if (op == 2 || op == 3) && sa.n + sb.n > 2 { 7 } else { 255 };
        let spilled = choice(2) == 1;
        split();
        let (ka, kb) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (mut va, mut vb) = (some_any(ka.len(), sa.kind != 0), some_any(kb.len(), sb.kind != 0));
        let (da, db) = (u8() & mask, u8() & mask);
        for v in va.iter_mut().chain(vb.iter_mut()) {
            *v &= mask;
        }
        if op == 3 {
            // division by zero panics
            let mut nz = db != 0;
            for v in &vb {
                nz &= *v != 0;
            }
            assume(nz);
        }
        let m = [u8(), u8(), u8()];
        let f = |a: u8, b: u8| match op {
            0 => a.wrapping_add(b),
            1 => a.wrapping_sub(b),
            2 => a.wrapping_mul(b),
            3 => a / b,
            4 => a.max(b),
            5 => a.min(b),
            // many functions of both arguments, not symmetric
            _ => (a & m[0]).wrapping_sub(b ^ m[1]) | (b & m[2]),
        };
        let (x, y) = (total(&ka, &va, da, spilled), total(&kb, &vb, db, false));
        let r = match op {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            3 => x / y,
            4 => x.supremum(&y),
            5 => x.infimum(&y),
            _ => {
                let r = x.combine_ref(&y, |a, b| Wrapping(f(a.0, b.0)));
                check(x == total(&ka, &va, da, false) && y == total(&kb, &vb, db, false), "the operands are unchanged");
                r
            }
        };
        let (mut k, mut v) = (vec![], vec![]);
        for (x, i, j) in paired(&ka, &kb) {
            k.push(x);
            v.push(f(i.map(|i| va[i]).unwrap_or(da), j.map(|j| vb[j]).unwrap_or(db)));
        }
        is(&r, &k, &v, f(da, db));
    }
    fn h_map_values() {
        let sa = Shape::pick(0);
        let neg = choice(2) == 1;
        split();
        let k = sa.sorted::<u8>();
        let v = some_any(k.len(), sa.kind != 0);
        let d = u8();
        let m = [u8(), u8()];
        let x = total(&k, &v, d, false);
        let f = |a: u8| if neg { a.wrapping_neg() } else { (a & m[0]).wrapping_add(m[1]) };
        let r: M = if neg { -x } else { x.map_values(|a| Wrapping(f(a.0))) };
        let mut v2 = vec![];
        for a in &v {
            v2.push(f(*a));
        }
        is(&r, &k, &v2, f(d));
    }
}
