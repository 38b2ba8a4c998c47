//! C06: VecMap behaves as an ordered map under single-key operations
use std::collections::BTreeMap;
use vec_collections::*;
use vh::*;

#[inline(never)]
fn step<K: Sym + 'static, A: Array<Item = (K, u8)>>() {
    let sa = Shape::pick(0);
    let op = choice(7);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    let e: K = near(param(3));
    split();
    let k: Vec<K> = sa.sorted();
    let v = some_any(k.len(), sa.n > 64);
    let mut x: VecMap<A> = map_of(&k, &v, spilled);
    check(same_map(&k, &v, x.as_ref()), "set up");
    check(x.len() == k.len(), "len is exact");
    check(x.is_empty() == k.is_empty(), "is_empty is exact");
    let (w, y) = (K::sym(), u8());
    let (has, old) = lookup(&k, &v, &e);
    let (whas, wold) = lookup(&k, &v, &w);
    match op {
        0 => {
            let r = x.get(&e).copied();
            check(r.is_some() == has, "get answers whether there is a mapping");
            if let Some(r) = r {
                check(r == old, "get gives the value stored");
                out(r as u64);
            }
            check(same_map(&k, &v, x.as_ref()), "get changes nothing");
        }
        1 => {
            let r = x.get_mut(&e);
            check(r.is_some() == has, "get_mut answers whether there is a mapping");
            if let Some(r) = r {
                check(*r == old, "get_mut gives the value stored");
                *r = y;
            }
            let (rk, rv) = unzip(x.as_ref());
            check(same(&rk, &k), "get_mut leaves the keys alone");
            let g = lookup(&rk, &rv, &w);
            check(g.0 == whas, "get_mut leaves the keys alone (2)");
            check(!whas | ((w == e) & (g.1 == y)) | ((w != e) & (g.1 == wold)), "get_mut writes to the value of the key only");
        }
        2 => {
            let r = x.insert(e, y);
            check(r.is_some() == has, "insert returns whether there was a mapping");
            if let Some(r) = r {
                check(r == old, "insert returns the previous value");
                out(r as u64);
            }
            let mut k2 = k.clone();
            let mut v2 = v.clone();
            k2.push(e);
            v2.push(y);
            check_map(&k2, &v2, x.as_ref());
        }
        3 => {
            let d = answers(k.len());
            let mut i = 0;
            let mut seen = true;
            let (mut yes, mut val) = (false, 0u8);
            x.retain(|(a, b)| {
                seen &= (*a == k[i]) & (*b == v[i]);
                let keep = d[i] & 1 == 1;
                let hit = keep & (*a == w);
                yes |= hit;
                val |= *b & ones(hit);
                i += 1;
                keep
            });
            check(i == k.len(), "the predicate sees every mapping once");
            check(seen, "the predicate sees the mappings in order");
            let (rk, rv) = unzip(x.as_ref());
            let g = lookup(&rk, &rv, &w);
            check((g.0 == yes) & (!yes | (g.1 == val)), "retain keeps exactly what the predicate accepts");
            check(is_ascending(&rk), "keys are strictly ascending");
        }
        4 => {
            let d = any::<u8>(k.len());
            let mut i = 0;
            let mut seen = true;
            let r: VecMap<[(K, u16); 4]> = x.map_values(|b| {
                seen &= b == v[i];
                let r = d[i] as u16 + 1;
                i += 1;
                r
            });
            check(i == k.len() && r.len() == k.len(), "map_values sees every value once");
            check(seen, "map_values sees the values in order");
            let r: &[(K, u16)] = r.as_ref();
            let mut ok = true;
            for j in 0..k.len() {
                ok &= (r[j].0 == k[j]) & (r[j].1 == d[j] as u16 + 1);
            }
            check(ok, "map_values maps every key to the function's result");
        }
        5 => {
            let s: VecSet<A> = x.into();
            check(same_map(&k, &v, s.as_ref()), "as a set: the pairs");
        }
        _ => {
            let b: BTreeMap<K, u8> = zip(&k, &v).into_iter().collect();
            let m: VecMap<A> = b.into();
            check(same_map(&k, &v, m.as_ref()), "from a BTreeMap: its mappings");
            let s: smallvec::SmallVec<A> = m.into_inner();
            check(same_map(&k, &v, &s), "into_inner: the pairs");
        }
    }
}
harnesses! {
    fn h_step() { step::<u8, [(u8, u8); 4]>() }
    fn h_step_wide() { step::<i64, [(i64, u8); 1]>() }
    fn h_steps() {
        let n = param(0);
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(choice(3));
        }
        split();
        let w = u8();
        let (mut has, mut val) = (false, 0u8);
        let mut x: VecMap<[(u8, u8); 2]> = VecMap::empty();
        for op in ops {
            let (e, y) = (u8(), u8());
            let m = ones(e == w);
            match op {
                0 => {
                    x.insert(e, y);
                    has |= e == w;
                    val = (y & m) | (val & !m);
                }
                1 => {
                    if let Some(r) = x.get_mut(&e) {
                        *r = y;
                    }
                    let m = m & ones(has);
                    val = (y & m) | (val & !m);
                }
                _ => {
                    x.retain(|(k, _)| *k != e);
                    has &= e != w;
                }
            }
            let (rk, rv) = unzip(x.as_ref());
            check(is_ascending(&rk), "keys are strictly ascending");
            let g = lookup(&rk, &rv, &w);
            check((g.0 == has) & (!has | (g.1 == val)), "exactly the mappings of the history");
        }
        for (k, v) in x {
            out(k as u64);
            out(v as u64);
        }
    }
}
