//! C20: serde
use num_traits::Zero;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::num::Wrapping;
use vec_collections::total_vec_map::*;
use vec_collections::total_vec_set::*;
use vec_collections::*;
use vh::se::*;
use vh::*;

#[inline(never)]
fn set_round<T: Sym + Serialize + DeserializeOwned, A: Array<Item = T>>() {
    let sa = Shape::pick(0);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    split();
    let a = sa.sorted::<T>();
    let x: VecSet<A> = set_of(&a, spilled);
    let t = serialise(&x);
    check(t.len() == a.len() + 1, "each element is written once");
    match deserialise::<VecSet<A>>(&t, any_hint()) {
        Ok(y) => {
            check(y == x, "the set read back is equal");
            check(same(y.as_ref(), &a), "the set read back has the same elements");
            outs(y.as_ref());
        }
        Err(_) => check(false, "reading back works"),
    }
}
#[inline(never)]
fn set_any<T: Sym + Serialize + DeserializeOwned, A: Array<Item = T>>() {
    let h = any_hint();
    let a = sequence::<T>(0);
    let mut t = vec![Tok::Seq(a.len())];
    for e in &a {
        t.push(tok(*e));
    }
    match deserialise::<VecSet<A>>(&t, h) {
        Ok(y) => {
            check(is_ascending(y.as_ref()), "strictly ascending");
            let w = T::sym();
            check(member(y.as_ref(), &w) == member(&a, &w), "exactly the distinct elements given");
            outs(y.as_ref());
        }
        Err(_) => check(false, "decoding works"),
    }
}
/// each key has one of the values given for it
#[inline(never)]
fn sound(k: &[u8], v: &[u8], r: &[(u8, u8)]) {
    let (rk, rv) = unzip(r);
    check(is_ascending(&rk), "keys are strictly ascending");
    let w = u8();
    check(member(&rk, &w) == member(k, &w), "exactly the distinct keys given");
    let mut all = true;
    for i in 0..rk.len() {
        let mut ok = false;
        for j in 0..k.len() {
            ok |= (k[j] == rk[i]) & (v[j] == rv[i]);
        }
        all &= ok;
    }
    check(all, "each key has one of its given values");
    outs(&rk);
}
type S = TotalVecSet<[u8; 2]>;
type W = Wrapping<u8>;
type M = TotalVecMap<W, [(u8, W); 2]>;
harnesses! {
    fn h_set() { set_round::<u8, [u8; 3]>() }
    fn h_set_wide() { set_round::<i64, [i64; 1]>() }
    fn h_set_any() { set_any::<u8, [u8; 3]>() }
    fn h_set_any_wide() { set_any::<u32, [u32; 1]>() }
    fn h_set_bad() {
        // something that is no element somewhere in the sequence, or a sequence that ends early
        let n = choice(param(0)) + 1;
        let at = choice(n + 1);
        let h = any_hint();
        split();
        let a = any::<u8>(n);
        let mut t = vec![Tok::Seq(n)];
        for i in 0..n {
            if at == i {
                t.push(match choice(5) {
                    0 => Tok::B(true),
                    1 => Tok::Seq(0),
                    2 => Tok::Map(1),
                    3 => Tok::Unit,
                    _ => {
                        let x = u64();
                        assume(x > 255);
                        Tok::U(x)
                    }
                });
            } else {
                t.push(Tok::I(a[i] as i64));
            }
        }
        if at == n {
            t.pop();
        }
        check(deserialise::<VecSet<[u8; 2]>>(&t, h).is_err(), "what is no sequence of elements is refused");
        t[0] = Tok::Map(n);
        check(deserialise::<VecSet<[u8; 2]>>(&t, h).is_err(), "a map is no set");
    }
    fn h_map() {
        let sa = Shape::pick(0);
        let spilled = sa.n <= 2 && choice(2) == 1;
        split();
        let k = sa.sorted::<u8>();
        let v = any::<u8>(k.len());
        let x: VecMap<[(u8, u8); 2]> = map_of(&k, &v, spilled);
        let t = serialise(&x);
        check(t.len() == 2 * k.len() + 1, "each mapping is written once");
        match deserialise::<VecMap<[(u8, u8); 2]>>(&t, any_hint()) {
            Ok(y) => {
                check(y == x, "the map read back is equal");
                check_map(&k, &v, y.as_ref());
            }
            Err(_) => check(false, "reading back works"),
        }
    }
    fn h_map_any() {
        let h = any_hint();
        let k = sequence::<u8>(0);
        let v: Vec<u8> = if param(2) == 0 { any(k.len()) } else { (0..k.len()).map(|x| x as u8).collect() };
        let mut t = vec![Tok::Map(k.len())];
        for i in 0..k.len() {
            t.push(tok(k[i]));
            t.push(Tok::U(v[i] as u64));
        }
        match deserialise::<VecMap<[(u8, u8); 2]>>(&t, h) {
            Ok(y) => sound(&k, &v, y.as_ref()),
            Err(_) => check(false, "decoding works"),
        }
    }
    fn h_map_bad() {
        let n = choice(param(0)) + 1;
        let at = choice(2 * n + 1);
        let h = any_hint();
        split();
        let a = any::<u8>(2 * n);
        let mut t = vec![Tok::Map(n)];
        for i in 0..2 * n {
            if at == i {
                t.push(if choice(2) == 0 { Tok::B(false) } else { Tok::I(-1) });
            } else {
                t.push(Tok::U(a[i] as u64));
            }
        }
        if at == 2 * n {
            t.pop();
        }
        check(deserialise::<VecMap<[(u8, u8); 2]>>(&t, h).is_err(), "what is no map is refused");
        t[0] = Tok::Seq(n);
        check(deserialise::<VecMap<[(u8, u8); 2]>>(&t, h).is_err(), "a sequence is no map");
    }
    fn h_total_set() {
        let sa = Shape::pick(0);
        let negated = choice(2) == 1;
        let h = any_hint();
        split();
        let a = sa.sorted::<u8>();
        let x = S::from(set_of(&a, false));
        let x = if negated { !x } else { x };
        match deserialise::<S>(&serialise(&x), h) {
            Ok(y) => {
                check(y == x, "the total set read back is equal");
                let w = u8();
                check(y.contains(&w) == (member(&a, &w) != negated), "the total set read back has the same members");
            }
            Err(_) => check(false, "reading back works"),
        }
    }
    fn h_total_set_any() {
        let h = any_hint();
        let negated = choice(2) == 1;
        let a = sequence::<u8>(0);
        let mut t = vec![Tok::Seq(2), Tok::Seq(a.len())];
        for e in &a {
            t.push(tok(*e));
        }
        t.push(Tok::B(negated));
        match deserialise::<S>(&t, h) {
            Ok(y) => {
                let w = u8();
                check(y.contains(&w) == (member(&a, &w) != negated), "the members are those given");
                // as if built from the sorted elements
                let e = S::from(a.into_iter().collect::<VecSet<[u8; 2]>>());
                check(y == if negated { !e } else { e }, "equal to the set built otherwise");
            }
            Err(_) => check(false, "decoding works"),
        }
        t.pop();
        check(deserialise::<S>(&t, h).is_err(), "what is incomplete is refused");
    }
    fn h_total_map() {
        let sa = Shape::pick(0);
        let h = any_hint();
        split();
        let k = sa.sorted::<u8>();
        let v = any::<u8>(k.len());
        let d = u8();
        let x = M::new(k.iter().zip(&v).map(|(k, v)| (*k, Wrapping(*v))).collect(), Wrapping(d));
        match deserialise::<M>(&serialise(&x), h) {
            Ok(y) => {
                check(y == x, "the total map read back is equal");
                total(&y, &k, &v, d);
            }
            Err(_) => check(false, "reading back works"),
        }
    }
    fn h_total_map_any() {
        let h = any_hint();
        let k = sequence::<u8>(0);
        let v = any::<u8>(k.len());
        let d = u8();
        let mut t = vec![Tok::Seq(2), Tok::Map(k.len())];
        for i in 0..k.len() {
            t.push(tok(k[i]));
            t.push(Tok::U(v[i] as u64));
        }
        t.push(Tok::U(d as u64));
        match deserialise::<M>(&t, h) {
            Ok(y) => {
                let s: &[(u8, W)] = y.non_default_mappings().as_ref();
                let (mut ok, mut asc, mut given) = (true, true, true);
                for i in 0..s.len() {
                    ok &= s[i].1 .0 != d;
                    asc &= i == 0 || s[i - 1].0 < s[i].0;
                }
                check(ok, "no mapping to the default value is stored");
                check(asc, "keys are strictly ascending");
                let w = u8();
                let got = y[&w].0;
                // one of the values given, the default if there is none
                let mut any = false;
                for i in 0..k.len() {
                    given &= k[i] != w;
                    any |= (k[i] == w) & (v[i] == got);
                }
                check(any | (given & (got == d)), "each key has one of its given values");
            }
            Err(_) => check(false, "decoding works"),
        }
        t.pop();
        check(deserialise::<M>(&t, h).is_err(), "what is incomplete is refused");
    }
}
#[inline(never)]
fn total(m: &M, k: &[u8], v: &[u8], d: u8) {
    let w = u8();
    let (f, r) = lookup(k, v, &w);
    check(m[&w].0 == (r & ones(f)) | (d & ones(!f)), "the total map read back is the same function");
    let s: &[(u8, W)] = m.non_default_mappings().as_ref();
    let mut ok = true;
    for x in s {
        ok &= x.1 .0 != d;
    }
    check(ok, "no mapping to the default value is stored");
    out(W::zero().0 as u64);
}
