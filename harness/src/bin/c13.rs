//! C13: a radix tree is an ordered map from key sequences to values
use vec_collections::radix_tree::*;
use vh::tree::*;
use vh::*;

type T = RadixTree<u8, u8>;
harnesses! {
    fn h_insert() {
        // any sequence of insertions
        let ka = Keys::pick(0);
        let op = choice(8);
        split();
        let keys = ka.any();
        let mut t = T::empty();
        let mut m = Model::new();
        for (i, k) in keys.iter().enumerate() {
            t.insert(k, i as u8);
            put(&mut m, k, i as u8);
        }
        match op {
            0 => check_tree(&t, &m),
            1 => {
                let v: Vec<u8> = t.values().take(m.len() + 1).copied().collect();
                let e: Vec<u8> = m.iter().map(|x| x.1).collect();
                check(same(&v, &e), "the values in key order");
            }
            2 => {
                let mut i = t.into_iter();
                let mut ok = true;
                for (k, v) in &m {
                    match i.next() {
                        Some((l, w)) => ok &= same(&l, k) & (*w == *v),
                        None => check(false, "every mapping is iterated"),
                    }
                }
                check(ok, "the mappings in key order");
                check(i.next().is_none(), "nothing else");
                check(i.next().is_none(), "nor later");
            }
            3 => {
                let p = probe(&m, param(4));
                let e = find(&m, &p);
                check(t.get(&p).copied() == e, "get finds what was inserted last");
                check(t.contains_key(&p) == e.is_some(), "contains_key is exact");
                out(e.is_some() as u64);
            }
            4 => {
                // the order of the insertions does not matter
                let u: T = tree(&m);
                check(t == u, "equal trees for equal mappings");
                check(!(t != u), "not unequal");
            }
            5 => {
                // in descending order
                let mut u = T::default();
                for (k, v) in m.iter().rev() {
                    u.insert(k, *v);
                }
                check(u == t, "equal trees for equal mappings");
            }
            6 => {
                let u: T = keys.iter().enumerate().map(|(i, k)| (k, i as u8)).collect();
                check(t == u, "collecting is inserting");
                let c = t.clone();
                check(c == t, "a clone is equal");
                drop(t);
                check_tree(&c, &m);
            }
            _ => {
                check(canonical(&t, true), "the tree is canonical");
                check(t.is_empty() == m.is_empty(), "is_empty is exact");
            }
        }
    }
    fn h_insert_more() {
        // one more insertion into a tree with ascending keys
        let ka = Keys::pick(0);
        let op = choice(4);
        split();
        let mut m = ka.model(1);
        let mut t: T = tree(&m);
        let k = probe(&m, param(4));
        t.insert(&k, 77);
        put(&mut m, &k, 77);
        match op {
            0 => check_tree(&t, &m),
            1 => {
                let u: T = tree(&m);
                check(t == u, "equal to a tree built in order");
            }
            2 => {
                let p = probe(&m, param(4));
                let e = find(&m, &p);
                check(t.get(&p).copied() == e, "get finds what was inserted last");
                check(t.contains_key(&p) == e.is_some(), "contains_key is exact");
            }
            _ => {
                let v: Vec<u8> = t.values().take(m.len() + 1).copied().collect();
                let e: Vec<u8> = m.iter().map(|x| x.1).collect();
                check(same(&v, &e), "the values in key order");
            }
        }
    }
    fn h_wide() {
        // nodes with many children, and insertion of one more
        let n = param(0);
        let op = choice(5);
        let k = {
            let n = choice(param(1) + 1);
            any::<u8>(n)
        };
        split();
        let mut m = Model::new();
        for i in 0..n {
            // inserted in ascending, descending, or mixed order
            let i = match op % 3 {
                0 => i,
                1 => n - 1 - i,
                _ => (i * 7) % n,
            };
            m.push((if i % 4 == 3 { vec![(2 * i - 1) as u8, 9] } else { vec![(2 * i + 1) as u8] }, i as u8));
        }
        let mut t: T = m.iter().map(|(k, v)| (k, *v)).collect();
        m.sort();
        match op {
            0 | 1 | 2 => {
                let e = find(&m, &k);
                check(t.get(&k).copied() == e, "get finds what was inserted last");
                check(t.contains_key(&k) == e.is_some(), "contains_key is exact");
            }
            3 => {
                t.insert(&k, 200);
                put(&mut m, &k, 200);
                check_tree(&t, &m);
            }
            _ => {
                t.insert(&k, 200);
                check(t.get(&k).copied() == Some(200), "get finds what was inserted last");
                let i = choice(m.len());
                let e = if equal(&m[i].0, &k) { 200 } else { m[i].1 };
                check(t.get(&m[i].0).copied() == Some(e), "the others are as they were");
            }
        }
    }
    fn h_provided() {
        // what the iterators derive from next
        let ka = Keys::pick(0);
        let op = choice(3);
        split();
        let m = ka.model(1);
        let t: T = tree(&m);
        match op {
            0 => provided(t.iter(), m.len(), |(k, v), i| same(&k, &m[i].0) & (*v == m[i].1)),
            1 => provided(t.values(), m.len(), |v, i| *v == m[i].1),
            _ => provided(t.scan_prefix(&[]), m.len(), |(k, v), i| same(&k, &m[i].0) & (*v == m[i].1)),
        }
    }
    fn h_equal() {
        // equality is equality of the mappings
        let (ka, kb) = (Keys::pick(0), Keys::pick(4));
        split();
        let (a, mut b) = (ka.model(1), kb.model(1));
        if b.len() > 0 && choice(2) == 1 {
            let i = choice(b.len());
            b[i].1 = u8();
        }
        let (x, y): (T, T) = (tree(&a), tree(&b));
        let e = same_model(&a, &b);
        check((x == y) == e, "equal if and only if the mappings are");
        check((y == x) == e, "symmetric");
        check((x != y) == !e, "unequal otherwise");
        out(e as u64);
    }
    fn h_small() {
        // the ways to make a tree without insert
        let n = choice(param(0));
        let op = choice(4);
        split();
        let k = any::<u8>(n);
        let (t, m): (T, Model) = match op {
            0 => (T::empty(), vec![]),
            1 => (T::default(), vec![]),
            2 => (T::leaf(5), vec![(vec![], 5)]),
            _ => (T::single(&k, 6), vec![(k.clone(), 6)]),
        };
        check_tree(&t, &m);
        let u: T = tree(&m);
        check(t == u, "equal to a tree built by insertion");
        check(t.get(&k).copied() == find(&m, &k), "get");
        check(t.contains_key(&k) == find(&m, &k).is_some(), "contains_key");
    }
}
