//! C18: archiving and reading back preserves contents
use rkyv::{Deserialize, Infallible};
use vec_collections::radix_tree::*;
use vec_collections::*;
use vh::rk::*;
use vh::tree::*;
use vh::*;

#[inline(never)]
fn set<T: Sym + rkyv::Archive<Archived = T> + rkyv::Serialize<Ser> + for<'b> bytecheck::CheckBytes<Ctx<'b>>, A: Array<Item = T>>()
where
    T: Deserialize<T, Infallible>,
{
    let sa = Shape::pick(0);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    split();
    let a = sa.sorted::<T>();
    let x: VecSet<A> = set_of(&a, spilled);
    let b = Exact::new(&archive(&x));
    let y = match open::<VecSet<A>>(b.bytes()) {
        Some(y) => y,
        None => return check(false, "validation accepts the archive"),
    };
    check(same(y.as_slice(), &a), "the archived set has the same elements");
    let z: VecSet<A> = match y.deserialize(&mut Infallible) {
        Ok(z) => z,
        Err(_) => return check(false, "reading back works"),
    };
    check(same(z.as_ref(), &a), "the set read back has the same elements");
    check(z == x, "the set read back is equal");
    outs(z.as_ref());
}
harnesses! {
    fn h_set() { set::<u8, [u8; 3]>() }
    fn h_set_wide() { set::<i64, [i64; 1]>() }
    fn h_set_ops() {
        // an archived set as an operand, on either side or both
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(10);
        let (left, right) = (choice(2) == 1, choice(2) == 1);
        split();
        let (a, b) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let x: VecSet<[u8; 2]> = set_of(&a, false);
        let y: VecSet<[u8; 2]> = set_of(&b, false);
        let (bx, by) = (Exact::new(&archive(&x)), Exact::new(&archive(&y)));
        let (ax, ay) = match (open::<VecSet<[u8; 2]>>(bx.bytes()), open::<VecSet<[u8; 2]>>(by.bytes())) {
            (Some(x), Some(y)) => (x, y),
            _ => return check(false, "validation accepts the archives"),
        };
        fn ops(op: usize, a: &[u8], b: &[u8], x: &impl AbstractVecSet<u8>, y: &impl AbstractVecSet<u8>) {
            let r: VecSet<[u8; 4]> = match op {
                0 => x.union(y),
                1 => x.intersection(y),
                2 => x.difference(y),
                3 => x.symmetric_difference(y),
                4 => {
                    let mut n = 0;
                    for e in b {
                        n += member(a, e) as usize;
                    }
                    return check(x.is_superset(y) == (n == b.len()), "is_superset is exact");
                }
                5 => {
                    let mut n = 0;
                    for e in a {
                        n += member(b, e) as usize;
                    }
                    return check(x.is_subset(y) == (n == a.len()), "is_subset is exact");
                }
                6 => {
                    let mut n = 0;
                    for e in a {
                        n += member(b, e) as usize;
                    }
                    return check(x.is_disjoint(y) == (n == 0), "is_disjoint is exact");
                }
                7 => {
                    let e = u8();
                    return check(x.contains(&e) == member(a, &e), "contains is exact");
                }
                8 => return check(x.is_empty() == a.is_empty(), "is_empty is exact"),
                _ => {
                    let mut i = x.iter();
                    let mut ok = true;
                    for e in a {
                        ok &= i.next() == Some(e);
                    }
                    return check(ok & i.next().is_none(), "iteration is exact");
                }
            };
            check_set(op, a, b, r.as_ref());
        }
        match (left, right) {
            (false, false) => {
                // in place
                let mut z = x.clone();
                match op % 4 {
                    0 => z.union_with(ay),
                    1 => z.intersection_with(ay),
                    2 => z.difference_with(ay),
                    _ => z.xor_with(ay),
                }
                check_set(op % 4, &a, &b, z.as_ref());
            }
            (false, true) => ops(op, &a, &b, &x, ay),
            (true, false) => ops(op, &a, &b, ax, &y),
            _ => ops(op, &a, &b, ax, ay),
        }
    }
    fn h_set_strings() {
        // elements whose archived form is a different type
        let n = choice(param(0) + 1);
        let len = range(0, param(1));
        split();
        let mut v = vec![];
        for _ in 0..n {
            let mut s = String::new();
            for _ in 0..len {
                let c = u8();
                assume(c < 128);
                s.push(c as char);
            }
            v.push(s);
        }
        let x: VecSet<[String; 2]> = v.into_iter().collect();
        let b = Exact::new(&archive(&x));
        // (validation is offered only for elements that are their own archived form)
        let y = unsafe { rkyv::archived_root::<VecSet<[String; 2]>>(b.bytes()) };
        check(y.as_slice().len() == x.len(), "the archived set has as many elements");
        let z: VecSet<[String; 2]> = match y.deserialize(&mut Infallible) {
            Ok(z) => z,
            Err(_) => return check(false, "reading back works"),
        };
        check(z == x, "the set read back is equal");
        for i in 0..x.len() {
            check(same(y.as_slice()[i].as_bytes(), x.as_ref()[i].as_bytes()), "the archived set has the same elements");
        }
        out(x.len() as u64);
    }
    fn h_map() { map::<u8, [(u8, u8); 2]>() }
    fn h_map_wide() { map::<i32, [(i32, u8); 1]>() }
    fn h_map_joins() {
        // an archived map as an operand, on either side or both
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(4);
        let how = choice(4);
        split();
        let (ka, kb) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (va, vb) = (any::<u8>(ka.len()), any::<u8>(kb.len()));
        let x: VecMap<[(u8, u8); 2]> = map_of(&ka, &va, false);
        let y: VecMap<[(u8, u8); 2]> = map_of(&kb, &vb, false);
        let (bx, by) = (Exact::new(&archive(&x)), Exact::new(&archive(&y)));
        let (ax, ay) = match (open::<VecMap<[(u8, u8); 2]>>(bx.bytes()), open::<VecMap<[(u8, u8); 2]>>(by.bytes())) {
            (Some(x), Some(y)) => (x, y),
            _ => return check(false, "validation accepts the archives"),
        };
        let l = Log::new(param(6));
        let r = match how {
            0 => joins(op, &x, ay, &l),
            1 => joins(op, ax, &y, &l),
            2 => joins(op, ax, ay, &l),
            _ => {
                let mut z = x.clone();
                match op {
                    0 => z.outer_join_with(ay, |x| match x {
                        OuterJoinArg::Left(k, v) => l.call(*k, Some(v), None),
                        OuterJoinArg::Right(k, w) => l.call(*k, None, Some(*w)),
                        OuterJoinArg::Both(k, v, w) => l.call(*k, Some(v), Some(*w)),
                    }),
                    1 => z.left_join_with(ay, |k, v, w| l.call(*k, Some(v), w.copied())),
                    2 => z.right_join_with(ay, |k, v, w| l.call(*k, v, Some(*w))),
                    _ => z.inner_join_with(ay, |k, v, w| l.call(*k, Some(v), Some(*w))),
                }
                z
            }
        };
        l.check(op, (&ka, &va), (&kb, &vb), r.as_ref());
        check(same_map(&ka, &va, ax.as_slice()) && same_map(&kb, &vb, ay.as_slice()), "the archives are unchanged");
    }
    fn h_tree() {
        let ka = Keys::pick(0);
        let flavour = choice(3);
        let op = choice(6);
        split();
        let m = ka.model(1);
        match flavour {
            0 => {
                let t: RadixTree<u8, u8> = tree(&m);
                let b = Exact::new(&archive(&t));
                let y = match open::<RadixTree<u8, u8>>(b.bytes()) {
                    Some(y) => y,
                    None => return check(false, "validation accepts the archive"),
                };
                if op == 0 {
                    let z: Result<RadixTree<u8, u8>, _> = y.deserialize(&mut Infallible);
                    match z {
                        Ok(z) => {
                            check(z == t, "the tree read back is equal");
                            check_tree(&z, &m);
                        }
                        Err(_) => check(false, "reading back works"),
                    }
                } else {
                    queries(op, y, &m)
                }
            }
            1 => {
                let t: ArcRadixTree<u8, u8> = tree(&m);
                let b = Exact::new(&archive(&t));
                let y = match open::<ArcRadixTree<u8, u8>>(b.bytes()) {
                    Some(y) => y,
                    None => return check(false, "validation accepts the archive"),
                };
                if op == 0 {
                    let z: Result<ArcRadixTree<u8, u8>, _> = y.deserialize(&mut Unshare::default());
                    match z {
                        Ok(z) => check_tree(&z, &m),
                        Err(_) => check(false, "reading back works"),
                    }
                    check_tree(&ArcRadixTree::from(y), &m);
                } else {
                    queries(op, y, &m)
                }
            }
            _ => {
                let t: LazyRadixTree<u8, u8> = tree(&m);
                let b = Exact::new(&archive(&t));
                let y = unsafe { rkyv::archived_root::<LazyRadixTree<u8, u8>>(b.bytes()) };
                if op == 0 {
                    check_tree(&LazyRadixTree::from(y), &m);
                } else {
                    queries(op, y, &m)
                }
            }
        }
    }
    fn h_tree_ops() {
        // archived trees as operands
        let (ka, kb) = (Keys::pick(0), Keys::pick(4));
        let flavour = choice(3);
        let op = choice(15);
        split();
        let (a, b) = (ka.model(1), kb.model(51));
        match flavour {
            0 => {
                let (x, y): (RadixTree<u8, u8>, RadixTree<u8, u8>) = (tree(&a), tree(&b));
                let (bx, by) = (Exact::new(&archive(&x)), Exact::new(&archive(&y)));
                match (open::<RadixTree<u8, u8>>(bx.bytes()), open::<RadixTree<u8, u8>>(by.bytes())) {
                    (Some(ax), Some(ay)) => tree_ops(op, &a, &b, x, &y, ax, ay),
                    _ => check(false, "validation accepts the archives"),
                }
            }
            1 => {
                let (x, y): (ArcRadixTree<u8, u8>, ArcRadixTree<u8, u8>) = (tree(&a), tree(&b));
                let (bx, by) = (Exact::new(&archive(&x)), Exact::new(&archive(&y)));
                match (open::<ArcRadixTree<u8, u8>>(bx.bytes()), open::<ArcRadixTree<u8, u8>>(by.bytes())) {
                    (Some(ax), Some(ay)) => tree_ops(op, &a, &b, x, &y, ax, ay),
                    _ => check(false, "validation accepts the archives"),
                }
            }
            _ => {
                let (x, y): (LazyRadixTree<u8, u8>, LazyRadixTree<u8, u8>) = (tree(&a), tree(&b));
                let (bx, by) = (Exact::new(&archive(&x)), Exact::new(&archive(&y)));
                let ax = unsafe { rkyv::archived_root::<LazyRadixTree<u8, u8>>(bx.bytes()) };
                let ay = unsafe { rkyv::archived_root::<LazyRadixTree<u8, u8>>(by.bytes()) };
                tree_ops(op, &a, &b, x, &y, ax, ay)
            }
        }
    }
    fn h_shared() {
        // trees that share nodes
        let (ka, kb) = (Keys::pick(0), Keys::pick(4));
        let flavour = choice(2);
        split();
        let (a, b) = (ka.model(1), kb.model(51));
        let p = vec![1u8];
        let q = vec![2u8, 2];
        let e: Model = a
            .iter()
            .map(|(k, v)| ([&p[..], &k[..]].concat(), *v))
            .chain(a.iter().map(|(k, v)| ([&q[..], &k[..]].concat(), *v)))
            .collect();
        if flavour == 0 {
            let t: ArcRadixTree<u8, u8> = tree(&a);
            let (mut x, mut y) = (t.clone(), t.clone());
            x.prepend(&p);
            y.prepend(&q);
            x.union_with(&y);
            let b = Exact::new(&archive(&x));
            let y = match open::<ArcRadixTree<u8, u8>>(b.bytes()) {
                Some(y) => y,
                None => return check(false, "validation accepts the archive"),
            };
            check_tree(y, &e);
            let z: Result<ArcRadixTree<u8, u8>, _> = y.deserialize(&mut Unshare::default());
            match z {
                Ok(z) => check_tree(&z, &e),
                Err(_) => check(false, "reading back works"),
            }
        } else {
            // what was read back can be changed, the archive stays as it is
            let t: LazyRadixTree<u8, u8> = tree(&a);
            let bytes = Exact::new(&archive(&t));
            let y = unsafe { rkyv::archived_root::<LazyRadixTree<u8, u8>>(bytes.bytes()) };
            let mut z = LazyRadixTree::from(y);
            let z0 = z.clone();
            let j = join(&a, &b);
            let d = Decide::new(&j, true);
            z.union_with(&tree::<LazyRadixTree<u8, u8>>(&b));
            check_tree(&z, &combined(6, &j, &d));
            check_tree(&z0, &a);
            check_tree(y, &a);
        }
    }
}
#[inline(never)]
fn queries<T: AbstractRadixTree<u8, u8>>(op: usize, y: &T, m: &Model) {
    match op {
        1 => check_tree(y, m),
        2 => {
            let v: Vec<u8> = y.values().take(m.len() + 1).copied().collect();
            let e: Vec<u8> = m.iter().map(|x| x.1).collect();
            check(same(&v, &e), "the values in key order");
        }
        3 => {
            let p = probe(m, param(4));
            let e = find(m, &p);
            check(y.get(&p).copied() == e, "get is exact");
            check(y.contains_key(&p) == e.is_some(), "contains_key is exact");
        }
        4 => {
            let p = probe(m, param(4));
            let e: Model = m.iter().filter(|(k, _)| starts(k, &p)).cloned().collect();
            let r: Model = y.scan_prefix(&p).map(|(k, v)| (k.to_vec(), *v)).collect();
            check(same_model(&r, &e), "scan_prefix is exact");
        }
        _ => check(canonical(y, true), "the archived tree is canonical"),
    }
}

#[inline(never)]
fn joins(op: usize, x: &impl AbstractVecMap<u8, u8>, y: &impl AbstractVecMap<u8, u8>, l: &Log<u8>) -> VecMap<[(u8, u8); 2]> {
    match op {
        0 => x.outer_join(y, |x| match x {
            OuterJoinArg::Left(k, v) => l.call(*k, Some(*v), None),
            OuterJoinArg::Right(k, w) => l.call(*k, None, Some(*w)),
            OuterJoinArg::Both(k, v, w) => l.call(*k, Some(*v), Some(*w)),
        }),
        1 => x.left_join(y, |k, v, w| l.call(*k, Some(*v), w.copied())),
        2 => x.right_join(y, |k, v, w| l.call(*k, v.copied(), Some(*w))),
        _ => x.inner_join(y, |k, v, w| l.call(*k, Some(*v), Some(*w))),
    }
}
#[inline(never)]
fn map<K: Sym + 'static + rkyv::Archive<Archived = K> + rkyv::Serialize<Ser> + for<'b> bytecheck::CheckBytes<Ctx<'b>>, A: Array<Item = (K, u8)>>()
where
    K: Deserialize<K, Infallible>,
{
    let sa = Shape::pick(0);
    let op = choice(3);
    let spilled = sa.n <= A::size() && choice(2) == 1;
    split();
    let ka = sa.sorted::<K>();
    let va = any::<u8>(ka.len());
    let x: VecMap<A> = map_of(&ka, &va, spilled);
    let bx = Exact::new(&archive(&x));
    let ax = match open::<VecMap<A>>(bx.bytes()) {
        Some(x) => x,
        None => return check(false, "validation accepts the archive"),
    };
    match op {
        0 => {
            let k = K::sym();
            let (e, v) = lookup(&ka, &va, &k);
            match ax.get(&k) {
                None => check(!e, "get finds what is there"),
                Some(w) => check(e & (v == *w), "get finds only what is there"),
            }
            check(AbstractVecMap::is_empty(ax) == ka.is_empty(), "is_empty");
        }
        1 => {
            let z: Result<VecMap<A>, _> = ax.deserialize(&mut Infallible);
            match z {
                Ok(z) => {
                    check(same_map(&ka, &va, z.as_ref()), "the map read back has the same mappings");
                    check(z == x, "the map read back is equal");
                    outs(&unzip(z.as_ref()).0);
                }
                Err(_) => check(false, "reading back works"),
            }
        }
        _ => {
            check(same_map(&ka, &va, ax.as_slice()), "the archived map has the same mappings");
            let mut n = 0;
            for (k, v) in ax.iter() {
                check((*k == ka[n]) & (*v == va[n]), "iteration is exact");
                n += 1;
            }
            check(n == ka.len(), "iteration is complete");
        }
    }
}
#[inline(never)]
fn tree_ops<T: Tree, X: AbstractRadixTree<u8, u8, Materialized = T>>(op: usize, a: &Model, b: &Model, mut x: T, y: &T, ax: &X, ay: &X) {
    let j = join(a, b);
    let d = Decide::new(&j, true);
    let op = match op {
        0 => {
            x.union_with(ay);
            6
        }
        1 => {
            x = x.intersection(ay);
            1
        }
        2 => {
            x.difference_with(ay);
            8
        }
        3 => {
            x = ax.outer_combine(ay, |v, w| d.ask(*v, *w));
            3
        }
        4 => {
            x = ax.inner_combine(y, |v, w| d.ask(*v, *w));
            4
        }
        5 => {
            x = ax.left_combine(ay, |v, w| d.ask_left(*v, w.copied()));
            5
        }
        6 => return check(ax.is_subset(ay) == j.iter().all(|x| x.2.is_some()), "is_subset is exact"),
        7 => return check(ax.is_superset(y) == j.iter().all(|x| x.1.is_some()), "is_superset is exact"),
        8 => return check(x.intersects(ay) == j.iter().any(|x| x.1.is_some() && x.2.is_some()), "intersects is exact"),
        9 => {
            x.outer_combine_with(ay, |v, w| d.ask_mut(v, *w));
            9
        }
        10 => {
            x.left_combine_with(ay, |v, w| d.ask_mut(v, *w));
            11
        }
        11 => {
            x.inner_combine_with(ay, |v, w| d.ask_mut(v, *w));
            10
        }
        12 => {
            x = x.difference(ay);
            2
        }
        13 => {
            x.remove_prefix_with(ay, |_| true);
            let e: Model = a.iter().filter(|(k, _)| !b.iter().any(|(p, _)| starts(k, p))).cloned().collect();
            return check_tree(&x, &e);
        }
        _ => {
            x.retain_prefix_with(ay, |_| true);
            let e: Model = a.iter().filter(|(k, _)| b.iter().any(|(p, _)| starts(k, p))).cloned().collect();
            return check_tree(&x, &e);
        }
    };
    let e = combined(op, &j, &d);
    check_tree(&x, &e);
    check(Tree::eq(&x, &tree(&e)), "the result is equal to a freshly built tree");
}
