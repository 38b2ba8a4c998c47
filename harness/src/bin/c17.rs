//! C17: all radix tree flavours agree and snapshots are isolated
use std::collections::BTreeMap;
use vec_collections::radix_tree::*;
use vh::tree::*;
use vh::*;

type Plain = RadixTree<u8, u8>;
type Arc = ArcRadixTree<u8, u8>;
type Lazy = LazyRadixTree<'static, u8, u8>;
fn arc_from(m: &Model) -> Arc {
    Arc::from(tree::<Plain>(m))
}
fn lazy_from(m: &Model) -> Lazy {
    Lazy::from(tree::<Plain>(m))
}
/// insertions, lookups and iteration
#[inline(never)]
fn insert<T: Tree + 'static>() {
    let ka = Keys::pick(0);
    let op = choice(4);
    split();
    let keys = ka.any();
    let mut t = T::empty();
    let mut m = Model::new();
    for (i, k) in keys.iter().enumerate() {
        t.insert(k, i as u8);
        put(&mut m, k, i as u8);
    }
    match op {
        0 => check_tree(&t, &m),
        1 => {
            let v: Vec<u8> = t.values().take(m.len() + 1).copied().collect();
            let e: Vec<u8> = m.iter().map(|x| x.1).collect();
            check(same(&v, &e), "the values in key order");
        }
        2 => {
            let p = probe(&m, param(4));
            let e = find(&m, &p);
            check(t.get(&p).copied() == e, "get finds what was inserted last");
            check(t.contains_key(&p) == e.is_some(), "contains_key is exact");
        }
        _ => check(same_model(&t.into_iter().map(|(k, v)| (k.to_vec(), *v)).collect(), &m), "consuming iteration"),
    }
}
/// changes `x` and its model
#[inline(never)]
fn change<T: Tree>(op: usize, x: &mut T, m: &mut Model, other: &Model, build: fn(&Model) -> T) {
    match op {
        0 => {
            let k = if other.is_empty() { vec![] } else { other[0].0.clone() };
            x.insert(&k, 200);
            put(m, &k, 200);
        }
        1 => {
            x.remove_prefix_with(&build(other), |_| true);
            m.retain(|(k, _)| !other.iter().any(|(p, _)| starts(k, p)));
        }
        2 => {
            x.retain_prefix_with(&build(other), |_| true);
            m.retain(|(k, _)| other.iter().any(|(p, _)| starts(k, p)));
        }
        3 => {
            let p: Key = vec![5];
            x.prepend(&p);
            for (k, _) in m.iter_mut() {
                k.insert(0, 5);
            }
        }
        op => {
            let j = join(m, other);
            let d = Decide::new(&j, true);
            combine(op - 4, x, &build(other), &d);
            *m = combined(op - 4, &j, &d);
        }
    }
}
// by value combines do not change a tree in place: the first six are left out here
const CHANGES: [usize; 10] = [0, 1, 2, 3, 10, 11, 12, 13, 14, 15];
#[inline(never)]
fn isolated<T: Tree>(build: fn(&Model) -> T) {
    let (ka, kb) = (Keys::pick(0), Keys::pick(4));
    let how = choice(3);
    let (op, op2) = (CHANGES[choice(CHANGES.len())], CHANGES[choice(2)]);
    split();
    let (a, b) = (ka.model(1), kb.model(51));
    let mut x = build(&a);
    // a snapshot: a clone, or something that shares nodes with the tree
    let (mut s, mut e): (T, Model) = match how {
        0 => (x.clone(), a.clone()),
        1 => {
            let p = if a.is_empty() { vec![] } else { a[0].0[..a[0].0.len().min(1)].to_vec() };
            (x.filter_prefix(&p), a.iter().filter(|(k, _)| starts(k, &p)).cloned().collect())
        }
        _ => {
            let mut y = T::empty();
            y.union_with(&x);
            (y, a.clone())
        }
    };
    let kept = s.clone();
    let kept_model = e.clone();
    let mut m = a.clone();
    change(op, &mut x, &mut m, &b, build);
    check_tree(&x, &m);
    check_tree(&s, &e);
    change(op2, &mut s, &mut e, &b, build);
    check_tree(&s, &e);
    check_tree(&x, &m);
    check_tree(&kept, &kept_model);
    drop(s);
    change(0, &mut x, &mut m, &b, build);
    check_tree(&x, &m);
    check_tree(&kept, &kept_model);
}
/// operands of a different flavour
#[inline(never)]
fn mixed<T: Tree, U: AbstractRadixTreeMut<u8, u8>>(build: fn(&Model) -> T, other: fn(&Model) -> U) {
    let (ka, kb) = (Keys::pick(0), Keys::pick(4));
    let op = choice(14);
    split();
    let (a, b) = (ka.model(1), kb.model(51));
    let (mut x, y) = (build(&a), other(&b));
    let j = join(&a, &b);
    let d = Decide::new(&j, true);
    let op = match op {
        0 => {
            x = x.intersection(&y);
            1
        }
        1 => {
            x = x.difference(&y);
            2
        }
        2 => {
            x = x.inner_combine(&y, |v, w| d.ask(*v, *w));
            4
        }
        3 => {
            x = x.left_combine(&y, |v, w| d.ask_left(*v, w.copied()));
            5
        }
        4 => {
            x.intersection_with(&y);
            7
        }
        5 => {
            x.difference_with(&y);
            8
        }
        6 => {
            x.inner_combine_with(&y, |v, w| d.ask_mut(v, *w));
            10
        }
        7 => {
            x.left_combine_with(&y, |v, w| d.ask_mut(v, *w));
            11
        }
        8 => {
            x.remove_prefix_with(&y, |_| true);
            let e: Model = a.iter().filter(|(k, _)| !b.iter().any(|(p, _)| starts(k, p))).cloned().collect();
            return check_tree(&x, &e);
        }
        9 => {
            x.retain_prefix_with(&y, |_| true);
            let e: Model = a.iter().filter(|(k, _)| b.iter().any(|(p, _)| starts(k, p))).cloned().collect();
            return check_tree(&x, &e);
        }
        10 => return check(x.is_subset(&y) == j.iter().all(|x| x.2.is_some()), "is_subset is exact"),
        11 => return check(x.is_superset(&y) == j.iter().all(|x| x.1.is_some()), "is_superset is exact"),
        12 => return check(x.is_disjoint(&y) == !j.iter().any(|x| x.1.is_some() && x.2.is_some()), "is_disjoint is exact"),
        _ => return check(x.intersects(&y) == j.iter().any(|x| x.1.is_some() && x.2.is_some()), "intersects is exact"),
    };
    check_tree(&x, &combined(op, &j, &d));
    check_tree(&x, &contents(&x));
}
harnesses! {
    fn h_arc_insert() { insert::<Arc>() }
    fn h_lazy_insert() { insert::<Lazy>() }
    fn h_arc_combine() { check_combine::<Arc>(tree) }
    fn h_lazy_combine() { check_combine::<Lazy>(tree) }
    fn h_arc_from_combine() { check_combine::<Arc>(arc_from) }
    fn h_lazy_from_combine() { check_combine::<Lazy>(lazy_from) }
    fn h_arc_predicates() { check_predicates::<Arc>(tree) }
    fn h_lazy_predicates() { check_predicates::<Lazy>(tree) }
    fn h_arc_prefix() { check_prefix::<Arc>(tree) }
    fn h_lazy_prefix() { check_prefix::<Lazy>(tree) }
    fn h_arc_prefixes() { check_prefixes::<Arc>(tree) }
    fn h_lazy_prefixes() { check_prefixes::<Lazy>(tree) }
    fn h_arc_isolated() { isolated::<Arc>(tree) }
    fn h_lazy_isolated() { isolated::<Lazy>(tree) }
    fn h_mixed() {
        match choice(4) {
            0 => mixed::<Arc, Plain>(tree, tree),
            1 => mixed::<Plain, Arc>(tree, tree),
            2 => mixed::<Lazy, Arc>(tree, tree),
            _ => mixed::<Arc, Lazy>(tree, tree),
        }
    }
    fn h_arc_all_arcs() {
        // as long as the nodes are kept, changes copy them
        let (ka, kb) = (Keys::pick(0), Keys::pick(4));
        let op = CHANGES[choice(CHANGES.len())];
        split();
        let (a, b) = (ka.model(1), kb.model(51));
        let mut x: Arc = tree(&a);
        let mut arcs = BTreeMap::new();
        x.all_arcs(&mut arcs);
        let mut kept: Vec<(Model, _)> = vec![];
        for arc in arcs.values() {
            kept.push((arc.iter().flat_map(|t| contents(t)).collect(), arc.clone()));
        }
        let mut m = a.clone();
        change(op, &mut x, &mut m, &b, tree);
        check_tree(&x, &m);
        for (m, arc) in &kept {
            let n: Model = arc.iter().flat_map(|t| contents(t)).collect();
            check(same_model(m, &n), "a kept node is unchanged");
        }
        drop(arcs);
        check_tree(&x, &m);
    }
}
