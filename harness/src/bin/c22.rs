//! C22: BTreeMap joins match their relational meaning
use std::collections::BTreeMap;
use vec_collections::btree_map::*;
use vec_collections::*;
use rkyv::collections::ArchivedBTreeMap;
use vh::rk::{archive, Exact};
use vh::*;

type M = BTreeMap<u8, u8>;
#[inline(never)]
fn map(k: &[u8], v: &[u8]) -> M {
    let mut m = M::new();
    for i in 0..k.len() {
        m.insert(k[i], v[i]);
    }
    m
}
#[inline(never)]
fn pairs(m: &M) -> Vec<(u8, u8)> {
    let mut r = vec![];
    for (k, v) in m {
        r.push((*k, *v));
    }
    r
}
#[inline(never)]
fn entries(m: &impl AbstractBTreeMap<u8, u8>) -> Vec<(u8, u8)> {
    let mut r = vec![];
    for (k, v) in m.iter() {
        r.push((*k, *v));
    }
    r
}
#[inline(never)]
fn join(op: usize, a: &impl AbstractBTreeMap<u8, u8>, b: &impl AbstractBTreeMap<u8, u8>, l: &Log<u8>) -> M {
    match op {
        0 => AbstractBTreeMap::outer_join(a, b, |x| match x {
            OuterJoinArg::Left(k, v) => l.call(*k, Some(*v), None),
            OuterJoinArg::Right(k, w) => l.call(*k, None, Some(*w)),
            OuterJoinArg::Both(k, v, w) => l.call(*k, Some(*v), Some(*w)),
        }),
        1 => AbstractBTreeMap::left_join(a, b, |k, v, w| l.call(*k, Some(*v), w.copied())),
        2 => AbstractBTreeMap::right_join(a, b, |k, v, w| l.call(*k, v.copied(), Some(*w))),
        _ => AbstractBTreeMap::inner_join::<_, _, _, ()>(a, b, |k, v, w| l.call(*k, Some(*v), Some(*w))),
    }
}
#[inline(never)]
fn join_with(op: usize, a: &mut M, b: &impl AbstractBTreeMap<u8, u8>, l: &Log<u8>) {
    let upd = |k: &u8, v: &mut u8, w: Option<&u8>| match l.call(*k, Some(*v), w.copied()) {
        Some(r) => {
            *v = r;
            true
        }
        None => {
            // a value that is dropped may be overwritten, too
            *v = u8();
            false
        }
    };
    match op {
        0 => a.outer_join_with(b, upd, |k, w| l.call(*k, None, Some(*w))),
        1 => a.left_join_with(b, upd),
        2 => a.right_join_with(b, |k, v, w| match v {
            Some(v) => upd(k, v, Some(w)),
            // there is nothing to keep
            None => {
                l.call(*k, None, Some(*w));
                let mut c = l.calls.borrow_mut();
                let keep = c.last().map(|c| c.keep) == Some(true);
                if let Some(c) = c.last_mut() {
                    c.keep = false;
                }
                keep
            }
        }),
        _ => a.inner_join_with(b, |k, v, w| upd(k, v, Some(w))),
    }
}
harnesses! {
    fn h_join() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(4);
        split();
        let (ka, kb) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (va, vb) = (any::<u8>(ka.len()), any::<u8>(kb.len()));
        let (a, b) = (map(&ka, &va), map(&kb, &vb));
        let l = Log::new(param(6));
        let r = join(op, &a, &b, &l);
        l.check(op, (&ka, &va), (&kb, &vb), &pairs(&r));
        check(same_map(&ka, &va, &pairs(&a)), "the left map is unchanged");
        check(same_map(&kb, &vb, &pairs(&b)), "the right map is unchanged");
    }
    fn h_join_with() {
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(4);
        split();
        let (ka, kb) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (va, vb) = (any::<u8>(ka.len()), any::<u8>(kb.len()));
        let (mut a, b) = (map(&ka, &va), map(&kb, &vb));
        let l = Log::new(param(6));
        join_with(op, &mut a, &b, &l);
        l.check(op, (&ka, &va), (&kb, &vb), &pairs(&a));
        check(same_map(&kb, &vb, &pairs(&b)), "the right map is unchanged");
    }
    fn h_archived() {
        // archived maps on either side or both
        let (sa, sb) = (Shape::pick(0), Shape::pick(3));
        let op = choice(4);
        let side = choice(4);
        split();
        let (ka, kb) = (sa.sorted::<u8>(), sb.sorted::<u8>());
        let (va, vb) = (any::<u8>(ka.len()), any::<u8>(kb.len()));
        let (mut a, b) = (map(&ka, &va), map(&kb, &vb));
        let (xa, xb) = (Exact::new(&archive(&a)), Exact::new(&archive(&b)));
        let aa: &ArchivedBTreeMap<u8, u8> = unsafe { rkyv::archived_root::<M>(xa.bytes()) };
        let ab: &ArchivedBTreeMap<u8, u8> = unsafe { rkyv::archived_root::<M>(xb.bytes()) };
        let l = Log::new(param(6));
        let r = match side {
            0 => join(op, aa, &b, &l),
            1 => join(op, &a, ab, &l),
            2 => join(op, aa, ab, &l),
            _ => {
                join_with(op, &mut a, ab, &l);
                a
            }
        };
        l.check(op, (&ka, &va), (&kb, &vb), &pairs(&r));
        check(same_map(&ka, &va, &entries(aa)), "the archived left map is the map");
        check(same_map(&kb, &vb, &entries(ab)), "the archived right map is the map");
        let k = u8();
        let (e, w) = lookup(&kb, &vb, &k);
        match AbstractBTreeMap::get(ab, &k) {
            None => check(!e, "get finds what is there"),
            Some(v) => check(e & (*v == w), "get finds only what is there"),
        }
    }
    fn h_view() {
        // both kinds of maps give their mappings in order
        let sa = Shape::pick(0);
        let arch = choice(2) == 1;
        let op = choice(2);
        split();
        let ka = sa.sorted::<u8>();
        let va = any::<u8>(ka.len());
        let a = map(&ka, &va);
        let xa = Exact::new(&archive(&a));
        let aa: &ArchivedBTreeMap<u8, u8> = unsafe { rkyv::archived_root::<M>(xa.bytes()) };
        match op {
            0 => provided(if arch { AbstractBTreeMap::iter(aa) } else { AbstractBTreeMap::iter(&a) }, ka.len(), |(k, v), i| (*k == ka[i]) & (*v == va[i])),
            _ => {
                let k = u8();
                let (e, w) = lookup(&ka, &va, &k);
                match if arch { AbstractBTreeMap::get(aa, &k) } else { AbstractBTreeMap::get(&a, &k) } {
                    None => check(!e, "get finds what is there"),
                    Some(v) => check(e & (*v == w), "get finds only what is there"),
                }
            }
        }
    }
}
