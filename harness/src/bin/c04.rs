//! C04: building a collection sorts and deduplicates exactly
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::*;
use vh::*;

#[inline(never)]
fn exact<T: Sym>(a: &[T], r: &[T]) {
    check(is_ascending(r), "strictly ascending");
    let w = T::sym();
    check(member(r, &w) == member(a, &w), "exactly the distinct elements given");
    outs(r);
}
/// equal keys can be told apart by the second field
#[derive(Clone, Copy, Debug)]
struct Tag(u8, u8);
impl PartialEq for Tag {
    fn eq(&self, o: &Tag) -> bool {
        self.0 == o.0
    }
}
impl Eq for Tag {}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Tag) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tag {
    fn cmp(&self, o: &Tag) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
/// an iterator that hides its length
struct Plain<I>(I);
impl<I: Iterator> Iterator for Plain<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
#[inline(never)]
fn keep(which: usize) {
    let a = sequence::<u8>(0);
    let mut t: Vec<Tag> = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        t.push(Tag(a[i], i as u8));
    }
    let last = which & 1 == 1;
    let k = if last { Keep::Last } else { Keep::First };
    let r: Vec<Tag> = match which / 2 {
        0 => sort_dedup(t.iter().copied(), k),
        1 => sort_dedup_by_key(t.iter().copied(), k, |t| &t.0),
        _ => {
            let r: smallvec::SmallVec<[Tag; 4]> = sort_dedup_by_key(Plain(t.iter().copied()), k, |t| &t.0);
            r.into_vec()
        }
    };
    let (mut rk, mut rv) = (vec![], vec![]);
    for x in &r {
        rk.push(x.0);
        rv.push(x.1);
    }
    check(is_ascending(&rk), "strictly ascending");
    let w = u8();
    // position of the first or last occurrence of the witness
    let (mut f, mut p) = (false, 0u8);
    for i in 0..a.len() {
        let e = a[i] == w;
        let m = ones(e & (last | !f));
        f |= e;
        p = (i as u8 & m) | (p & !m);
    }
    let g = lookup(&rk, &rv, &w);
    check(g.0 == f, "exactly the distinct keys given");
    check(!f | (g.1 == p), "the occurrence kept is the one asked for");
    outs(&rk);
    outs(&rv);
}
harnesses! {
    fn h_collect() {
        let a = sequence::<u8>(0);
        let r: VecSet<[u8; 4]> = a.iter().cloned().collect();
        exact(&a, r.as_ref());
    }
    fn h_collect_plain() {
        // no size hint, signed elements, everything inline
        let a = sequence::<i16>(0);
        let r: VecSet<[i16; 8]> = Plain(a.iter().cloned()).collect();
        exact(&a, r.as_ref());
    }
    fn h_from() {
        let which = choice(4);
        let a = sequence::<u8>(0);
        let r: VecSet<[u8; 2]> = match which {
            0 => a.clone().into(),
            1 => a.iter().cloned().collect::<BTreeSet<u8>>().into(),
            2 => {
                let mut s = VecSet::default();
                s.extend(a.iter().cloned());
                s
            }
            _ => {
                if a.len() == 3 {
                    vecset! {a[0], a[1], a[2]}
                } else {
                    let mut s = VecSet::empty();
                    for x in &a {
                        s.insert(*x);
                    }
                    s
                }
            }
        };
        exact(&a, r.as_ref());
        if a.len() == 1 {
            let s: VecSet<[u8; 2]> = VecSet::single(a[0]);
            check(same(s.as_ref(), &a), "single has the element");
        }
    }
    fn h_map() {
        let which = choice(4);
        let k = sequence::<u8>(0);
        let v = any::<u8>(k.len());
        let p = zip(&k, &v);
        let m: VecMap<[(u8, u8); 4]> = match which {
            0 => p.iter().cloned().collect(),
            1 => Plain(p.iter().cloned()).collect(),
            2 => p.iter().cloned().collect::<BTreeMap<u8, u8>>().into(),
            _ => {
                if k.len() == 3 {
                    vecmap! {k[0] => v[0], k[1] => v[1], k[2] => v[2]}
                } else {
                    let mut m = VecMap::default();
                    m.extend(p.iter().cloned());
                    m
                }
            }
        };
        check_map(&k, &v, m.as_ref());
        if k.len() == 1 {
            let s: VecMap<[(u8, u8); 4]> = VecMap::single((k[0], v[0]));
            check(same_map(&k, &v, s.as_ref()), "single has the mapping");
        }
    }
    fn h_keep() {
        let which = choice(6);
        keep(which)
    }
    fn h_stateful() {
        // whatever the iterator says about its length
        let n = range(0, 3);
        let hint = choice(3);
        split();
        let a = any::<u8>(n);
        struct It<'a>(&'a [u8], usize, &'a Cell<usize>);
        impl<'a> Iterator for It<'a> {
            type Item = u8;
            fn next(&mut self) -> Option<u8> {
                let i = self.2.get();
                self.2.set(i + 1);
                self.0.get(i).copied()
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                match self.1 {
                    0 => (0, None),
                    1 => (usize::MAX, None),
                    _ => (1000, Some(3)),
                }
            }
        }
        let c = Cell::new(0);
        let r: VecSet<[u8; 2]> = It(&a, hint, &c).collect();
        exact(&a, r.as_ref());
        check(c.get() > n, "all elements taken");
    }
}
