//! C19: validating an untrusted archive
use rkyv::Archive;
use vec_collections::radix_tree::*;
use vec_collections::*;
use vh::rk::*;
use vh::tree::*;
use vh::*;

/// a buffer of arbitrary bytes, `least` to `most` long
#[inline(never)]
fn arbitrary(least: usize, most: usize) -> Exact {
    let n = range(least, most);
    let v: Vec<u8> = any(n);
    if n > 24 {
        // all cases, divided into 64 classes
        let (a, b) = (choice(8), choice(8));
        assume((v[n - 8] >> 2) as usize & 7 == a);
        assume(v[n - 16] as usize & 7 == b);
    }
    split();
    Exact::new(&v)
}
/// overwrites some bytes of an archive: a window of `w` bytes, and one that is at least `d` earlier
#[inline(never)]
fn damage(b: &mut [u8], w: usize, two: bool) {
    let at = choice(b.len() - w + 1);
    let at2 = if two { choice(b.len() - w + 1) } else { at };
    split();
    for i in 0..w {
        b[at + i] = u8();
    }
    if at2 != at {
        for i in 0..w {
            b[at2 + i] = u8();
        }
    }
}
fn inside<T>(b: &[u8], s: &[T]) -> bool {
    let (lo, hi) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
    let p = s.as_ptr() as usize;
    s.is_empty() || (p >= lo && p + std::mem::size_of_val(s) <= hi)
}
#[inline(never)]
fn set<T: Sym + Archive<Archived = T> + for<'b> bytecheck::CheckBytes<Ctx<'b>>, A: Array<Item = T>>(b: Exact) {
    let x = match open::<VecSet<A>>(b.bytes()) {
        Some(x) => x,
        None => return cover("refused"),
    };
    let s = x.as_slice();
    check(inside(b.bytes(), s), "the elements are inside the buffer");
    check(is_ascending(s), "elements are strictly ascending");
    let e = T::sym();
    check(x.contains(&e) == member(s, &e), "lookups agree with a linear scan");
    outs(s);
    if s.len() > 1 {
        cover("accepted with several elements");
    }
}
/// elements that not all bit patterns are valid for
#[inline(never)]
fn strict<T: Copy + Ord + Into<u32> + Archive<Archived = T> + for<'b> bytecheck::CheckBytes<Ctx<'b>>, A: Array<Item = T>>(b: Exact, valid: fn(u32) -> bool) {
    let x = match open::<VecSet<A>>(b.bytes()) {
        Some(x) => x,
        None => return cover("refused"),
    };
    let s = x.as_slice();
    check(inside(b.bytes(), s), "the elements are inside the buffer");
    let mut ok = true;
    for e in s {
        let r: u32 = unsafe {
            let p = e as *const T as *const u8;
            if std::mem::size_of::<T>() == 1 {
                *p as u32
            } else {
                (p as *const u32).read_unaligned()
            }
        };
        ok &= valid(r);
    }
    check(ok, "all elements are valid");
    check(is_ascending(s), "elements are strictly ascending");
    if s.len() > 1 {
        cover("accepted with several elements");
    }
}
#[inline(never)]
fn map<K: Sym + 'static + Archive<Archived = K> + for<'b> bytecheck::CheckBytes<Ctx<'b>>, A: Array<Item = (K, u8)>>(b: Exact) {
    let x = match open::<VecMap<A>>(b.bytes()) {
        Some(x) => x,
        None => return cover("refused"),
    };
    let s: &[(K, u8)] = x.as_slice();
    check(inside(b.bytes(), s), "the mappings are inside the buffer");
    let (k, v) = unzip(s);
    check(is_ascending(&k), "keys are strictly ascending");
    let p = K::sym();
    let (e, w) = lookup(&k, &v, &p);
    match x.get(&p) {
        None => check(!e, "lookups agree with a linear scan"),
        Some(u) => check(e & (*u == w), "lookups agree with a linear scan"),
    }
    outs(&k);
    if s.len() > 1 {
        cover("accepted with several mappings");
    }
}
#[inline(never)]
fn valid<T: AbstractRadixTree<u8, u8>>(b: &[u8], t: &T, root: bool) -> bool {
    if !inside(b, t.prefix()) || !inside(b, t.children()) {
        return false;
    }
    let c = t.children();
    if !root && t.prefix().is_empty() {
        return false;
    }
    let mut ok = true;
    for i in 0..c.len() {
        if !valid(b, &c[i], false) {
            return false;
        }
        ok &= i == 0 || c[i - 1].prefix()[0] < c[i].prefix()[0];
    }
    ok
}
#[inline(never)]
fn queries<T: AbstractRadixTree<u8, u8>>(b: &[u8], t: &T) {
    check(valid(b, t, true), "children are ascending with prefixes that are not empty");
    let m = contents(t);
    let mut ok = true;
    for i in 1..m.len() {
        ok &= order(&m[i - 1].0, &m[i].0) == std::cmp::Ordering::Less;
    }
    check(ok, "keys are strictly ascending");
    let p = probe(&m, 2);
    let e = find(&m, &p);
    check(t.get(&p).copied() == e, "lookups agree with a linear scan");
    check(t.contains_key(&p) == e.is_some(), "lookups agree with a linear scan");
    let n: Vec<_> = t.scan_prefix(&p).map(|x| *x.1).collect();
    let e: Vec<_> = m.iter().filter(|x| starts(&x.0, &p)).map(|x| x.1).collect();
    check(same(&n, &e), "prefix lookups agree with a linear scan");
    if m.len() > 0 {
        cover("accepted with a mapping");
    }
    if t.children().len() > 0 {
        cover("accepted with children");
    }
}
#[inline(never)]
fn flat(b: Exact) {
    match open::<RadixTree<u8, u8>>(b.bytes()) {
        Some(t) => queries(b.bytes(), t),
        None => cover("refused"),
    }
}
#[inline(never)]
fn arc(b: Exact) {
    match open::<ArcRadixTree<u8, u8>>(b.bytes()) {
        Some(t) => queries(b.bytes(), t),
        None => cover("refused"),
    }
}
/// a tree the archive of which is damaged
#[inline(never)]
fn sample<T: AbstractRadixTreeMut<u8, u8>>() -> T {
    let keys: &[&[u8]] = match param(0) {
        0 => &[&[1]],
        1 => &[&[1], &[2]],
        2 => &[&[1], &[1, 2], &[3, 4]],
        _ => &[&[], &[1, 5], &[1, 7], &[3]],
    };
    let mut t = T::empty();
    for (i, k) in keys.iter().enumerate() {
        t.insert(k, 7 + i as u8);
    }
    t
}
harnesses! {
    fn h_set() { set::<u8, [u8; 2]>(arbitrary(param(0), param(1))) }
    fn h_set_wide() { set::<i32, [i32; 2]>(arbitrary(param(0), param(1))) }
    fn h_set_bool() { strict::<bool, [bool; 2]>(arbitrary(param(0), param(1)), |x| x < 2) }
    fn h_set_char() { strict::<char, [char; 2]>(arbitrary(param(0), param(1)), |x| x < 0xd800 || (x > 0xdfff && x < 0x110000)) }
    fn h_map() { map::<u8, [(u8, u8); 2]>(arbitrary(param(0), param(1))) }
    fn h_map_wide() { map::<u16, [(u16, u8); 2]>(arbitrary(param(0), param(1))) }
    fn h_tree() { flat(arbitrary(param(0), param(1))) }
    fn h_arc() { arc(arbitrary(param(0), param(1))) }
    fn h_set_damaged() {
        let x: VecSet<[u8; 2]> = (0..param(0)).map(|x| 3 * x as u8).collect();
        let b = archive(&x);
        let mut v = b.to_vec();
        damage(&mut v, param(1), param(2) == 1);
        set::<u8, [u8; 2]>(Exact::new(&v))
    }
    fn h_map_damaged() {
        let x: VecMap<[(u8, u8); 2]> = (0..param(0)).map(|x| (3 * x as u8, 77)).collect();
        let b = archive(&x);
        let mut v = b.to_vec();
        damage(&mut v, param(1), param(2) == 1);
        map::<u8, [(u8, u8); 2]>(Exact::new(&v))
    }
    fn h_tree_damaged() {
        let b = archive(&sample::<RadixTree<u8, u8>>());
        let mut v = b.to_vec();
        damage(&mut v, param(1), param(2) == 1);
        flat(Exact::new(&v))
    }
    fn h_arc_damaged() {
        let b = archive(&sample::<ArcRadixTree<u8, u8>>());
        let mut v = b.to_vec();
        damage(&mut v, param(1), param(2) == 1);
        arc(Exact::new(&v))
    }
}
