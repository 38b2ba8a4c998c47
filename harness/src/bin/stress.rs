//! No property: things that code might do, to see that the engine can run them
use std::collections::*;
use std::rc::Rc;
use vh::*;

fn mix(v: &[u8]) -> u64 {
    v.iter().fold(7u64, |a, x| a.rotate_left(5).wrapping_mul(31).wrapping_add(*x as u64))
}
harnesses! {
    fn h_sorts() {
        let n = param(0);
        let mut v = any::<u8>(3);
        for i in 0..n {
            v.push((i * 37 % 101) as u8);
        }
        match choice(8) {
            0 => v.sort(),
            1 => v.sort_unstable(),
            2 => v.sort_by_key(|x| std::cmp::Reverse(*x)),
            3 => v.sort_by(|a, b| b.cmp(a)),
            4 => v.sort_unstable_by_key(|x| x ^ 0x55),
            5 => {
                v.sort_by_cached_key(|x| *x ^ 3);
            }
            6 => {
                v.select_nth_unstable(2);
                v.truncate(3);
            }
            _ => v.reverse(),
        }
        out(mix(&v));
        check(true, "ran");
    }
    fn h_collections() {
        let v = any::<u8>(2);
        let w: Vec<u8> = v.iter().copied().chain(1..20).collect();
        match choice(9) {
            0 => {
                let s: HashSet<u8> = w.iter().copied().collect();
                let mut r: Vec<u8> = s.into_iter().collect();
                r.sort();
                out(mix(&r));
            }
            1 => {
                let mut m: HashMap<u8, u8> = HashMap::new();
                for x in &w {
                    *m.entry(*x).or_insert(0) += 1;
                }
                out(m.len() as u64);
                out(m.get(&w[0]).copied().unwrap_or(0) as u64);
            }
            2 => {
                let s: BTreeSet<u8> = w.iter().copied().collect();
                out(s.range(3..9).count() as u64);
                out(mix(&s.into_iter().collect::<Vec<_>>()));
            }
            3 => {
                let mut d: VecDeque<u8> = VecDeque::new();
                for x in &w {
                    if x & 1 == 0 {
                        d.push_back(*x)
                    } else {
                        d.push_front(*x)
                    }
                }
                d.make_contiguous().sort();
                out(mix(&d.into_iter().collect::<Vec<_>>()));
            }
            4 => {
                let mut h: BinaryHeap<u8> = w.iter().copied().collect();
                let mut r = vec![];
                while let Some(x) = h.pop() {
                    r.push(x);
                }
                out(mix(&r));
            }
            5 => {
                let mut l: LinkedList<u8> = LinkedList::new();
                for x in &w {
                    l.push_back(*x);
                }
                out(l.iter().map(|x| *x as u64).sum());
            }
            6 => {
                let mut m: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
                for (i, x) in w.iter().enumerate() {
                    m.entry(*x / 4).or_default().push(i as u8);
                }
                m.retain(|k, _| k % 2 == 0);
                for (k, v) in &m {
                    out(*k as u64);
                    out(mix(v));
                }
            }
            7 => {
                let r = Rc::new(std::cell::RefCell::new(w.clone()));
                let q = r.clone();
                q.borrow_mut().push(3);
                out(mix(&r.borrow()));
                out(Rc::strong_count(&r) as u64);
            }
            _ => {
                let mut m = std::sync::Mutex::new(5u8);
                *m.lock().unwrap() += v[0] & 1;
                let o = std::sync::OnceLock::new();
                out(*o.get_or_init(|| 5u64));
                out(*m.get_mut().unwrap() as u64);
                let a = std::sync::atomic::AtomicU64::new(5);
                a.fetch_add(v[1] as u64, std::sync::atomic::Ordering::SeqCst);
                out(a.into_inner());
                let b = std::sync::Arc::new(v.clone());
                out(std::sync::Arc::try_unwrap(b).map(|x| mix(&x)).unwrap_or(0));
            }
        }
        check(true, "ran");
    }
    fn h_vecs() {
        let mut v: Vec<u8> = any::<u8>(2);
        v.extend(1..40u8);
        match choice(16) {
            0 => {
                v.dedup();
                v.drain(3..9);
            }
            1 => {
                let w: Vec<u8> = v.splice(2..5, [9, 9, 9, 9]).collect();
                out(mix(&w));
            }
            2 => {
                v.retain(|x| x % 3 != 0);
                v.rotate_left(4);
            }
            3 => {
                let (a, b) = v.split_at(10);
                out(mix(&[b, a].concat()));
            }
            4 => {
                for c in v.chunks(7) {
                    out(mix(c));
                }
                for w in v.windows(2).rev().take(3) {
                    out(w[0] as u64);
                }
            }
            5 => {
                out(v.binary_search(&13).unwrap_or(99) as u64);
                out(v.partition_point(|x| *x < 13) as u64);
                out(v[2..].binary_search_by(|p| p.cmp(&30)).unwrap_or(98) as u64);
                out(v[2..].binary_search_by_key(&7, |p| p / 2).unwrap_or(98) as u64);
            }
            6 => {
                v.copy_within(0..5, 10);
                v.swap(1, 3);
                v.resize(60, 1);
            }
            7 => {
                let s: Vec<u16> = v.iter().map(|x| *x as u16 * 3).collect();
                out(s.iter().map(|x| *x as u64).sum());
                out(s.iter().copied().max().unwrap_or(0) as u64);
                out(v.iter().zip(&s).filter(|(a, b)| **a as u16 == **b / 3).count() as u64);
            }
            8 => {
                let b: Box<[u8]> = v.clone().into_boxed_slice();
                out(mix(&b));
                let s: smallvec::SmallVec<[u8; 8]> = v.iter().copied().collect();
                out(s.len() as u64);
                let mut t = s.clone();
                t.insert_many(3, [1, 2, 3]);
                t.dedup();
                t.drain(1..3);
                t.retain(|x| *x > 4);
                out(mix(&t));
            }
            9 => {
                let s = format!("{:?} {:>5} {:x} {}", &v[2..6], v[3], v[4], "é".repeat(3));
                out(mix(s.as_bytes()));
                out(s.chars().count() as u64);
                out(s.split(' ').count() as u64);
                out(s.find("0x").unwrap_or(77) as u64);
                out(s.to_uppercase().len() as u64);
                out("12345".parse::<u64>().unwrap_or(0));
            }
            10 => {
                let w: Vec<Vec<u8>> = v.chunks(5).map(|c| c.to_vec()).collect();
                let x: Vec<u8> = w.into_iter().flatten().collect();
                out(mix(&x));
                let (a, b): (Vec<u8>, Vec<u8>) = x.iter().partition(|x| *x & 1 == 0);
                out(mix(&a) ^ mix(&b));
            }
            11 => {
                v.fill(3);
                out(v.iter().all(|x| *x == 3) as u64);
                out(v.starts_with(&[3, 3]) as u64);
                out((v[..5] == v[5..10]) as u64);
                out((v[..5] < v[5..11]) as u64);
            }
            12 => {
                let mut i = v.iter().peekable();
                let mut n = 0;
                while let Some(x) = i.next() {
                    if i.peek().map_or(false, |y| **y > *x) {
                        n += 1;
                    }
                }
                out(n);
                let r: Result<Vec<u8>, ()> = v.iter().map(|x| if *x < 255 { Ok(*x) } else { Err(()) }).collect();
                out(r.is_ok() as u64);
                out(v.iter().scan(0u64, |a, x| { *a += *x as u64; Some(*a) }).skip_while(|x| *x < 600).step_by(3).take_while(|x| *x < 900).sum());
            }
            13 => {
                let w = std::mem::take(&mut v);
                let mut w = std::mem::ManuallyDrop::new(w);
                let (p, l, c) = (w.as_mut_ptr(), w.len(), w.capacity());
                v = unsafe { Vec::from_raw_parts(p, l, c) };
                v.shrink_to_fit();
                v.reserve(100);
                unsafe { std::ptr::copy(v.as_ptr().add(3), v.as_mut_ptr().add(1), 9) };
            }
            14 => {
                let w: u128 = v[2..9].iter().map(|x| *x as u128).product::<u128>().wrapping_add(7);
                out(w as u64);
                out((w >> 64) as u64);
                out((w / 1000003) as u64);
                out(v[0].leading_zeros() as u64 + v[1].count_ones() as u64 + v[0].trailing_zeros() as u64);
                out(v[0].saturating_sub(v[1]) as u64);
                out((v[0] as i8).saturating_sub(v[1] as i8) as u8 as u64);
                out((v[0] as i8).saturating_add(v[1] as i8) as u8 as u64);
                out(v[0].checked_add(v[1]).unwrap_or(0) as u64);
                out((v[0] as u32).pow(3) as u64);
                out((v[0] as i8 as i32).rem_euclid(7) as u64);
                out(v[0].abs_diff(v[1]) as u64);
                out((v[1] as u16).swap_bytes() as u64);
                out((v[0] as u32).reverse_bits() as u64);
                out((v[0] as u64).isqrt());
            }
            _ => {}
        }
        out(mix(&v));
        check(true, "ran");
    }
    fn h_dyn() {
        let x = u8();
        let n = choice(4);
        let f: Box<dyn Fn(u8) -> u8> = match n {
            0 => Box::new(move |y| y ^ x),
            1 => Box::new(|y| y.wrapping_mul(3)),
            2 => Box::new(|_| 5),
            _ => Box::new(|y| if y > 9 { 1 } else { 2 }),
        };
        out(f(x) as u64);
        let i: Box<dyn Iterator<Item = u8>> = if n > 1 { Box::new(0..x & 7) } else { Box::new(std::iter::once(3).chain(std::iter::repeat(7).take(2))) };
        out(i.map(|x| x as u64).sum());
        out(attempt(|| if x == 77 { panic!("x {}", x) }) as u64);
        let s: std::borrow::Cow<[u8]> = if n == 0 { vec![1, 2].into() } else { (&[3u8][..]).into() };
        out(s.len() as u64);
        let o: Option<std::num::NonZeroU8> = std::num::NonZeroU8::new(x);
        out(o.map_or(0, |x| x.get()) as u64);
        check(std::any::type_name::<u8>() == "u8", "names");
        check(true, "ran");
    }
}
