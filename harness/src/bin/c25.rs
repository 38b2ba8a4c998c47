//! C25: snapshots of copy-on-write and lazily loaded trees in several threads
use vec_collections::radix_tree::*;
use vh::tree::*;
use vh::*;

type Arc = ArcRadixTree<u8, u8>;
type Lazy = LazyRadixTree<'static, u8, u8>;

/// what a thread does to the snapshot it owns
struct Job<T> {
    tree: T,
    op: usize,
    key: Key,
    got: Option<u8>,
    seen: Model,
}
const OPS: usize = 7;
#[inline(never)]
fn work<T: Tree>(j: &mut Job<T>) {
    match j.op {
        0 => j.tree.insert(&j.key, 200),
        1 => j.got = j.tree.get(&j.key).copied(),
        2 => j.seen = j.tree.iter().take(8).map(|(k, v)| (k.to_vec(), *v)).collect(),
        3 => {
            let s = j.tree.clone();
            j.tree.insert(&j.key, 200);
            j.got = s.get(&j.key).copied();
        }
        4 => j.tree.remove_prefix_with(&T::single(&j.key, 0), |_| true),
        5 => j.tree = T::empty(),
        _ => j.seen = contents(&j.tree.filter_prefix(&j.key)),
    }
}
/// the same for the model: the tree afterwards must be as in `m`
#[inline(never)]
fn finished<T: Tree>(j: &Job<T>, a: &Model) {
    let mut m = a.clone();
    let k = &j.key;
    match j.op {
        0 | 3 => {
            put(&mut m, k, 200);
            check(j.op == 0 || j.got == find(a, k), "get finds what the thread's own snapshot holds");
        }
        1 => check(j.got == find(a, k), "get finds what the thread's own snapshot holds"),
        2 => check(same_model(&j.seen, a), "iteration yields the thread's own snapshot"),
        4 => m.retain(|(x, _)| !starts(x, k)),
        5 => m.clear(),
        _ => {
            let e: Model = a.iter().filter(|(x, _)| starts(x, k)).cloned().collect();
            check(same_model(&j.seen, &e), "filter_prefix of the thread's own snapshot");
        }
    }
    check_tree(&j.tree, &m);
}
/// where a thread's key is: how many of the tree's keys it may be next to, and how
#[derive(Clone, Copy)]
struct Near(usize, bool);
impl Near {
    fn pick(n: usize, op: usize) -> Near {
        if op == 2 || op == 5 || n == 0 {
            return Near(0, false);
        }
        Near(choice(n), choice(2) == 1)
    }
    /// one of the tree's keys with its last element replaced by any, or followed by any
    fn key(self, m: &Model) -> Key {
        let mut k = if m.is_empty() { vec![] } else { m[m.len() - 1 - self.0.min(m.len() - 1)].0.clone() };
        if self.1 {
            k.pop();
        }
        k.push(u8());
        k
    }
}
/// every thread owns a snapshot; the first one is the main thread
#[inline(never)]
fn snapshots<T: Tree + Send>(build: fn(&Model) -> T) {
    let ka = Keys::pick(0);
    let n = param(4);
    preemptions(param(5));
    let mut ops = vec![];
    let mut near = vec![];
    for i in 0..n {
        // which thread does which makes no difference
        let op = if i > 0 { range(ops[i - 1], OPS - 1) } else { choice(OPS) };
        ops.push(op);
        near.push(Near::pick(param(6), op));
    }
    // with the last reference kept elsewhere, or given up by one of the threads
    let keep = choice(2) == 1;
    split();
    let a = ka.model(1);
    let x = build(&a);
    let mut jobs: Vec<Job<T>> = vec![];
    for i in 0..n {
        let key = near[i].key(&a);
        jobs.push(Job { tree: x.clone(), op: ops[i], key, got: None, seen: vec![] });
    }
    let kept = if keep { Some(x.clone()) } else { None };
    drop(x);
    let mut running = vec![];
    while jobs.len() > 1 {
        running.push(spawn(jobs.pop().unwrap(), work::<T>));
    }
    let mut mine = jobs.pop().unwrap();
    work(&mut mine);
    while let Some(r) = running.pop() {
        let j = vh::wait_for(r);
        finished(&j, &a);
        out(contents(&j.tree).len() as u64);
    }
    finished(&mine, &a);
    if let Some(k) = kept {
        check_tree(&k, &a);
    }
    out(contents(&mine.tree).len() as u64);
}
/// threads that look at one and the same tree
struct Look {
    tree: *const Arc,
    op: usize,
    key: Key,
    got: Option<u8>,
    seen: Model,
    own: Option<Arc>,
}
unsafe impl Send for Look where Arc: Sync {}
#[inline(never)]
fn look(j: &mut Look) {
    let t: &Arc = unsafe { &*j.tree };
    match j.op {
        0 => j.got = t.get(&j.key).copied(),
        1 => j.seen = t.iter().take(8).map(|(k, v)| (k.to_vec(), *v)).collect(),
        2 => {
            let mut own = t.clone();
            own.insert(&j.key, 200);
            j.own = Some(own);
        }
        3 => j.own = Some(t.filter_prefix(&j.key)),
        _ => j.own = Some(t.union(&Arc::single(&j.key, 200))),
    }
}
#[inline(never)]
fn looked(j: &Look, a: &Model) {
    let mut m = a.clone();
    let k = &j.key;
    match j.op {
        0 => return check(j.got == find(a, k), "get finds what the shared tree holds"),
        1 => return check(same_model(&j.seen, a), "iteration yields the shared tree"),
        2 => put(&mut m, k, 200),
        3 => m.retain(|(x, _)| starts(x, k)),
        _ => {
            if find(a, k).is_none() {
                put(&mut m, k, 200)
            }
        }
    }
    check_tree(j.own.as_ref().unwrap(), &m);
}
/// the threads are the first to make a tree
#[inline(never)]
fn first<T: Tree + Send>() {
    let n = param(0);
    preemptions(param(1));
    let mut ops = vec![];
    for i in 0..n {
        ops.push(if i > 0 { range(ops[i - 1], 2) } else { choice(3) });
    }
    split();
    let mut jobs: Vec<Begin<T>> = vec![];
    for i in 0..n {
        jobs.push(Begin { op: ops[i], key: any::<u8>(2), tree: None });
    }
    let mut running = vec![];
    while jobs.len() > 1 {
        running.push(spawn(jobs.pop().unwrap(), begin::<T>));
    }
    let mut mine = jobs.pop().unwrap();
    begin(&mut mine);
    while let Some(r) = running.pop() {
        begun(&vh::wait_for(r));
    }
    begun(&mine);
}
struct Begin<T> {
    op: usize,
    key: Key,
    tree: Option<T>,
}
#[inline(never)]
fn begin<T: Tree>(j: &mut Begin<T>) {
    let k = &j.key;
    j.tree = Some(match j.op {
        0 => T::single(k, 1),
        1 => {
            let t = T::empty();
            let mut u = t.clone();
            u.insert(&k[..1], 1);
            u.insert(k, 1);
            u
        }
        _ => {
            let mut t = T::default();
            t.insert(k, 1);
            t.remove_prefix_with(&T::single(&k[..1], 1), |_| true);
            t
        }
    });
}
#[inline(never)]
fn begun<T: Tree>(j: &Begin<T>) {
    let k = &j.key;
    let m = match j.op {
        0 => vec![(k.clone(), 1)],
        1 => vec![(k[..1].to_vec(), 1), (k.clone(), 1)],
        _ => vec![],
    };
    check_tree(j.tree.as_ref().unwrap(), &m);
}
harnesses! {
    fn h_lazy_first() {
        first::<Lazy>()
    }
    fn h_arc_first() {
        first::<Arc>()
    }
    fn h_arc_shared() {
        let ka = Keys::pick(0);
        let n = param(4);
        preemptions(param(5));
        let mut ops = vec![];
        let mut near = vec![];
        for i in 0..n {
            ops.push(if i > 0 { range(ops[i - 1], 4) } else { choice(5) });
            near.push(Near::pick(param(6), if ops[i] == 1 { 2 } else { 0 }));
        }
        split();
        let a = ka.model(1);
        let x = Box::new(tree::<Arc>(&a));
        let mut jobs: Vec<Look> = vec![];
        for i in 0..n {
            let key = near[i].key(&a);
            jobs.push(Look { tree: &*x, op: ops[i], key, got: None, seen: vec![], own: None });
        }
        let mut running = vec![];
        while jobs.len() > 1 {
            running.push(spawn(jobs.pop().unwrap(), look));
        }
        let mut mine = jobs.pop().unwrap();
        look(&mut mine);
        while let Some(r) = running.pop() {
            looked(&vh::wait_for(r), &a);
        }
        looked(&mine, &a);
        check_tree(&*x, &a);
        out(mine.got.is_some() as u64);
    }
    fn h_lazy() {
        snapshots::<Lazy>(tree)
    }
    fn h_lazy_from() {
        snapshots::<Lazy>(|m| Lazy::from(tree::<RadixTree<u8, u8>>(m)))
    }
    fn h_lazy_archived() {
        // what is loaded from an archive, some of it perhaps only when a thread looks at it
        snapshots::<Lazy>(|m| {
            let b: &'static [u8] = Box::leak(Box::new(vh::rk::archive(&tree::<Lazy>(m))));
            let a = unsafe { rkyv::archived_root::<Lazy>(b) };
            Lazy::from(a)
        })
    }
    fn h_arc() {
        snapshots::<Arc>(tree)
    }
    fn h_arc_from() {
        snapshots::<Arc>(|m| Arc::from(tree::<RadixTree<u8, u8>>(m)))
    }
}
