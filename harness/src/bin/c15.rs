//! C15: radix tree predicates are exact
use vec_collections::radix_tree::*;
use vh::tree::*;
use vh::*;

harnesses! {
    fn h_predicates() { check_predicates::<RadixTree<u8, u8>>(tree) }
    fn h_other_values() {
        // values of different types
        let (ka, kb) = (Keys::pick(0), Keys::pick(4));
        let op = choice(4);
        split();
        let (a, b) = (ka.model(1), kb.model(51));
        let x: RadixTree<u8, u8> = tree(&a);
        let mut y: RadixTree<u8, ()> = RadixTree::empty();
        for (k, _) in &b {
            y.insert(k, ());
        }
        let j = join(&a, &b);
        let r = match op {
            0 => x.is_subset(&y) == j.iter().all(|x| x.2.is_some()),
            1 => x.is_superset(&y) == j.iter().all(|x| x.1.is_some()),
            2 => x.is_disjoint(&y) == !j.iter().any(|x| x.1.is_some() && x.2.is_some()),
            _ => y.intersects(&x) == j.iter().any(|x| x.1.is_some() && x.2.is_some()),
        };
        check(r, "the predicate is exact");
        out(j.len() as u64);
    }
    fn h_combined() {
        // a tree that is the result of a combine
        let (ka, kb) = (Keys::pick(0), Keys::pick(4));
        let op = choice(COMBINES);
        let p = choice(5);
        split();
        let (a, b) = (ka.model(1), kb.model(51));
        let c = Keys::pick(8).model(150);
        let j = join(&a, &b);
        let d = Decide::new(&j, true);
        let mut x: RadixTree<u8, u8> = tree(&a);
        combine(op, &mut x, &tree::<RadixTree<u8, u8>>(&b), &d);
        let m = combined(op, &j, &d);
        let y: RadixTree<u8, u8> = tree(&c);
        let j = join(&m, &c);
        let r = match p {
            0 => x.is_subset(&y) == j.iter().all(|x| x.2.is_some()),
            1 => x.is_superset(&y) == j.iter().all(|x| x.1.is_some()),
            2 => x.is_disjoint(&y) == !j.iter().any(|x| x.1.is_some() && x.2.is_some()),
            3 => x.intersects(&y) == j.iter().any(|x| x.1.is_some() && x.2.is_some()),
            _ => x.is_empty() == m.is_empty(),
        };
        check(r, "the predicate is exact");
    }
}
