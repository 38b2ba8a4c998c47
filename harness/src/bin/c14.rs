//! C14: radix tree combines are exact, in place and by value
use vec_collections::radix_tree::*;
use vh::tree::*;
use vh::*;

harnesses! {
    fn h_combine() { check_combine::<RadixTree<u8, u8>>(tree) }
    fn h_other_values() {
        // trees whose values have different types
        let (ka, kb) = (Keys::pick(0), Keys::pick(4));
        let op = choice(4);
        split();
        let (a, b) = (ka.model(1), kb.model(51));
        let mut x: RadixTree<u8, u8> = tree(&a);
        let mut y: RadixTree<u8, u32> = RadixTree::empty();
        for (k, v) in &b {
            y.insert(k, *v as u32 + 1000);
        }
        let j = join(&a, &b);
        let d = Decide::new(&j, true);
        let op = match op {
            0 => {
                x = x.inner_combine(&y, |v, w| d.ask(*v, (*w - 1000) as u8));
                4
            }
            1 => {
                x = x.left_combine(&y, |v, w| d.ask_left(*v, w.map(|w| (*w - 1000) as u8)));
                5
            }
            2 => {
                x.inner_combine_with(&y, |v, w| d.ask_mut(v, (*w - 1000) as u8));
                10
            }
            _ => {
                x.left_combine_with(&y, |v, w| d.ask_mut(v, (*w - 1000) as u8));
                11
            }
        };
        let e = combined(op, &j, &d);
        check_tree(&x, &e);
        check(x == tree(&e), "the result is equal to a freshly built tree");
    }
    fn h_chain() {
        // a second combine of what the first one left
        let (ka, kb) = (Keys::pick(0), Keys::pick(4));
        let (op1, op2) = (choice(COMBINES), choice(COMBINES));
        split();
        let (a, b) = (ka.model(1), kb.model(51));
        let c = Keys::pick(8).model(150);
        let j = join(&a, &b);
        let d = Decide::new(&j, true);
        let mut x: RadixTree<u8, u8> = tree(&a);
        combine(op1, &mut x, &tree::<RadixTree<u8, u8>>(&b), &d);
        let m = combined(op1, &j, &d);
        let j = join(&m, &c);
        let d = Decide::new(&j, true);
        combine(op2, &mut x, &tree::<RadixTree<u8, u8>>(&c), &d);
        let e = combined(op2, &j, &d);
        check_tree(&x, &e);
        check(x == tree(&e), "the result is equal to a freshly built tree");
    }
}
