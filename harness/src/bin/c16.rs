//! C16: prefix operations select exactly the keys with the prefix
use vec_collections::radix_tree::*;
use vh::tree::*;
use vh::*;

harnesses! {
    fn h_prefix() { check_prefix::<RadixTree<u8, u8>>(tree) }
    fn h_prefixes() { check_prefixes::<RadixTree<u8, u8>>(tree) }
}
