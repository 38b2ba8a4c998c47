//! Archives
use crate::*;
use rkyv::de::{SharedDeserializeRegistry, SharedPointer};
use rkyv::ser::serializers::{AlignedSerializer, AllocScratch, CompositeSerializer};
use rkyv::ser::{Serializer, SharedSerializeRegistry};
use rkyv::validation::validators::{ArchiveValidator, PrefixRange, SuffixRange};
use rkyv::validation::{check_archived_root_with_context, ArchiveContext, SharedContext};
use rkyv::{AlignedVec, Archive, Fallible, Serialize};
use std::alloc::Layout;
use std::any::TypeId;

#[derive(Debug)]
pub struct Bad;
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("bad")
    }
}
impl std::error::Error for Bad {}

/// rkyv's registry of shared pointers, without hashing
#[derive(Default)]
pub struct Shared(Vec<(*const u8, usize)>);
impl Fallible for Shared {
    type Error = Bad;
}
impl SharedSerializeRegistry for Shared {
    fn get_shared_ptr(&mut self, p: *const u8) -> Option<usize> {
        self.0.iter().find(|x| x.0 == p).map(|x| x.1)
    }
    fn add_shared_ptr(&mut self, p: *const u8, pos: usize) -> Result<(), Bad> {
        self.0.push((p, pos));
        Ok(())
    }
}
pub type Ser = CompositeSerializer<AlignedSerializer<AlignedVec>, AllocScratch, Shared>;
#[inline(never)]
pub fn archive<T: Serialize<Ser>>(t: &T) -> AlignedVec {
    let mut s = CompositeSerializer::new(AlignedSerializer::new(AlignedVec::new()), AllocScratch::new(), Shared::default());
    match s.serialize_value(t) {
        Ok(_) => {}
        Err(_) => check(false, "serialising works"),
    }
    s.into_serializer().into_inner()
}

#[derive(Default)]
pub struct Unshare(Vec<(*const u8, Box<dyn SharedPointer>)>);
impl Fallible for Unshare {
    type Error = Bad;
}
impl SharedDeserializeRegistry for Unshare {
    fn get_shared_ptr(&mut self, p: *const u8) -> Option<&dyn SharedPointer> {
        self.0.iter().find(|x| x.0 == p).map(|x| &*x.1)
    }
    fn add_shared_ptr(&mut self, p: *const u8, s: Box<dyn SharedPointer>) -> Result<(), Bad> {
        self.0.push((p, s));
        Ok(())
    }
}

/// rkyv's validator, with errors that are not worth printing and the shared pointers in a list
pub struct Ctx<'a>(ArchiveValidator<'a>, Vec<(*const u8, TypeId)>);
impl<'a> Ctx<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Ctx(ArchiveValidator::new(b), vec![])
    }
}
impl<'a> Fallible for Ctx<'a> {
    type Error = Bad;
}
impl<'a> ArchiveContext for Ctx<'a> {
    type PrefixRange = PrefixRange;
    type SuffixRange = SuffixRange;
    unsafe fn bounds_check_ptr(&mut self, base: *const u8, offset: isize) -> Result<*const u8, Bad> {
        match self.0.bounds_check_ptr(base, offset) {
            // one path for each offset
            Ok(_) => Ok(base.offset(concrete(offset as u64) as isize)),
            Err(_) => Err(Bad),
        }
    }
    unsafe fn bounds_check_layout(&mut self, p: *const u8, l: &Layout) -> Result<(), Bad> {
        self.0.bounds_check_layout(p, l).map_err(|_| Bad)
    }
    unsafe fn bounds_check_subtree_ptr_layout(&mut self, p: *const u8, l: &Layout) -> Result<(), Bad> {
        self.0.bounds_check_subtree_ptr_layout(p, l).map_err(|_| Bad)
    }
    unsafe fn push_prefix_subtree_range(&mut self, root: *const u8, end: *const u8) -> Result<PrefixRange, Bad> {
        self.0.push_prefix_subtree_range(root, end).map_err(|_| Bad)
    }
    fn pop_prefix_range(&mut self, r: PrefixRange) -> Result<(), Bad> {
        self.0.pop_prefix_range(r).map_err(|_| Bad)
    }
    unsafe fn push_suffix_subtree_range(&mut self, start: *const u8, root: *const u8) -> Result<SuffixRange, Bad> {
        self.0.push_suffix_subtree_range(start, root).map_err(|_| Bad)
    }
    fn pop_suffix_range(&mut self, r: SuffixRange) -> Result<(), Bad> {
        self.0.pop_suffix_range(r).map_err(|_| Bad)
    }
    fn finish(&mut self) -> Result<(), Bad> {
        self.0.finish().map_err(|_| Bad)
    }
}
impl<'a> SharedContext for Ctx<'a> {
    fn register_shared_ptr(&mut self, p: *const u8, t: TypeId) -> Result<bool, Bad> {
        match self.1.iter().find(|x| x.0 == p) {
            Some(x) if x.1 != t => Err(Bad),
            Some(_) => Ok(false),
            None => {
                self.1.push((p, t));
                Ok(true)
            }
        }
    }
}
/// validated access
#[inline(never)]
pub fn open<'a, T: Archive>(b: &'a [u8]) -> Option<&'a T::Archived>
where
    T::Archived: for<'b> bytecheck::CheckBytes<Ctx<'b>>,
{
    let mut c = Ctx::new(b);
    check_archived_root_with_context::<T, Ctx>(b, &mut c).ok()
}
/// an archive in a buffer of exactly its size
pub struct Exact {
    p: *mut u8,
    n: usize,
}
impl Exact {
    #[inline(never)]
    pub fn new(b: &[u8]) -> Exact {
        let p = unsafe { std::alloc::alloc(Layout::from_size_align_unchecked(b.len().max(1), 16)) };
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
        Exact { p, n: b.len() }
    }
    pub fn bytes(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.n) }
    }
}
impl Drop for Exact {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.p, Layout::from_size_align_unchecked(self.n.max(1), 16)) }
    }
}
