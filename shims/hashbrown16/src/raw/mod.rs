//! The storage of the hash tables, replaced for the solver encoding.
//!
//! `RawTable` is a fixed array of `N` slots; the
//! hash of an element is ignored and lookups compare every occupied slot. The map, set and table
//! types on top of it are hashbrown's own. A table that would need more than `N` slots fails an
//! assertion, so the bound is checked and never silently cut.
mod alloc;
pub(crate) use self::alloc::{Allocator, Global};
use crate::TryReserveError;
use core::array;
use core::iter::FusedIterator;
use core::marker::PhantomData;
use core::mem::{self, ManuallyDrop};
use core::ptr::NonNull;

const fn parse(s: Option<&str>) -> usize {
    match s {
        None => 4,
        Some(s) => {
            let b = s.as_bytes();
            let mut i = 0;
            let mut n = 0usize;
            while i < b.len() {
                n = n * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            n
        }
    }
}
/// Bound on the number of elements in one table.
/// (Build-time tools share this crate; they get more room.)
const N: usize = if cfg!(kani) { parse(option_env!("VERIF_MAP_CAP")) } else { 256 };

pub struct Bucket<T> {
    ptr: *mut T,
    index: usize,
}
unsafe impl<T> Send for Bucket<T> {}
impl<T> Clone for Bucket<T> {
    fn clone(&self) -> Self {
        Bucket { ptr: self.ptr, index: self.index }
    }
}
impl<T> Bucket<T> {
    pub fn as_ptr(&self) -> *mut T { self.ptr }
    fn as_non_null(&self) -> NonNull<T> { unsafe { NonNull::new_unchecked(self.ptr) } }
    pub(crate) unsafe fn drop(&self) { self.ptr.drop_in_place() }
    pub(crate) unsafe fn read(&self) -> T { self.ptr.read() }
    pub(crate) unsafe fn write(&self, v: T) { self.ptr.write(v) }
    pub unsafe fn as_ref<'a>(&self) -> &'a T { &*self.ptr }
    pub unsafe fn as_mut<'a>(&self) -> &'a mut T { &mut *self.ptr }
}

/// Every element is an allocation of its own, so that a pointer to one is a choice between
/// objects and never a symbolic offset. A null pointer marks a free slot.
struct Slots<T> {
    at: [*const T; N],
    items: usize,
}
unsafe impl<T: Send> Send for Slots<T> {}
unsafe impl<T: Sync> Sync for Slots<T> {}
impl<T> Slots<T> {
    const fn new() -> Self {
        Slots { at: [core::ptr::null(); N], items: 0 }
    }
    fn drop_all(&mut self) {
        if self.items != 0 {
            let mut i = 0;
            while i < N {
                let p = self.at[i];
                if !p.is_null() {
                    self.at[i] = core::ptr::null();
                    // the allocation is leaked, the element is not
                    unsafe { (p as *mut T).drop_in_place() };
                }
                i += 1;
            }
        }
        self.items = 0;
    }
}

pub struct RawTable<T, A: Allocator = Global> {
    slots: Slots<T>,
    wanted: usize,
    alloc: A,
}

impl<T> RawTable<T, Global> {
    pub const fn new() -> Self { Self::new_in(Global) }
    pub fn with_capacity(capacity: usize) -> Self { Self::with_capacity_in(capacity, Global) }
}

fn capacity_overflows<T>(capacity: usize) -> bool {
    // one control byte per bucket, and buckets = capacity * 8 / 7 rounded up to a power of two
    let per = mem::size_of::<T>() + 1;
    capacity > (isize::MAX as usize / 2) / per
}

impl<T, A: Allocator> RawTable<T, A> {
    pub const fn new_in(alloc: A) -> Self {
        RawTable { slots: Slots::new(), wanted: 0, alloc }
    }
    pub fn with_capacity_in(capacity: usize, alloc: A) -> Self {
        if capacity_overflows::<T>(capacity) {
            panic!("Hash table capacity overflow");
        }
        RawTable { slots: Slots::new(), wanted: capacity, alloc }
    }
    pub fn allocator(&self) -> &A { &self.alloc }
    pub fn allocation_size(&self) -> usize { 0 }
    pub unsafe fn bucket_index(&self, b: &Bucket<T>) -> usize { b.index }
    pub unsafe fn bucket(&self, index: usize) -> Bucket<T> { Bucket { ptr: self.slots.at[index] as *mut T, index } }
    pub unsafe fn erase(&mut self, b: Bucket<T>) {
        self.release(b.index);
        self.slots.items -= 1;
        b.drop();
    }
    pub unsafe fn remove(&mut self, b: Bucket<T>) -> (T, usize) {
        self.release(b.index);
        self.slots.items -= 1;
        (b.read(), b.index)
    }
    pub(crate) unsafe fn remove_tagged(&mut self, b: Bucket<T>) -> (T, usize, Tag) {
        let (v, i) = self.remove(b);
        (v, i, Tag)
    }
    pub fn remove_entry(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<T> {
        match self.find(hash, eq) {
            Some(b) => Some(unsafe { self.remove(b).0 }),
            None => None,
        }
    }
    pub fn clear(&mut self) { self.slots.drop_all() }
    pub fn shrink_to(&mut self, min: usize, _hasher: impl Fn(&T) -> u64) { self.wanted = min }
    pub fn reserve(&mut self, additional: usize, _hasher: impl Fn(&T) -> u64) {
        if capacity_overflows::<T>(additional) {
            panic!("Hash table capacity overflow");
        }
    }
    pub fn try_reserve(&mut self, additional: usize, _hasher: impl Fn(&T) -> u64) -> Result<(), TryReserveError> {
        if capacity_overflows::<T>(additional) {
            return Err(TryReserveError::CapacityOverflow);
        }
        Ok(())
    }
    fn release(&mut self, index: usize) {
        let mut i = 0;
        while i < N {
            if i == index {
                self.slots.at[i] = core::ptr::null();
            }
            i += 1;
        }
    }
    fn put(&mut self, v: T) -> Bucket<T> {
        let ptr = crate::alloc::boxed::Box::into_raw(crate::alloc::boxed::Box::new(v));
        let mut i = 0;
        while i < N {
            if self.slots.at[i].is_null() {
                self.slots.at[i] = ptr;
                self.slots.items += 1;
                return Bucket { ptr, index: i };
            }
            i += 1;
        }
        panic!("VERIF-BOUND: table capacity");
    }
    pub fn insert(&mut self, _hash: u64, v: T, _hasher: impl Fn(&T) -> u64) -> Bucket<T> {
        self.put(v)
    }
    pub fn insert_entry(&mut self, hash: u64, v: T, hasher: impl Fn(&T) -> u64) -> &mut T {
        unsafe { self.insert(hash, v, hasher).as_mut() }
    }
    pub unsafe fn insert_no_grow(&mut self, _hash: u64, v: T) -> Bucket<T> {
        self.put(v)
    }
    unsafe fn replace_impl<F: FnOnce(T) -> Option<T>>(&mut self, b: Bucket<T>, f: F) -> bool {
        let (v, _) = self.remove(b);
        match f(v) {
            Some(v) => {
                self.put(v);
                true
            }
            None => false,
        }
    }
    pub unsafe fn replace_bucket_with<F: FnOnce(T) -> Option<T>>(&mut self, b: Bucket<T>, f: F) -> bool {
        self.replace_impl(b, f)
    }
    pub fn find_or_find_insert_index(
        &mut self,
        hash: u64,
        eq: impl FnMut(&T) -> bool,
        _hasher: impl Fn(&T) -> u64,
    ) -> Result<Bucket<T>, usize> {
        match self.find(hash, eq) {
            Some(b) => Ok(b),
            None => Err(0),
        }
    }
    pub unsafe fn insert_at_index(&mut self, _hash: u64, _index: usize, v: T) -> Bucket<T> {
        self.put(v)
    }
    pub(crate) unsafe fn insert_tagged_at_index(&mut self, _tag: Tag, _index: usize, v: T) -> Bucket<T> {
        self.put(v)
    }
    pub fn find(&self, _hash: u64, mut eq: impl FnMut(&T) -> bool) -> Option<Bucket<T>> {
        if self.slots.items == 0 {
            return None;
        }
        let mut i = 0;
        while i < N {
            let ptr = self.slots.at[i] as *mut T;
            if !ptr.is_null() && eq(unsafe { &*ptr }) {
                return Some(Bucket { ptr, index: i });
            }
            i += 1;
        }
        None
    }
    pub fn get(&self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<&T> {
        match self.find(hash, eq) {
            Some(b) => Some(unsafe { b.as_ref() }),
            None => None,
        }
    }
    pub fn get_mut(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<&mut T> {
        match self.find(hash, eq) {
            Some(b) => Some(unsafe { b.as_mut() }),
            None => None,
        }
    }
    pub fn get_bucket(&self, index: usize) -> Option<&T> {
        match self.checked_bucket(index) {
            Some(b) => Some(unsafe { b.as_ref() }),
            None => None,
        }
    }
    pub fn get_bucket_mut(&mut self, index: usize) -> Option<&mut T> {
        match self.checked_bucket(index) {
            Some(b) => Some(unsafe { b.as_mut() }),
            None => None,
        }
    }
    pub fn checked_bucket(&self, index: usize) -> Option<Bucket<T>> {
        if index < N && !self.slots.at[index].is_null() {
            Some(Bucket { ptr: self.slots.at[index] as *mut T, index })
        } else {
            None
        }
    }
    pub fn get_disjoint_mut<const M: usize>(
        &mut self,
        hashes: [u64; M],
        eq: impl FnMut(usize, &T) -> bool,
    ) -> [Option<&'_ mut T>; M] {
        unsafe {
            let ptrs = self.disjoint(hashes, eq);
            for (i, cur) in ptrs.iter().enumerate() {
                if cur.is_some() && ptrs[..i].contains(cur) {
                    panic!("duplicate keys found");
                }
            }
            ptrs.map(|ptr| ptr.map(|mut ptr| ptr.as_mut()))
        }
    }
    pub unsafe fn get_disjoint_unchecked_mut<const M: usize>(
        &mut self,
        hashes: [u64; M],
        eq: impl FnMut(usize, &T) -> bool,
    ) -> [Option<&'_ mut T>; M] {
        let ptrs = self.disjoint(hashes, eq);
        ptrs.map(|ptr| ptr.map(|mut ptr| ptr.as_mut()))
    }
    unsafe fn disjoint<const M: usize>(
        &mut self,
        hashes: [u64; M],
        mut eq: impl FnMut(usize, &T) -> bool,
    ) -> [Option<NonNull<T>>; M] {
        array::from_fn(|i| self.find(hashes[i], |k| eq(i, k)).map(|cur| cur.as_non_null()))
    }
    pub fn capacity(&self) -> usize { if self.wanted > N { self.wanted } else { N } }
    pub fn len(&self) -> usize { self.slots.items }
    pub fn is_empty(&self) -> bool { self.slots.items == 0 }
    pub fn buckets(&self) -> usize { N }
    pub fn num_buckets(&self) -> usize { N }
    pub unsafe fn iter(&self) -> RawIter<T> {
        RawIter { slots: &self.slots, next: 0, items: self.slots.items }
    }
    pub unsafe fn iter_hash(&self, _hash: u64) -> RawIterHash<T> { RawIterHash { inner: self.iter() } }
    pub(crate) unsafe fn iter_hash_buckets(&self, _hash: u64) -> RawIterHashIndices {
        RawIterHashIndices { used: self.used(), next: 0 }
    }
    pub(crate) unsafe fn full_buckets_indices(&self) -> FullBucketsIndices {
        FullBucketsIndices { used: self.used(), next: 0, items: self.slots.items }
    }
    fn used(&self) -> [bool; N] { array::from_fn(|i| !self.slots.at[i].is_null()) }
    pub fn drain(&mut self) -> RawDrain<'_, T, A> {
        let slots = mem::replace(&mut self.slots, Slots::new());
        RawDrain { inner: RawIntoIter { slots, next: 0, alloc: None }, marker: PhantomData }
    }
    pub fn into_iter(self) -> RawIntoIter<T, A> {
        let this = ManuallyDrop::new(self);
        let slots = unsafe { core::ptr::read(&this.slots) };
        let alloc = unsafe { core::ptr::read(&this.alloc) };
        RawIntoIter { slots, next: 0, alloc: Some(alloc) }
    }
}
impl<T, A: Allocator> IntoIterator for RawTable<T, A> {
    type Item = T;
    type IntoIter = RawIntoIter<T, A>;
    fn into_iter(self) -> RawIntoIter<T, A> { RawTable::into_iter(self) }
}
impl<T, A: Allocator> Drop for RawTable<T, A> {
    fn drop(&mut self) { self.slots.drop_all() }
}
impl<T: Clone, A: Allocator + Clone> Clone for RawTable<T, A> {
    fn clone(&self) -> Self {
        let mut new = Self::new_in(self.alloc.clone());
        let mut i = 0;
        while i < N {
            let p = self.slots.at[i];
            if !p.is_null() {
                new.put(unsafe { (*p).clone() });
            }
            i += 1;
        }
        new
    }
}
impl<T, A: Allocator + Default> Default for RawTable<T, A> {
    fn default() -> Self { Self::new_in(Default::default()) }
}

pub struct RawIter<T> {
    slots: *const Slots<T>,
    next: usize,
    items: usize,
}
unsafe impl<T: Send> Send for RawIter<T> {}
unsafe impl<T: Sync> Sync for RawIter<T> {}
impl<T> Clone for RawIter<T> {
    fn clone(&self) -> Self { RawIter { slots: self.slots, next: self.next, items: self.items } }
}
impl<T> Default for RawIter<T> {
    fn default() -> Self { RawIter { slots: core::ptr::null(), next: N, items: 0 } }
}
impl<T> Iterator for RawIter<T> {
    type Item = Bucket<T>;
    fn next(&mut self) -> Option<Bucket<T>> {
        if self.items == 0 {
            return None;
        }
        while self.next < N {
            let i = self.next;
            self.next += 1;
            let ptr = unsafe { (*self.slots).at[i] } as *mut T;
            if !ptr.is_null() {
                self.items -= 1;
                return Some(Bucket { ptr, index: i });
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.items, Some(self.items)) }
}
impl<T> ExactSizeIterator for RawIter<T> {}
impl<T> FusedIterator for RawIter<T> {}

#[derive(Clone)]
pub(crate) struct FullBucketsIndices {
    used: [bool; N],
    next: usize,
    items: usize,
}
impl Default for FullBucketsIndices {
    fn default() -> Self { FullBucketsIndices { used: [false; N], next: N, items: 0 } }
}
impl Iterator for FullBucketsIndices {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.next < N {
            let i = self.next;
            self.next += 1;
            if self.used[i] {
                self.items -= 1;
                return Some(i);
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.items, Some(self.items)) }
}
impl ExactSizeIterator for FullBucketsIndices {}
impl FusedIterator for FullBucketsIndices {}

pub struct RawIntoIter<T, A: Allocator = Global> {
    slots: Slots<T>,
    next: usize,
    #[allow(dead_code)]
    alloc: Option<A>,
}
impl<T, A: Allocator> RawIntoIter<T, A> {
    pub fn iter(&self) -> RawIter<T> {
        RawIter { slots: &self.slots, next: self.next, items: self.slots.items }
    }
}
impl<T, A: Allocator> Drop for RawIntoIter<T, A> {
    fn drop(&mut self) { self.slots.drop_all() }
}
impl<T, A: Allocator> Default for RawIntoIter<T, A> {
    fn default() -> Self { RawIntoIter { slots: Slots::new(), next: N, alloc: None } }
}
impl<T, A: Allocator> Iterator for RawIntoIter<T, A> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        while self.next < N {
            let i = self.next;
            self.next += 1;
            let p = self.slots.at[i];
            if !p.is_null() {
                self.slots.at[i] = core::ptr::null();
                self.slots.items -= 1;
                return Some(unsafe { p.read() });
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.slots.items, Some(self.slots.items)) }
}
impl<T, A: Allocator> ExactSizeIterator for RawIntoIter<T, A> {}
impl<T, A: Allocator> FusedIterator for RawIntoIter<T, A> {}

pub struct RawDrain<'a, T, A: Allocator = Global> {
    inner: RawIntoIter<T, A>,
    marker: PhantomData<&'a RawTable<T, A>>,
}
impl<T, A: Allocator> RawDrain<'_, T, A> {
    pub fn iter(&self) -> RawIter<T> { self.inner.iter() }
}
impl<T, A: Allocator> Iterator for RawDrain<'_, T, A> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.inner.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.inner.size_hint() }
}
impl<T, A: Allocator> ExactSizeIterator for RawDrain<'_, T, A> {}
impl<T, A: Allocator> FusedIterator for RawDrain<'_, T, A> {}

pub struct RawIterHash<T> {
    inner: RawIter<T>,
}
impl<T> Clone for RawIterHash<T> {
    fn clone(&self) -> Self { RawIterHash { inner: self.inner.clone() } }
}
impl<T> Default for RawIterHash<T> {
    fn default() -> Self { RawIterHash { inner: RawIter::default() } }
}
impl<T> Iterator for RawIterHash<T> {
    type Item = Bucket<T>;
    fn next(&mut self) -> Option<Bucket<T>> { self.inner.next() }
}
#[derive(Clone)]
pub(crate) struct RawIterHashIndices {
    used: [bool; N],
    next: usize,
}
impl Default for RawIterHashIndices {
    fn default() -> Self { RawIterHashIndices { used: [false; N], next: N } }
}
impl Iterator for RawIterHashIndices {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.next < N {
            let i = self.next;
            self.next += 1;
            if self.used[i] {
                return Some(i);
            }
        }
        None
    }
}

pub(crate) struct RawExtractIf<'a, T, A: Allocator> {
    pub iter: RawIter<T>,
    pub table: &'a mut RawTable<T, A>,
}
impl<T, A: Allocator> RawExtractIf<'_, T, A> {
    pub(crate) fn next<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) -> Option<T> {
        unsafe {
            while let Some(item) = self.iter.next() {
                if f(item.as_mut()) {
                    return Some(self.table.remove(item).0);
                }
            }
        }
        None
    }
}

/// Stands for the hash bits kept with an element; they are not modelled.
#[derive(Clone, Copy)]
pub(crate) struct Tag;
impl Tag {
    pub(crate) fn full(_hash: u64) -> Self { Tag }
}
