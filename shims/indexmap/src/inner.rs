//! Stand-in for the core of the map: a dense vector of entries, searched by scanning.
//!
//! The bound on the number of entries is checked (VERIF-BOUND), never silently cut.
#![allow(dead_code, unsafe_code, unused_variables)]
mod entry;
mod extract;

use alloc::vec::{self, Vec};
use core::mem;
use core::ops::RangeBounds;

use crate::util::{assert_index_le, assert_index_lt, simplify_range};
use crate::{Bucket, Equivalent, HashValue, TryReserveError};

type Entries<K, V> = Vec<Bucket<K, V>>;

pub use entry::{OccupiedEntry, VacantEntry};
pub(crate) use extract::ExtractCore;

const fn parse(s: Option<&str>) -> usize {
    match s {
        None => 4,
        Some(s) => {
            let b = s.as_bytes();
            let mut i = 0;
            let mut n = 0usize;
            while i < b.len() {
                n = n * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            n
        }
    }
}
/// Bound on the number of entries (build-time tools share this crate; they get more room).
const N: usize = if cfg!(kani) { parse(option_env!("VERIF_MAP_CAP")) } else { 1 << 20 };

/// Core of the map that does not depend on S
#[cfg_attr(feature = "test_debug", derive(Debug))]
pub(crate) struct Core<K, V> {
    /// entries is a dense vec maintaining entry order.
    entries: Entries<K, V>,
}

impl<K, V> Clone for Core<K, V>
where
    K: Clone,
    V: Clone,
{
    fn clone(&self) -> Self {
        Core { entries: self.entries.clone() }
    }
}

impl<K, V> Core<K, V> {
    #[inline]
    pub(crate) const fn new() -> Self {
        Core { entries: Vec::new() }
    }
    #[inline]
    pub(crate) fn with_capacity(n: usize) -> Self {
        Core { entries: Vec::with_capacity(n) }
    }
    /// Position of the entry whose key matches.
    pub(crate) fn scan(&self, mut is: impl FnMut(&K) -> bool) -> Option<usize> {
        let n = self.entries.len();
        let p = self.entries.as_ptr();
        let mut i = 0;
        while i < N {
            if i >= n {
                break;
            }
            if is(unsafe { &(*p.add(i)).key }) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    #[inline]
    pub(crate) fn into_entries(self) -> Entries<K, V> {
        self.entries
    }
    #[inline]
    pub(crate) fn as_entries(&self) -> &[Bucket<K, V>] {
        &self.entries
    }
    #[inline]
    pub(crate) fn as_entries_mut(&mut self) -> &mut [Bucket<K, V>] {
        &mut self.entries
    }
    pub(crate) fn with_entries<F>(&mut self, f: F)
    where
        F: FnOnce(&mut [Bucket<K, V>]),
    {
        f(&mut self.entries);
    }
    #[inline]
    pub(crate) fn len(&self) -> usize {
        self.entries.len()
    }
    #[inline]
    pub(crate) fn capacity(&self) -> usize {
        self.entries.capacity()
    }
    pub(crate) fn clear(&mut self) {
        self.entries.clear();
    }
    pub(crate) fn truncate(&mut self, len: usize) {
        self.entries.truncate(len);
    }
    #[track_caller]
    pub(crate) fn drain<R>(&mut self, range: R) -> vec::Drain<'_, Bucket<K, V>>
    where
        R: RangeBounds<usize>,
    {
        let range = simplify_range(range, self.entries.len());
        self.entries.drain(range)
    }
    #[track_caller]
    pub(crate) fn split_off(&mut self, at: usize) -> Self {
        assert_index_le(at, self.len());
        Self { entries: self.entries.split_off(at) }
    }
    #[track_caller]
    pub(crate) fn split_splice<R>(&mut self, range: R) -> (Self, vec::IntoIter<Bucket<K, V>>)
    where
        R: RangeBounds<usize>,
    {
        let range = simplify_range(range, self.len());
        let entries = self.entries.split_off(range.end);
        let drained = self.entries.split_off(range.start);
        (Self { entries }, drained.into_iter())
    }
    pub(crate) fn append_unchecked(&mut self, other: &mut Self) {
        self.entries.append(&mut other.entries);
    }
    pub(crate) fn reserve(&mut self, additional: usize) {
        self.entries.reserve(additional);
    }
    pub(crate) fn reserve_exact(&mut self, additional: usize) {
        self.entries.reserve(additional);
    }
    pub(crate) fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
        self.entries.try_reserve(additional).map_err(TryReserveError::from_alloc)
    }
    pub(crate) fn try_reserve_exact(&mut self, additional: usize) -> Result<(), TryReserveError> {
        self.entries.try_reserve_exact(additional).map_err(TryReserveError::from_alloc)
    }
    pub(crate) fn shrink_to(&mut self, min_capacity: usize) {}
    pub(crate) fn pop(&mut self) -> Option<(K, V)> {
        self.entries.pop().map(|e| (e.key, e.value))
    }
    pub(crate) fn get_index_of<Q>(&self, hash: HashValue, key: &Q) -> Option<usize>
    where
        Q: ?Sized + Equivalent<K>,
    {
        self.scan(|k| Q::equivalent(key, k))
    }
    pub(crate) fn get_index_of_raw<F>(&self, hash: HashValue, is_match: F) -> Option<usize>
    where
        F: FnMut(&K) -> bool,
    {
        self.scan(is_match)
    }
    fn push_entry(&mut self, hash: HashValue, key: K, value: V) {
        assert!(self.entries.len() < N, "VERIF-BOUND: IndexMap capacity");
        self.entries.push(Bucket { hash, key, value });
    }
    pub(crate) fn insert_full(&mut self, hash: HashValue, key: K, value: V) -> (usize, Option<V>)
    where
        K: Eq,
    {
        match self.scan(|k| K::eq(&key, k)) {
            Some(i) => (i, Some(mem::replace(&mut self.entries[i].value, value))),
            None => {
                let i = self.entries.len();
                self.push_entry(hash, key, value);
                (i, None)
            }
        }
    }
    pub(crate) fn replace_full(&mut self, hash: HashValue, key: K, value: V) -> (usize, Option<(K, V)>)
    where
        K: Eq,
    {
        match self.scan(|k| K::eq(&key, k)) {
            Some(i) => {
                let entry = &mut self.entries[i];
                let kv = (mem::replace(&mut entry.key, key), mem::replace(&mut entry.value, value));
                (i, Some(kv))
            }
            None => {
                let i = self.entries.len();
                self.push_entry(hash, key, value);
                (i, None)
            }
        }
    }
    pub(crate) fn shift_remove_full<Q>(&mut self, hash: HashValue, key: &Q) -> Option<(usize, K, V)>
    where
        Q: ?Sized + Equivalent<K>,
    {
        let index = self.scan(|k| Q::equivalent(key, k))?;
        let (key, value) = self.shift_remove_finish(index);
        Some((index, key, value))
    }
    pub(crate) fn swap_remove_full<Q>(&mut self, hash: HashValue, key: &Q) -> Option<(usize, K, V)>
    where
        Q: ?Sized + Equivalent<K>,
    {
        let n = self.entries.len();
        let p = self.entries.as_mut_ptr();
        let mut i = 0;
        while i < N {
            if i >= n {
                break;
            }
            unsafe {
                if Q::equivalent(key, &(*p.add(i)).key) {
                    let e = p.add(i).read();
                    if i != n - 1 {
                        p.add(i).write(p.add(n - 1).read());
                    }
                    self.entries.set_len(n - 1);
                    return Some((i, e.key, e.value));
                }
            }
            i += 1;
        }
        None
    }
    pub(crate) fn retain_in_order<F>(&mut self, mut keep: F)
    where
        F: FnMut(&mut K, &mut V) -> bool,
    {
        let n = self.entries.len();
        let p = self.entries.as_mut_ptr();
        let mut i = 0;
        let mut to = 0;
        while i < N {
            if i >= n {
                break;
            }
            unsafe {
                let mut e = p.add(i).read();
                if keep(&mut e.key, &mut e.value) {
                    p.add(to).write(e);
                    to += 1;
                }
            }
            i += 1;
        }
        unsafe { self.entries.set_len(to) };
    }
    pub(crate) fn reverse(&mut self) {
        self.entries.reverse();
    }
    pub(super) fn insert_unique(&mut self, hash: HashValue, key: K, value: V) -> &mut Bucket<K, V> {
        let i = self.entries.len();
        self.push_entry(hash, key, value);
        &mut self.entries[i]
    }
    #[track_caller]
    pub(crate) fn replace_index_unique(&mut self, index: usize, hash: HashValue, key: K) -> K {
        let entry = &mut self.entries[index];
        entry.hash = hash;
        mem::replace(&mut entry.key, key)
    }
    pub(crate) fn shift_insert_unique(&mut self, index: usize, hash: HashValue, key: K, value: V) -> &mut Bucket<K, V> {
        assert!(index <= self.entries.len());
        self.entries.insert(index, Bucket { hash, key, value });
        &mut self.entries[index]
    }
    pub(crate) fn shift_remove_index(&mut self, index: usize) -> Option<(K, V)> {
        if index < self.entries.len() { Some(self.shift_remove_finish(index)) } else { None }
    }
    fn shift_remove_finish(&mut self, index: usize) -> (K, V) {
        let entry = self.entries.remove(index);
        (entry.key, entry.value)
    }
    pub(crate) fn swap_remove_index(&mut self, index: usize) -> Option<(K, V)> {
        if index < self.entries.len() { Some(self.swap_remove_finish(index)) } else { None }
    }
    fn swap_remove_finish(&mut self, index: usize) -> (K, V) {
        let entry = self.entries.swap_remove(index);
        (entry.key, entry.value)
    }
    #[track_caller]
    pub(super) fn move_index(&mut self, from: usize, to: usize) {
        assert_index_lt(from, self.len());
        if from != to {
            assert_index_lt(to, self.len());
            self.move_index_inner(from, to);
        }
    }
    fn move_index_inner(&mut self, from: usize, to: usize) {
        if from < to {
            self.entries[from..=to].rotate_left(1);
        } else if to < from {
            self.entries[to..=from].rotate_right(1);
        }
    }
    #[track_caller]
    pub(crate) fn swap_indices(&mut self, a: usize, b: usize) {
        assert_index_lt(a, self.len());
        if a != b {
            assert_index_lt(b, self.len());
            self.entries.swap(a, b);
        }
    }
}
