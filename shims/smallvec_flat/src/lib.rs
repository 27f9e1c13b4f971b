//! Stand-in for `smallvec`, used only where the list algebra of network targets is decided: the
//! elements live inline in a fixed array of `CAP` slots (the capacity set for maps), so that the encoding has no heap blocks.
//! The observable contract is kept; needing more than `CAP` slots is reported as out of bounds.
//! Elements are never dropped (the checks use plain ids).
#![no_std]
extern crate alloc;
use alloc::vec::Vec;
use core::mem::MaybeUninit;
use core::ops::{Deref, DerefMut};
use bevy_reflect::Reflect;

const fn parse(s: Option<&str>) -> usize {
    match s {
        None => 10,
        Some(s) => {
            let (b, mut n, mut i) = (s.as_bytes(), 0, 0);
            while i < b.len() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
            n
        }
    }
}
pub const CAP: usize = parse(option_env!("VERIF_MAP_CAP"));
pub trait Array { type Item; fn size() -> usize; }
impl<T, const N: usize> Array for [T; N] { type Item = T; fn size() -> usize { N } }

#[derive(Reflect)]
#[reflect(opaque, where A: bevy_reflect::TypePath + Send + Sync + 'static, A::Item: Clone + Send + Sync + 'static)]
pub struct SmallVec<A: Array> { d: [MaybeUninit<A::Item>; CAP], len: usize }

impl<A: Array> SmallVec<A> {
    pub fn new() -> Self { SmallVec { d: [const { MaybeUninit::uninit() }; CAP], len: 0 } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn from_vec(v: Vec<A::Item>) -> Self { v.into_iter().collect() }
    pub fn inline_size(&self) -> usize { A::size() }
    pub fn spilled(&self) -> bool { self.len > A::size() }
    pub fn capacity(&self) -> usize { CAP }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn as_slice(&self) -> &[A::Item] { self }
    pub fn as_mut_slice(&mut self) -> &mut [A::Item] { self }
    pub fn push(&mut self, x: A::Item) {
        assert!(self.len < CAP, "VERIF-BOUND: small vector capacity");
        self.d[self.len] = MaybeUninit::new(x);
        self.len += 1;
    }
    pub fn pop(&mut self) -> Option<A::Item> {
        if self.len == 0 { return None; }
        self.len -= 1;
        Some(unsafe { self.d[self.len].assume_init_read() })
    }
    pub fn clear(&mut self) { self.len = 0 }
    pub fn truncate(&mut self, n: usize) { if n < self.len { self.len = n } }
    pub fn remove(&mut self, at: usize) -> A::Item {
        assert!(at < self.len, "removal index (is out of bounds)");
        let x = unsafe { self.d[at].assume_init_read() };
        let mut i = at + 1;
        while i < self.len {
            self.d[i - 1] = MaybeUninit::new(unsafe { self.d[i].assume_init_read() });
            i += 1;
        }
        self.len -= 1;
        x
    }
    pub fn swap_remove(&mut self, at: usize) -> A::Item {
        let n = self.len;
        self.swap(at, n - 1);
        self.pop().unwrap()
    }
    pub fn insert(&mut self, at: usize, x: A::Item) {
        assert!(at <= self.len, "insertion index (is out of bounds)");
        self.push(x);
        let mut i = self.len - 1;
        while i > at { self.swap(i, i - 1); i -= 1; }
    }
    pub fn retain<F: FnMut(&mut A::Item) -> bool>(&mut self, mut f: F) {
        let (mut to, mut i) = (0, 0);
        while i < self.len {
            let keep = f(unsafe { self.d[i].assume_init_mut() });
            if keep {
                self.d[to] = MaybeUninit::new(unsafe { self.d[i].assume_init_read() });
                to += 1;
            }
            i += 1;
        }
        self.len = to;
    }
    pub fn into_vec(self) -> Vec<A::Item> { self.into_iter().collect() }
    pub fn extend_from_slice(&mut self, s: &[A::Item]) where A::Item: Copy { for x in s { self.push(*x) } }
    pub fn from_slice(s: &[A::Item]) -> Self where A::Item: Copy { let mut v = Self::new(); v.extend_from_slice(s); v }
    pub fn dedup(&mut self) where A::Item: PartialEq {
        let mut i = 1;
        while i < self.len { if self[i] == self[i - 1] { self.remove(i); } else { i += 1 } }
    }
}
impl<A: Array> Deref for SmallVec<A> {
    type Target = [A::Item];
    fn deref(&self) -> &[A::Item] { unsafe { core::slice::from_raw_parts(self.d.as_ptr() as *const A::Item, self.len) } }
}
impl<A: Array> DerefMut for SmallVec<A> {
    fn deref_mut(&mut self) -> &mut [A::Item] { unsafe { core::slice::from_raw_parts_mut(self.d.as_mut_ptr() as *mut A::Item, self.len) } }
}
impl<A: Array> Default for SmallVec<A> { fn default() -> Self { Self::new() } }
impl<A: Array> Clone for SmallVec<A> where A::Item: Clone {
    fn clone(&self) -> Self { let mut v = Self::new(); for x in self.iter() { v.push(x.clone()) } v }
}
impl<A: Array, B: Array> PartialEq<SmallVec<B>> for SmallVec<A> where A::Item: PartialEq<B::Item> {
    fn eq(&self, o: &SmallVec<B>) -> bool { self[..] == o[..] }
}
impl<A: Array> Eq for SmallVec<A> where A::Item: Eq {}
impl<A: Array> core::fmt::Debug for SmallVec<A> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("SmallVec") }
}
impl<A: Array> Extend<A::Item> for SmallVec<A> {
    fn extend<I: IntoIterator<Item = A::Item>>(&mut self, it: I) { for x in it { self.push(x) } }
}
impl<A: Array> FromIterator<A::Item> for SmallVec<A> {
    fn from_iter<I: IntoIterator<Item = A::Item>>(it: I) -> Self { let mut v = Self::new(); v.extend(it); v }
}
impl<A: Array> From<Vec<A::Item>> for SmallVec<A> { fn from(v: Vec<A::Item>) -> Self { Self::from_vec(v) } }
impl<A: Array> AsRef<[A::Item]> for SmallVec<A> { fn as_ref(&self) -> &[A::Item] { self } }
impl<A: Array> core::borrow::Borrow<[A::Item]> for SmallVec<A> { fn borrow(&self) -> &[A::Item] { self } }
pub struct IntoIter<A: Array> { v: SmallVec<A>, at: usize }
impl<A: Array> Iterator for IntoIter<A> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if self.at == self.v.len { return None; }
        self.at += 1;
        Some(unsafe { self.v.d[self.at - 1].assume_init_read() })
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.v.len - self.at; (n, Some(n)) }
}
impl<A: Array> ExactSizeIterator for IntoIter<A> {}
impl<A: Array> IntoIterator for SmallVec<A> {
    type Item = A::Item;
    type IntoIter = IntoIter<A>;
    fn into_iter(self) -> IntoIter<A> { IntoIter { v: self, at: 0 } }
}
impl<'a, A: Array> IntoIterator for &'a SmallVec<A> {
    type Item = &'a A::Item;
    type IntoIter = core::slice::Iter<'a, A::Item>;
    fn into_iter(self) -> core::slice::Iter<'a, A::Item> { self.iter() }
}
impl<A: Array> serde::Serialize for SmallVec<A> where A::Item: serde::Serialize {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_seq(self.iter()) }
}
impl<'de, A: Array> serde::Deserialize<'de> for SmallVec<A> where A::Item: serde::Deserialize<'de> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Self::from_vec(Vec::<A::Item>::deserialize(d)?)) }
}
impl<A: Array> lightyear_serde::ToBytes for SmallVec<A> where A::Item: lightyear_serde::ToBytes {
    fn bytes_len(&self) -> usize { unimplemented!() }
    fn to_bytes(&self, _: &mut impl lightyear_serde::writer::WriteInteger) -> Result<(), lightyear_serde::SerializationError> { unimplemented!() }
    fn from_bytes(_: &mut lightyear_serde::reader::Reader) -> Result<Self, lightyear_serde::SerializationError> { unimplemented!() }
}
#[macro_export]
macro_rules! smallvec {
    ($e:expr; $n:expr) => {{ let mut v = $crate::SmallVec::new(); for _ in 0..$n { v.push($e.clone()); } v }};
    ($($x:expr),* $(,)?) => {{ #[allow(unused_mut)] let mut v = $crate::SmallVec::new(); $( v.push($x); )* v }};
}
