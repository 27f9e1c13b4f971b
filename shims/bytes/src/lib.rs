//! `Bytes`/`BytesMut` as values: the contents live inline in a fixed array of `CAP` bytes, so that
//! the encoding has no reference counts, vtables or heap objects. The observable contract of the
//! real crate (contents, lengths, panics on out-of-range arguments) is kept; a buffer that would
//! need more than `CAP` bytes fails an assertion, so the bound is checked and never silently cut.
#![no_std]
extern crate alloc;
use alloc::vec::Vec;
use alloc::boxed::Box;
use core::ops::{Bound, Deref, DerefMut, RangeBounds};

const fn parse(s: Option<&str>) -> usize {
    match s {
        None => 32,
        Some(s) => {
            let b = s.as_bytes();
            let mut i = 0;
            let mut n = 0usize;
            while i < b.len() {
                n = n * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            n
        }
    }
}
/// Bound on the number of bytes in one buffer.
pub const CAP: usize = parse(option_env!("VERIF_BYTES_CAP"));

#[derive(Clone, Copy)]
struct Buffer {
    buf: [u8; CAP],
    start: usize,
    len: usize,
}

impl Buffer {
    #[inline]
    const fn new() -> Self {
        Buffer { buf: [0; CAP], start: 0, len: 0 }
    }
    #[inline]
    fn as_slice(&self) -> &[u8] {
        &self.buf[self.start..self.start + self.len]
    }
    #[inline]
    fn as_mut_slice(&mut self) -> &mut [u8] {
        &mut self.buf[self.start..self.start + self.len]
    }
    fn push_slice(&mut self, s: &[u8]) {
        let end = self.start + self.len;
        assert!(s.len() <= CAP - end, "VERIF-BOUND: byte buffer capacity");
        self.buf[end..end + s.len()].copy_from_slice(s);
        self.len += s.len();
    }
    fn from_slice(s: &[u8]) -> Self {
        if s.len() == CAP {
            // a full buffer is copied as a whole
            return Buffer { buf: unsafe { *(s.as_ptr() as *const [u8; CAP]) }, start: 0, len: CAP };
        }
        let mut b = Self::new();
        b.push_slice(s);
        b
    }
    fn sub(&self, a: usize, b: usize) -> Self {
        assert!(a <= b, "range start must not be greater than end");
        assert!(b <= self.len, "range end out of bounds");
        Buffer { buf: self.buf, start: self.start + a, len: b - a }
    }
}

#[derive(Clone)]
pub struct Bytes(Buffer);
pub struct BytesMut {
    b: Buffer,
    cap: usize,
}

fn range(r: impl RangeBounds<usize>, len: usize) -> (usize, usize) {
    let a = match r.start_bound() {
        Bound::Included(&n) => n,
        Bound::Excluded(&n) => n + 1,
        Bound::Unbounded => 0,
    };
    let b = match r.end_bound() {
        Bound::Included(&n) => n + 1,
        Bound::Excluded(&n) => n,
        Bound::Unbounded => len,
    };
    (a, b)
}

impl Bytes {
    pub const fn new() -> Self { Bytes(Buffer::new()) }
    pub fn from_static(s: &'static [u8]) -> Self { Bytes(Buffer::from_slice(s)) }
    pub fn copy_from_slice(s: &[u8]) -> Self { Bytes(Buffer::from_slice(s)) }
    pub fn len(&self) -> usize { self.0.len }
    pub fn is_empty(&self) -> bool { self.0.len == 0 }
    pub fn slice(&self, r: impl RangeBounds<usize>) -> Self {
        let (a, b) = range(r, self.0.len);
        Bytes(self.0.sub(a, b))
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.0.len, "split_off out of bounds");
        let tail = self.0.sub(at, self.0.len);
        self.0.len = at;
        Bytes(tail)
    }
    pub fn split_to(&mut self, at: usize) -> Self {
        assert!(at <= self.0.len, "split_to out of bounds");
        let head = self.0.sub(0, at);
        self.0.start += at;
        self.0.len -= at;
        Bytes(head)
    }
    pub fn slice_ref(&self, sub: &[u8]) -> Self {
        if sub.is_empty() {
            return Bytes::new();
        }
        // SAFETY: as in the real crate, `sub` has to be a part of `self`; Kani checks it.
        let at = unsafe { sub.as_ptr().offset_from(self.as_ptr()) };
        assert!(at >= 0, "subset is not a part of the buffer");
        self.slice(at as usize..at as usize + sub.len())
    }
    pub fn truncate(&mut self, n: usize) { if n < self.0.len { self.0.len = n } }
    pub fn clear(&mut self) { self.0.len = 0 }
    pub fn is_unique(&self) -> bool { true }
    pub fn try_into_mut(self) -> Result<BytesMut, Bytes> {
        let cap = self.0.len;
        Ok(BytesMut { b: self.0, cap })
    }
}
impl BytesMut {
    pub fn new() -> Self { BytesMut { b: Buffer::new(), cap: 0 } }
    pub fn with_capacity(cap: usize) -> Self { BytesMut { b: Buffer::new(), cap } }
    pub fn zeroed(n: usize) -> Self { let mut b = Self::new(); b.resize(n, 0); b }
    pub fn len(&self) -> usize { self.b.len }
    pub fn is_empty(&self) -> bool { self.b.len == 0 }
    pub fn capacity(&self) -> usize { self.cap }
    pub fn freeze(self) -> Bytes { Bytes(self.b) }
    pub fn split(&mut self) -> BytesMut { self.split_to(self.b.len) }
    pub fn split_to(&mut self, at: usize) -> BytesMut {
        assert!(at <= self.b.len, "split_to out of bounds");
        let head = self.b.sub(0, at);
        self.b.start += at;
        self.b.len -= at;
        if self.b.len == 0 { self.b.start = 0 }
        self.cap -= at;
        BytesMut { b: head, cap: at }
    }
    pub fn split_off(&mut self, at: usize) -> BytesMut {
        assert!(at <= self.cap, "split_off out of bounds");
        let at = if at > self.b.len { self.b.len } else { at };
        let tail = self.b.sub(at, self.b.len);
        self.b.len = at;
        let cap = self.cap - at;
        self.cap = at;
        BytesMut { b: tail, cap }
    }
    pub fn truncate(&mut self, n: usize) { if n < self.b.len { self.b.len = n } }
    pub fn clear(&mut self) { self.b.len = 0 }
    pub fn resize(&mut self, n: usize, v: u8) {
        if n <= self.b.len { self.b.len = n; return; }
        assert!(n <= CAP - self.b.start, "VERIF-BOUND: byte buffer capacity");
        let mut i = self.b.len;
        while i < n { self.b.buf[self.b.start + i] = v; i += 1; }
        self.b.len = n;
        if n > self.cap { self.cap = n }
    }
    pub fn reserve(&mut self, n: usize) {
        if self.cap - self.b.len < n { self.cap = self.b.len + n }
    }
    pub fn try_reclaim(&mut self, n: usize) -> bool { self.cap - self.b.len >= n }
    pub fn extend_from_slice(&mut self, s: &[u8]) {
        self.b.push_slice(s);
        if self.b.len > self.cap { self.cap = self.b.len }
    }
    pub fn unsplit(&mut self, other: BytesMut) { self.extend_from_slice(&other) }
}
macro_rules! common { ($t:ident, $s:ident => $b:expr, $mk:expr) => {
    impl Deref for $t { type Target = [u8]; #[inline] fn deref(&$s) -> &[u8] { $b.as_slice() } }
    impl AsRef<[u8]> for $t { #[inline] fn as_ref(&$s) -> &[u8] { $b.as_slice() } }
    impl core::borrow::Borrow<[u8]> for $t { fn borrow(&$s) -> &[u8] { $b.as_slice() } }
    impl Default for $t { fn default() -> Self { Self::new() } }
    impl core::fmt::Debug for $t { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self[..] == o[..] } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
    impl Ord for $t { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self[..].cmp(&o[..]) } }
    impl core::hash::Hash for $t { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self[..].hash(h) } }
    impl PartialEq<[u8]> for $t { fn eq(&self, o: &[u8]) -> bool { self[..] == *o } }
    impl PartialEq<&[u8]> for $t { fn eq(&self, o: &&[u8]) -> bool { self[..] == **o } }
    impl PartialEq<Vec<u8>> for $t { fn eq(&self, o: &Vec<u8>) -> bool { self[..] == o[..] } }
    impl<'a> IntoIterator for &'a $t { type Item = &'a u8; type IntoIter = core::slice::Iter<'a, u8>; fn into_iter(self) -> Self::IntoIter { self[..].iter() } }
    impl From<&'static [u8]> for $t { fn from(s: &'static [u8]) -> Self { $mk(Buffer::from_slice(s)) } }
    impl From<&'static str> for $t { fn from(s: &'static str) -> Self { $mk(Buffer::from_slice(s.as_bytes())) } }
    impl FromIterator<u8> for $t { fn from_iter<I: IntoIterator<Item = u8>>(it: I) -> Self {
        let mut b = Buffer::new(); for x in it { b.push_slice(&[x]); } $mk(b) } }
} }
common!(Bytes, self => self.0, Bytes);
common!(BytesMut, self => self.b, |b: Buffer| { let cap = b.len; BytesMut { b, cap } });
impl DerefMut for BytesMut { #[inline] fn deref_mut(&mut self) -> &mut [u8] { self.b.as_mut_slice() } }
impl AsMut<[u8]> for BytesMut { fn as_mut(&mut self) -> &mut [u8] { self.b.as_mut_slice() } }
impl Clone for BytesMut { fn clone(&self) -> Self { BytesMut { b: self.b, cap: self.b.len } } }
impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Bytes(Buffer::from_slice(&v)) } }
impl From<Box<[u8]>> for Bytes { fn from(v: Box<[u8]>) -> Self { Bytes(Buffer::from_slice(&v)) } }
impl From<BytesMut> for Bytes { fn from(v: BytesMut) -> Self { v.freeze() } }
impl From<Bytes> for BytesMut { fn from(v: Bytes) -> Self { let cap = v.0.len; BytesMut { b: v.0, cap } } }
impl From<Bytes> for Vec<u8> { fn from(v: Bytes) -> Self { v[..].to_vec() } }
impl From<BytesMut> for Vec<u8> { fn from(v: BytesMut) -> Self { v[..].to_vec() } }
impl Extend<u8> for BytesMut { fn extend<T: IntoIterator<Item = u8>>(&mut self, it: T) { for x in it { self.extend_from_slice(&[x]) } } }
impl<'a> Extend<&'a u8> for BytesMut { fn extend<T: IntoIterator<Item = &'a u8>>(&mut self, it: T) { for x in it { self.extend_from_slice(&[*x]) } } }

pub trait Buf {
    fn remaining(&self) -> usize;
    fn chunk(&self) -> &[u8];
    fn advance(&mut self, cnt: usize);
    fn has_remaining(&self) -> bool { self.remaining() > 0 }
    fn copy_to_slice(&mut self, dst: &mut [u8]) {
        assert!(self.remaining() >= dst.len(), "advance out of bounds");
        let n = dst.len();
        dst.copy_from_slice(&self.chunk()[..n]);
        self.advance(n);
    }
    fn get_u8(&mut self) -> u8 {
        assert!(self.remaining() >= 1, "advance out of bounds");
        let r = self.chunk()[0];
        self.advance(1);
        r
    }
    fn try_get_u8(&mut self) -> Result<u8, TryGetError> {
        if self.remaining() < 1 { return Err(TryGetError { requested: 1, available: 0 }); }
        Ok(self.get_u8())
    }
    fn copy_to_bytes(&mut self, len: usize) -> Bytes {
        assert!(self.remaining() >= len, "advance out of bounds");
        let b = Bytes::copy_from_slice(&self.chunk()[..len]);
        self.advance(len);
        b
    }
}
#[derive(Debug, PartialEq, Eq)]
pub struct TryGetError { pub requested: usize, pub available: usize }
impl Buf for Bytes {
    fn remaining(&self) -> usize { self.0.len }
    fn chunk(&self) -> &[u8] { self.0.as_slice() }
    fn advance(&mut self, n: usize) { assert!(n <= self.0.len, "cannot advance past `remaining`"); self.0.start += n; self.0.len -= n; }
}
impl Buf for BytesMut {
    fn remaining(&self) -> usize { self.b.len }
    fn chunk(&self) -> &[u8] { self.b.as_slice() }
    fn advance(&mut self, n: usize) { assert!(n <= self.b.len, "cannot advance past `remaining`"); self.b.start += n; self.b.len -= n; self.cap -= n; }
}
impl Buf for &[u8] {
    fn remaining(&self) -> usize { self.len() }
    fn chunk(&self) -> &[u8] { self }
    fn advance(&mut self, n: usize) { *self = &self[n..]; }
}
impl<T: Buf + ?Sized> Buf for &mut T {
    fn remaining(&self) -> usize { (**self).remaining() }
    fn chunk(&self) -> &[u8] { (**self).chunk() }
    fn advance(&mut self, n: usize) { (**self).advance(n) }
}
pub trait BufMut {
    fn remaining_mut(&self) -> usize;
    fn put_slice(&mut self, s: &[u8]);
    fn put_u8(&mut self, v: u8) { self.put_slice(&[v]) }
    fn put_u16(&mut self, v: u16) { self.put_slice(&v.to_be_bytes()) }
    fn put_u32(&mut self, v: u32) { self.put_slice(&v.to_be_bytes()) }
    fn put_u64(&mut self, v: u64) { self.put_slice(&v.to_be_bytes()) }
}
impl BufMut for BytesMut {
    fn remaining_mut(&self) -> usize { usize::MAX - self.b.len }
    fn put_slice(&mut self, s: &[u8]) { self.extend_from_slice(s) }
}
impl BufMut for Vec<u8> {
    fn remaining_mut(&self) -> usize { isize::MAX as usize - self.len() }
    fn put_slice(&mut self, s: &[u8]) { self.extend_from_slice(s) }
}
