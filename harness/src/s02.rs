//! S02: decoding arbitrary bytes.
use super::nd::*;
use alloc::vec::Vec;
use bevy_ecs::entity::Entity;
use bevy_platform::collections::HashMap;
use bytes::Bytes;
use lightyear_core::id::PeerId;
use lightyear_core::tick::Tick;
use lightyear_core::time::{Overstep, PositiveTickDelta};
use lightyear_serde::reader::{ReadVarInt, Reader};
use lightyear_serde::ToBytes;
use smallvec::SmallVec;

const N: usize = 8;
/// The first `n` bytes.
fn first(a: &[u8; N], n: usize) -> Reader {
    let mut b = Bytes::copy_from_slice(a);
    b.truncate(n);
    Reader::from(b)
}
/// Decodes `N` arbitrary bytes cut to any length.
fn decode<T: ToBytes>() -> Option<T> {
    let a: [u8; N] = any();
    let n = below(N + 1);
    let mut r = first(&a, n);
    let x = T::from_bytes(&mut r).ok();
    assert!(r.position() <= n as u64, "nothing past the end is read");
    assert!(r.remaining() == n - r.position() as usize);
    x
}

#[cfg(kani)]
fn sv_with_capacity<A: smallvec::Array>(n: usize) -> SmallVec<A> {
    if n > A::size() { stubs::fits::<A::Item>(n); }
    SmallVec::new()
}
#[cfg(kani)]
fn sv_try_grow<A: smallvec::Array>(_: &mut SmallVec<A>, n: usize) -> Result<(), smallvec::CollectionAllocErr> {
    if n <= A::size() { return Ok(()); }
    stubs::fits::<A::Item>(n);
    panic!("VERIF-BOUND: growth of a small vector")
}

harnesses! {
    [10] fn varint() {
        let a: [u8; N] = any();
        let n = below(N + 1);
        let mut r = first(&a, n);
        let x = r.read_varint();
        assert!(r.position() <= n as u64, "nothing past the end is read");
        if let Ok(v) = &x { assert!(*v < 1 << 62); }
        reach!(x.is_ok() && n == 8);
        reach!(x.is_err() && n == 7);
        core::mem::forget(x);
    }
    [10] fn scalars() {
        let a = decode::<u16>();
        let b = decode::<Option<u16>>();
        let c = decode::<(u8, u16)>();
        reach!(a.is_some() && b.is_some() && c.is_none());
    }
    [10] fn core_types() {
        let a = decode::<Tick>();
        let b = decode::<Overstep>();
        let c = decode::<PositiveTickDelta>();
        reach!(a.is_some() && b.is_some() && c.is_none());
    }
    [10] fn peer() {
        let p = decode::<PeerId>();
        reach!(p.is_some());
    }
    [10] fn entity() {
        let e = decode::<Entity>();
        reach!(e.is_some_and(|e| e.index_u32() > 1 << 20));
    }
    [10] fn byte_string() {
        let a: [u8; N] = any();
        let n = below(N + 1);
        let mut r = first(&a, n);
        let x = Bytes::from_bytes(&mut r);
        if let Ok(b) = &x {
            assert!(b.len() < n, "a byte string is a part of the input");
            let at = n - b.len() - r.remaining();
            for i in 0..N { if i < b.len() { assert!(b[i] == a[at + i], "a byte string is a part of the input"); } }
        }
        reach!(x.as_ref().is_ok_and(|b| b.len() == 7));
        core::mem::forget(x);
    }
    [10] fn vector() {
        alloc_limit(4096);
        let v = decode::<Vec<u8>>();
        reach!(v.as_ref().is_some_and(|v| v.len() == 3));
        reach!(v.is_none());
        core::mem::forget(v);
    }
    #[cfg_attr(kani, kani::stub(smallvec::SmallVec::with_capacity, sv_with_capacity))]
    #[cfg_attr(kani, kani::stub(smallvec::SmallVec::try_grow, sv_try_grow))]
    [10] fn small_vector() {
        alloc_limit(4096);
        let v = decode::<SmallVec<[u8; 8]>>();
        reach!(v.as_ref().is_some_and(|v| v.len() == 3));
        reach!(v.is_none());
        core::mem::forget(v);
    }
    [10] fn map() {
        alloc_limit(4096);
        let v = decode::<HashMap<u8, u8>>();
        reach!(v.as_ref().is_some_and(|v| v.len() == 2));
        reach!(v.is_none());
        core::mem::forget(v);
    }
}
