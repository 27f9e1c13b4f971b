//! S01: every value decodes to itself, consumes what was written and announces its length.
use super::nd::*;
use alloc::vec::Vec;
use bevy_ecs::entity::Entity;
use bevy_platform::collections::HashMap;
use bytes::Bytes;
use lightyear_serde::reader::{ReadInteger, ReadVarInt, Reader};
use lightyear_serde::varint::{varint_len, varint_parse_len};
use lightyear_serde::writer::{WriteInteger, Writer};
use lightyear_serde::ToBytes;
use no_std_io2::io;
use smallvec::SmallVec;

const CAP: usize = 20;
/// A byte sink the solver handles well; the library's own `Writer` has its own harnesses.
struct Sink { b: [u8; CAP], n: usize }
impl io::Write for Sink {
    fn write(&mut self, s: &[u8]) -> io::Result<usize> {
        for i in 0..s.len() { self.b[self.n + i] = s[i]; }
        self.n += s.len();
        Ok(s.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// Encodes `x` and decodes it again.
fn trip<T: ToBytes>(x: &T) -> T {
    let mut w = Sink { b: [0; CAP], n: 0 };
    assert!(x.to_bytes(&mut w).is_ok(), "every value can be written");
    assert!(w.n == x.bytes_len(), "the announced length is the length written");
    let mut r = Reader::from(Bytes::copy_from_slice(&w.b));
    let Ok(y) = T::from_bytes(&mut r) else { panic!("what was written decodes") };
    assert!(r.position() == w.n as u64, "decoding consumes exactly what was written");
    y
}
fn same<T: ToBytes + PartialEq>(x: T) {
    let y = trip(&x);
    assert!(y == x, "a value decodes to itself");
    core::mem::forget((x, y));
}
fn vec_of<T: Nd>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(3);
    for _ in 0..n { v.push(any::<T>()); }
    v
}

harnesses! {
    [10] fn varint() {
        let v = upto_u64((1 << 62) - 1);
        let mut w = Writer::with_capacity(4);
        assert!(w.write_varint(v).is_ok());
        assert!(w.len() == varint_len(v), "the announced length is the length written");
        let b = w.into_bytes();
        assert!(varint_parse_len(b[0]) == b.len(), "the first byte tells the length");
        let mut r = Reader::from(b);
        assert!(r.read_varint().unwrap() == v, "a value decodes to itself");
        assert!(!r.has_remaining());
        reach!(v > 1 << 40);
        reach!(v < 16384 && v > 63);
    }
    [10] fn fixed_width() {
        let (a, b, c, d): (u8, u16, u32, u64) = (any(), any(), any(), any());
        let mut w = Writer::with_capacity(4);
        w.write_u8(a).unwrap(); w.write_u16(b).unwrap(); w.write_u32(c).unwrap(); w.write_u64(d).unwrap();
        assert!(w.len() == 15);
        let mut r = Reader::from(w.into_bytes());
        assert!(r.read_u8().unwrap() == a && r.read_u16().unwrap() == b && r.read_u32().unwrap() == c && r.read_u64().unwrap() == d);
        assert!(!r.has_remaining() && r.read_u8().is_err(), "nothing is left");
        reach!(b > 300);
    }
    [10] fn fixed_width_signed() {
        let (a, b, c, d): (u8, u16, u32, u64) = (any(), any(), any(), any());
        let mut w = Writer::with_capacity(4);
        w.write_i8(a as i8).unwrap(); w.write_i16(b as i16).unwrap(); w.write_i32(c as i32).unwrap(); w.write_i64(d as i64).unwrap();
        assert!(w.len() == 15);
        let mut r = Reader::from(w.into_bytes());
        assert!(r.read_i8().unwrap() == a as i8 && r.read_i16().unwrap() == b as i16 && r.read_i32().unwrap() == c as i32 && r.read_i64().unwrap() == d as i64);
        assert!(!r.has_remaining(), "nothing is left");
        reach!(b > 300);
    }
    [10] fn scalars() {
        same(any::<u8>());
        same(any::<u16>());
        let o: Option<u16> = if any() { Some(any()) } else { None };
        same(o);
        same((any::<u8>(), any::<u16>()));
        reach!(o.is_some_and(|x| x > 20000));
    }
    [10] fn byte_strings() {
        let a: [u8; 6] = any();
        let n = below(7);
        let mut x = Bytes::copy_from_slice(&a);
        x.truncate(n);
        let y = trip(&x);
        assert!(y.len() == n, "a byte string keeps its length");
        for i in 0..6 { if i < n { assert!(y[i] == a[i], "a byte string decodes to itself"); } }
        reach!(n == 6);
        reach!(n == 0);
    }
    [10] fn vectors() {
        same(vec_of::<u8>(0));
        same(vec_of::<u8>(1));
        same(vec_of::<u8>(3));
        reach!(true);
    }
    [10] fn vectors_u16() {
        let v = vec_of::<u16>(2);
        reach!(v[0] > 20000 && v[1] < 10);
        same(v);
    }
    [10] fn small_vectors() {
        let a: [u8; 2] = any();
        let mut v: SmallVec<[u8; 4]> = SmallVec::new();
        v.push(a[0]); v.push(a[1]);
        let y = trip(&v);
        assert!(y.len() == 2 && y[0] == a[0] && y[1] == a[1], "a value decodes to itself");
        // the same bytes as the vector
        let mut u = Vec::with_capacity(3);
        u.push(a[0]); u.push(a[1]);
        let mut w = Sink { b: [0; CAP], n: 0 };
        u.to_bytes(&mut w).unwrap();
        v.to_bytes(&mut w).unwrap();
        let b = w.b;
        assert!(w.n == 6 && b[..3] == b[3..6], "both kinds of list have the same encoding");
        reach!(a[0] != a[1]);
        core::mem::forget((v, y, u));
    }
    [10] fn maps() {
        let mut m: HashMap<u8, u8> = HashMap::default();
        let (k, l, v, w): (u8, u8, u8, u8) = (any(), any(), any(), any());
        m.insert(k, v);
        assume(k != l);
        m.insert(l, w);
        let y = trip(&m);
        assert!(y.len() == 2, "a map keeps its size");
        assert!(y.get(&k).copied() == Some(v) && y.get(&l).copied() == Some(w), "a map decodes to itself");
        reach!(v != w);
        core::mem::forget((m, y));
    }
    [10] fn entities() {
        let bits: u64 = any();
        let Some(e) = Entity::try_from_bits(bits) else { return };
        let y = trip(&e);
        assert!(y == e, "index, generation and the mapped mark survive");
        reach!(bits >> 63 == 1);
        reach!(bits >> 32 == 0);
    }
}
