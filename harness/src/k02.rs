//! K02: peer ids and network targets on the wire.
use super::nd::*;
use bytes::Bytes;
use core::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use lightyear_connection::network_target::{NetworkTarget, Target, TargetList};
use lightyear_core::id::PeerId;
use lightyear_serde::reader::Reader;
use lightyear_serde::ToBytes;
use no_std_io2::io;

const CAP: usize = 24;
struct Sink { b: [u8; CAP], n: usize }
impl io::Write for Sink {
    fn write(&mut self, s: &[u8]) -> io::Result<usize> {
        for i in 0..s.len() { self.b[self.n + i] = s[i]; }
        self.n += s.len();
        Ok(s.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn trip<T: ToBytes>(x: &T) -> T {
    let mut w = Sink { b: [0; CAP], n: 0 };
    assert!(x.to_bytes(&mut w).is_ok());
    assert!(w.n == x.bytes_len(), "the announced length is the length written");
    let n = w.n as u64;
    let mut r = Reader::from(Bytes::copy_from_slice(&w.b));
    let Ok(y) = T::from_bytes(&mut r) else { panic!("what was written decodes") };
    assert!(r.position() == n, "decoding consumes what was written");
    y
}
fn peer(kind: u8) -> PeerId {
    match kind {
        0 => PeerId::Entity(any()),
        1 => PeerId::Raw(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(any::<[u8; 4]>())), any())),
        2 => PeerId::Raw(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(any::<[u8; 16]>())), any())),
        3 => PeerId::Netcode(any()),
        4 => PeerId::Steam(any()),
        5 => PeerId::Local(any()),
        _ => PeerId::Server,
    }
}
fn one(k: u8) { let p = peer(k); assert!(trip(&p) == p, "a peer id decodes to itself"); }
fn trip_target(t: NetworkTarget) {
    let y = trip(&t);
    assert!(y == t, "a target decodes to itself");
    core::mem::forget((t, y));
}
fn list(kinds: &[u8]) -> TargetList<PeerId> {
    let mut v = TargetList::new();
    for k in kinds { v.push(peer(*k)); }
    v
}
/// `n` arbitrary bytes; reading never goes beyond them.
fn decode<T: ToBytes>(a: &[u8; CAP], n: usize) -> Option<T> {
    let mut b = Bytes::copy_from_slice(a);
    b.truncate(n);
    let mut r = Reader::from(b);
    let x = T::from_bytes(&mut r).ok();
    assert!(r.position() <= n as u64, "nothing past the end is read");
    x
}

harnesses! {
    [20] fn peers() { one(0); one(3); one(4); one(5); one(6); reach!(true); }
    [20] fn peers_ip() { one(1); one(2); reach!(true); }
    [20] fn targets_single() {
        trip_target(Target::None);
        trip_target(Target::All);
        trip_target(Target::Single(peer(3)));
        trip_target(Target::AllExceptSingle(peer(0)));
        reach!(true);
    }
    [20] fn targets_ip() {
        trip_target(Target::Single(peer(1)));
        reach!(true);
    }
    [20] fn only_none() { trip_target(Target::Only(list(&[]))); trip_target(Target::AllExcept(list(&[]))); reach!(true); }
    [20] fn only() {
        let mut l = TargetList::new();
        l.push(PeerId::Server);
        let t = Target::Only(l);
        let y = trip(&t);
        let Target::Only(m) = &y else { panic!("a target decodes to itself") };
        assert!(m.len() == 1 && m[0] == PeerId::Server, "a target decodes to itself");
        reach!(true);
        core::mem::forget((t, y));
    }
    [20] fn all_except() {
        let id: u64 = any();
        let mut l = TargetList::new();
        l.push(PeerId::Netcode(id));
        let t = Target::AllExcept(l);
        let y = trip(&t);
        let Target::AllExcept(m) = &y else { panic!("a target decodes to itself") };
        assert!(m.len() == 1 && m[0] == PeerId::Netcode(id), "a target decodes to itself");
        reach!(id > 1 << 40);
        core::mem::forget((t, y));
    }
    [20] fn arbitrary_bytes() {
        let a: [u8; CAP] = any();
        for n in [0, 1, 2, 6, 7, 8, 9, 18, 19, 20] {
            let p = decode::<PeerId>(&a, n);
            let need = match a[0] { 0 | 3 | 4 | 5 => 9, 1 => 7, 2 => 19, 6 => 1, _ => usize::MAX };
            assert!(p.is_some() == (n >= need), "exactly the complete encodings of known kinds are accepted");
            reach!(n != 19 || p.is_some_and(|p| matches!(p, PeerId::Raw(SocketAddr::V6(_)))));
            core::mem::forget(p);
        }
    }
    [20] fn arbitrary_target() {
        let a: [u8; CAP] = any();
        let t = decode::<NetworkTarget>(&a, 1);
        reach!(t.is_some());
        assert!(t.is_some() == (a[0] == 0 || a[0] == 3), "unknown or truncated targets are refused");
        core::mem::forget(t);
    }
}
