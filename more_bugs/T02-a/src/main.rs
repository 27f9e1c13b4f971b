use lightyear_transport::prelude::*;
use lightyear_transport::packet::message::MessageId;
use lightyear_transport::verif_hooks::*;
use lightyear_core::tick::Tick;
fn main() {
    let s = ChannelSettings { mode: ChannelMode::UnorderedReliable(Default::default()), ..Default::default() };
    let mut r = receive_new(&s);
    let send = |r: &mut Rcv, i: u16| { let _ = r.single(Some(MessageId(i)), Tick(i as u32), bytes::Bytes::from(vec![i as u8])); };
    send(&mut r, 1);
    assert_eq!(r.read().map(|m| m.2), Some(Some(MessageId(1))));
    send(&mut r, 1);
    assert!(r.read().is_none(), "message 1 was read already");
    send(&mut r, 0);
    assert_eq!(r.read().map(|m| m.2), Some(Some(MessageId(0))));
    assert!(r.read().is_none());
}
