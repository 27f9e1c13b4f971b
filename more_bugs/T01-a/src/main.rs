use lightyear_transport::prelude::*;
use lightyear_transport::packet::message::MessageId;
use lightyear_transport::verif_hooks::*;
use lightyear_core::tick::Tick;
fn main() {
    let s = ChannelSettings { mode: ChannelMode::OrderedReliable(Default::default()), ..Default::default() };
    let mut r = receive_new(&s);
    for i in [1u16, 2, 3] {
        r.single(Some(MessageId(i)), Tick(i as u32), bytes::Bytes::from(vec![i as u8])).unwrap();
        assert!(r.read().is_none(), "message 0 has not arrived");
    }
    r.single(Some(MessageId(0)), Tick(0), bytes::Bytes::from(vec![0])).unwrap();
    for i in 0..4u16 { assert_eq!(r.read().map(|m| m.2), Some(Some(MessageId(i)))); }
}
