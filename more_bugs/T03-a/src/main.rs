use lightyear_transport::prelude::*;
use lightyear_transport::packet::message::MessageId;
use lightyear_transport::verif_hooks::*;
use lightyear_core::tick::Tick;
fn main() {
    let s = ChannelSettings { mode: ChannelMode::SequencedUnreliable, ..Default::default() };
    let mut r = receive_new(&s);
    let send = |r: &mut Rcv, i: u16| { let _ = r.single(Some(MessageId(i)), Tick(i as u32), bytes::Bytes::from(vec![i as u8])); };
    for i in [65534u16, 65535, 0, 2] {
        send(&mut r, i);
        assert_eq!(r.read().map(|m| m.2), Some(Some(MessageId(i))));
    }
    for i in [1u16, 0, 65535, 65530] {
        send(&mut r, i);
        assert!(r.read().is_none(), "message {i} is older than message 2");
    }
}
