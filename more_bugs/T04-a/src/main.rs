use lightyear_transport::prelude::*;
use lightyear_transport::packet::message::MessageId;
use lightyear_transport::verif_hooks::*;
use lightyear_core::tick::Tick;
fn main() {
    let s = ChannelSettings { mode: ChannelMode::OrderedReliable(Default::default()), ..Default::default() };
    let mut r = receive_new(&s);
    r.set_fragment_size(2);
    let mut f = |i: u64, b: &[u8]| { let _ = r.fragment(MessageId(0), i, 3, Tick(4), bytes::Bytes::copy_from_slice(b)); r.read().map(|m| m.1.to_vec()) };
    assert_eq!(f(2, &[5]), None);
    assert_eq!(f(2, &[5]), None);
    assert_eq!(f(0, &[1, 2]), None);
    assert_eq!(f(1, &[3, 4]), Some(vec![1, 2, 3, 4, 5]));
}
