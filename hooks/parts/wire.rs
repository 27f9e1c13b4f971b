use alloc::vec::Vec;
use bytes::Bytes;
use lightyear_core::tick::Tick;
use core::time::Duration;
use crate::packet::message::*;
use lightyear_serde::{SerializationError, ToBytes, reader::Reader};
pub fn single_roundtrip(id: Option<MessageId>, bytes: Bytes, out: &mut Vec<u8>) -> usize {
    let d = SingleData::new(id, bytes);
    d.to_bytes(out).unwrap();
    d.bytes_len()
}
pub fn single_decode(r: &mut Reader) -> Result<(Option<MessageId>, Bytes), SerializationError> {
    SingleData::from_bytes(r).map(|d| (d.id, d.bytes))
}
pub fn fragment_encode(id: MessageId, index: u64, count: u64, bytes: Bytes, out: &mut Vec<u8>) -> usize {
    let f = FragmentData {
        message_id: id,
        fragment_id: FragmentIndex(index),
        num_fragments: FragmentIndex(count),
        compression: (index == 0).then_some(FragmentCompression::None),
        bytes,
    };
    f.to_bytes(out).unwrap();
    f.bytes_len()
}
pub struct Frag {
    pub id: MessageId,
    pub index: u64,
    pub count: u64,
    pub bytes: Bytes,
    pub compression: Option<u8>,
}
pub fn fragment_decode(r: &mut Reader) -> Result<Frag, SerializationError> {
    FragmentData::from_bytes(r).map(|f| Frag {
        id: f.message_id,
        index: f.fragment_id.0,
        count: f.num_fragments.0,
        bytes: f.bytes,
        compression: f.compression.map(|c| c as u8),
    })
}

