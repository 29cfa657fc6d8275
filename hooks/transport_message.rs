// Access to the message codecs.
use super::*;
extern crate alloc as al;
/// fragment: (message id, index, count, compression tag, bytes)
pub type F = (u16, u64, u64, Option<u8>, Bytes);
pub(crate) fn mkf(f: &F) -> FragmentData {
    FragmentData { message_id: MessageId(f.0), fragment_id: FragmentIndex(f.1), num_fragments: FragmentIndex(f.2),
        compression: f.3.map(|c| if c == 0 { FragmentCompression::None } else { FragmentCompression::Lz4 }), bytes: f.4.clone() }
}
pub(crate) fn unf(f: &FragmentData) -> F {
    (f.message_id.0, f.fragment_id.0, f.num_fragments.0,
     f.compression.map(|c| match c { FragmentCompression::None => 0, FragmentCompression::Lz4 => 1 }), f.bytes.clone())
}
pub fn fragment_encode<W: WriteInteger>(f: &F, w: &mut W) -> usize { let f = mkf(f); f.to_bytes(w).unwrap(); f.bytes_len() }
pub fn fragment_decode(r: &mut Reader) -> Option<F> { FragmentData::from_bytes(r).ok().map(|f| unf(&f)) }
pub fn single_encode<W: WriteInteger>(id: Option<u16>, b: &Bytes, w: &mut W) -> usize {
    let s = SingleData::new(id.map(MessageId), b.clone());
    s.to_bytes(w).unwrap();
    s.bytes_len()
}
pub fn single_decode(r: &mut Reader) -> Option<(Option<u16>, Bytes)> { SingleData::from_bytes(r).ok().map(|s| (s.id.map(|m| m.0), s.bytes)) }
pub fn index_encode<W: WriteInteger>(i: u64, w: &mut W) -> usize { let i = FragmentIndex(i); let _ = i.to_bytes(w); i.bytes_len() }
