use super::*;
extern crate alloc as al;
pub fn fragments(size: usize, id: u16, message: Bytes) -> Vec<crate::packet::message::verif::F> {
    let mut s = FragmentSender::new();
    s.set_fragment_size(size);
    s.build_fragments_for_message(MessageId(id), message, CompressionConfig::DISABLED, &mut CompressionScratch::default())
        .iter().map(crate::packet::message::verif::unf).collect()
}
