use super::*;
pub const HEADER: usize = HEADER_BYTES;
pub const MIN_FRAGMENT_PACKET: usize = MIN_FRAGMENT_PACKET_SIZE;
pub const FRAGMENT: usize = FRAGMENT_SIZE;
pub fn fragment_size(min_mtu: usize) -> Option<usize> { fragment_size_for_min_mtu(min_mtu) }
