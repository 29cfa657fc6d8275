pub use super::ReplayProtection;
pub const SIZE: usize = super::REPLAY_PROTECTION_BUFFER_SIZE;
pub fn make(most_recent: u64, buf: [u64; SIZE]) -> ReplayProtection {
    ReplayProtection { most_recent_sequence: most_recent, received_packet: buf }
}
pub fn fresh() -> ReplayProtection { ReplayProtection::new() }
pub fn most_recent(r: &ReplayProtection) -> u64 { r.most_recent_sequence }
pub fn slot(r: &ReplayProtection, i: usize) -> u64 { r.received_packet[i] }
