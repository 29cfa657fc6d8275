use super::*;
pub struct Bl(BandwidthLimiter);
impl Bl {
    pub fn new(c: PriorityConfig) -> Self { Bl(BandwidthLimiter::new(c)) }
    pub fn consume(&mut self, n: usize) -> bool { self.0.consume_packet_quota(n) }
}
/// gives the transport a fresh allowance
pub fn set_quota(t: &mut crate::channel::builder::Transport, c: PriorityConfig) {
    t.priority_manager.config = c.clone();
    t.bandwidth_limiter = BandwidthLimiter::new(c);
}
