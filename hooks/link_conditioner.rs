// hooks
use super::*;
impl<P: Eq> LinkConditioner<P> {
    pub fn v_condition(&mut self, packet: P, instant: Instant) { self.condition_packet(packet, instant) }
    pub fn v_pop(&mut self, instant: Instant) -> Option<P> { self.pop_packet(instant) }
}
