// hooks
use super::*;
impl PingManager {
    pub fn v_update(&mut self, t: &Time<Real>) { self.update(t) }
    pub fn v_prepare(&mut self, now: Instant) -> Option<PingId> { self.maybe_prepare_ping(now).map(|p| p.id) }
    pub fn v_pong(&mut self, pong: &Pong, now: Instant, td: Duration) { self.process_pong(pong, now, td) }
    pub fn v_buffer_ping(&mut self, ping: &Ping, now: Instant) { self.buffer_pending_pong(ping, now) }
    pub fn v_drain(&mut self) -> Vec<(Pong, Instant)> { self.drain_pending_pongs().collect() }
    pub fn v_reset(&mut self) { self.reset() }
    pub fn v_sample(&mut self, d: Duration) { self.record_rtt_sample(d) }
}
