// hooks
use super::*;
impl RemoteTimeline {
    pub fn v_update(&mut self, t: Tick, p: &PingManager, td: Duration) { self.update(t, p, td) }
}
