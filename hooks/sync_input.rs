// hooks
use super::*;
impl InputDelayConfig {
    pub fn v_delay(&self, stats: LinkStats, c: &SyncConfig, td: Duration) -> u16 { self.input_delay_ticks(stats, c, td) }
}
impl LocalTimelineSync {
    pub fn v_set_input_delay(&mut self, d: u16) { self.input_delay_ticks = d }
}
