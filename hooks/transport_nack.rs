use super::*;
pub fn timeout(s: PacketNackSettings, rtt: Duration, jitter: Duration) -> Duration { s.timeout(&LinkStats { rtt, jitter }) }
