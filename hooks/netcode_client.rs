use super::*;
impl<Ctx> Client<Ctx> {
    pub fn v_drain(&mut self, sender: &mut LinkSender) { self.drain_send_netcode_packets(sender) }
    pub fn v_challenge(&self) -> (u64, [u8; ChallengeToken::SIZE]) { (self.challenge_token_sequence, self.challenge_token_data) }
    pub fn v_set_challenge(&mut self, t: (u64, [u8; ChallengeToken::SIZE])) {
        self.challenge_token_sequence = t.0;
        self.challenge_token_data = t.1;
    }
    pub fn v_sequence(&self) -> u64 { self.sequence }
}
