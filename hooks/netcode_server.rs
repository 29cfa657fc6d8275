use super::*;
impl<Ctx> Server<Ctx> {
    pub fn v_send_netcode_packets(&mut self, entity: Entity, sender: &mut LinkSender) { self.send_netcode_packets(entity, sender) }
    pub fn v_send_keepalives(&mut self, id: u64, sender: &mut LinkSender) { let _ = self.send_keepalives(id, sender); }
    pub fn v_ctx(&mut self) -> &mut Ctx { &mut self.cfg.context }
    /// entity -> client and client -> entity tables agree
    pub fn v_tables_agree(&self) -> bool {
        let c = &self.conn_cache;
        c.clients.iter().all(|(id, conn)| conn.client_id == *id && c.client_id_map.get(&conn.entity) == Some(id) && c.replay_protection.contains_key(id))
            && c.client_id_map.len() == c.clients.len()
            && c.replay_protection.len() == c.clients.len()
    }
    pub fn v_connected(&self, id: u64) -> bool { self.conn_cache.clients.get(&id).is_some_and(|c| c.is_connected()) }
}
pub fn addr_matches(a: SocketAddr, b: SocketAddr) -> bool { server_addr_matches(a, b) }
