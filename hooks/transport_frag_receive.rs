use super::*;
extern crate alloc as al;
/// reassembly of one fragmented message
pub struct Fc(FragmentConstructor);
impl Fc {
    pub fn new(tick: u32, n: usize, size: usize) -> Option<Self> { FragmentConstructor::new(Tick(tick), n, size).ok().map(Fc) }
    pub fn recv(&mut self, i: usize, b: &[u8]) -> core::result::Result<Option<(u32, Bytes)>, ()> {
        self.0.receive_fragment(i, b, None).map(|o| o.map(|(t, b)| (t.0, b))).map_err(|_| ())
    }
}
/// the whole reassembly table
pub struct Fr(FragmentReceiver);
impl Fr {
    pub fn new(size: usize) -> Self { let mut r = FragmentReceiver::new(); r.set_fragment_size(size); Fr(r) }
    pub fn cleanup(&mut self, t: Duration) { self.0.cleanup(t) }
    pub fn recv(&mut self, f: &crate::packet::message::verif::F, tick: u32, now: Option<Duration>) -> core::result::Result<Option<(u32, Bytes)>, ()> {
        self.0.receive_fragment(crate::packet::message::verif::mkf(f), Tick(tick), now, CompressionConfig::DISABLED)
            .map(|o| o.map(|(t, b)| (t.0, b))).map_err(|_| ())
    }
    pub fn in_flight(&self) -> usize { self.0.fragment_messages.len() }
}
