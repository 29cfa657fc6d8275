// V23: what is in connect and challenge tokens, and what opens them (N18).
// Real code: crates/connection/netcode/src/token.rs.  The AEAD is an uninterpreted sealing.
use vstd::prelude::*;
verus! {
//@@ include io.inc
/// signed numbers: two's complement, as many bytes
pub uninterp spec fn bi4(n: i32) -> Seq<u8>;
pub uninterp spec fn ui4(s: Seq<u8>) -> i32;
pub axiom fn bi() ensures forall|n: i32| (#[trigger] bi4(n)).len() == 4 && ui4(bi4(n)) == n;
pub open spec fn di4(s: Seq<u8>) -> Option<(i32, Seq<u8>)> { if s.len() >= 4 { Some((ui4(s.take(4)), s.skip(4))) } else { None } }
pub open spec fn dn(s: Seq<u8>, n: int) -> Option<(Seq<u8>, Seq<u8>)> { if s.len() >= n { Some((s.take(n), s.skip(n))) } else { None } }
impl Reader {
    #[verifier::external_body]
    pub fn read_i32(&mut self) -> (r: Result<i32, SerializationError>) ensures got(r, di4(old(self)@), final(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact<const N: usize>(&mut self, b: &mut [u8; N]) -> (r: Result<(), SerializationError>)
        ensures match dn(old(self)@, N as int) { Some((v, t)) => r is Ok && final(b)@ == v && final(self)@ == t, None => r is Err }
    { unimplemented!() }
}
impl Writer {
    #[verifier::external_body]
    pub fn write_i32(&mut self, n: i32) -> (r: Result<(), SerializationError>) ensures r is Ok, final(self)@ == old(self)@ + bi4(n) { unimplemented!() }
    /// write_all of an array
    #[verifier::external_body]
    pub fn put<const N: usize>(&mut self, b: &[u8; N]) -> (r: Result<(), SerializationError>) ensures r is Ok, final(self)@ == old(self)@ + b@ { unimplemented!() }
}
/// a cursor over an array: what is written to it lands at the front of the array, provided there is room
#[verifier::external_body]
pub fn vx_cursor() -> (r: Writer) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_flush<const N: usize>(buf: &mut [u8; N], w: &Writer) requires w@.len() <= N ensures final(buf)@ == w@ + old(buf)@.skip(w@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_reader(b: &[u8]) -> (r: Reader) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_reader_of<const N: usize>(b: &[u8; N]) -> (r: Reader) ensures r@ == b@ { unimplemented!() }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn padded(s: Seq<u8>, n: int) -> Seq<u8> { s + zeros(n - s.len()) }
pub struct Incl { pub a: u32, pub b: u32 }
pub fn vx_incl(a: u32, b: u32) -> (r: Incl) ensures r.a == a, r.b == b { Incl { a, b } }
impl Incl { pub fn contains(&self, x: &u32) -> (r: bool) ensures r == (self.a <= *x && *x <= self.b) { self.a <= *x && *x <= self.b } }
// ---------------------------------------------------------------- core::net
#[derive(Clone, Copy)]
pub struct Ipv4Addr { pub a: [u8; 4] }
#[derive(Clone, Copy)]
pub struct Ipv6Addr { pub a: [u8; 16] }
#[derive(Clone, Copy)]
pub struct SocketAddrV4 { pub i: Ipv4Addr, pub p: u16 }
#[derive(Clone, Copy)]
pub struct SocketAddrV6 { pub i: Ipv6Addr, pub p: u16, pub flowinfo: u32, pub scope_id: u32 }
#[derive(Clone, Copy)]
pub enum SocketAddr { V4(SocketAddrV4), V6(SocketAddrV6) }
pub trait Ip: Sized { spec fn sock(self, p: u16) -> SocketAddr; fn at(self, p: u16) -> (r: SocketAddr) ensures r == self.sock(p); }
impl Ip for Ipv4Addr { open spec fn sock(self, p: u16) -> SocketAddr { SocketAddr::V4(SocketAddrV4 { i: self, p }) } fn at(self, p: u16) -> SocketAddr { SocketAddr::V4(SocketAddrV4 { i: self, p }) } }
impl Ip for Ipv6Addr { open spec fn sock(self, p: u16) -> SocketAddr { SocketAddr::V6(SocketAddrV6 { i: self, p, flowinfo: 0, scope_id: 0 }) } fn at(self, p: u16) -> SocketAddr { SocketAddr::V6(SocketAddrV6 { i: self, p, flowinfo: 0, scope_id: 0 }) } }
impl Ipv4Addr {
    pub fn from(a: [u8; 4]) -> (r: Ipv4Addr) ensures r.a == a { Ipv4Addr { a } }
    pub fn octets(&self) -> (r: [u8; 4]) ensures r == self.a { self.a }
}
impl Ipv6Addr {
    pub fn from(a: [u8; 16]) -> (r: Ipv6Addr) ensures r.a == a { Ipv6Addr { a } }
    pub fn octets(&self) -> (r: [u8; 16]) ensures r == self.a { self.a }
}
impl SocketAddrV4 {
    pub fn ip(&self) -> (r: &Ipv4Addr) ensures *r == self.i { &self.i }
    pub fn port(&self) -> (r: u16) ensures r == self.p { self.p }
}
impl SocketAddrV6 {
    pub fn ip(&self) -> (r: &Ipv6Addr) ensures *r == self.i { &self.i }
    pub fn port(&self) -> (r: u16) ensures r == self.p { self.p }
}
impl SocketAddr { pub fn from<I: Ip>(x: (I, u16)) -> (r: SocketAddr) ensures r == x.0.sock(x.1) { x.0.at(x.1) } }
/// an address but for its flow label and scope
pub enum Addr { V4(Seq<u8>, u16), V6(Seq<u8>, u16) }
pub open spec fn ma(a: SocketAddr) -> Addr { match a { SocketAddr::V4(a) => Addr::V4(a.i.a@, a.p), SocketAddr::V6(a) => Addr::V6(a.i.a@, a.p) } }
pub open spec fn mas(l: Seq<SocketAddr>) -> Seq<Addr> { l.map_values(|a: SocketAddr| ma(a)) }
pub open spec fn wfa(a: Addr) -> bool { match a { Addr::V4(o, _) => o.len() == 4, Addr::V6(o, _) => o.len() == 16 } }
pub open spec fn enca(a: Addr) -> Seq<u8> { match a { Addr::V4(o, p) => seq![1u8] + o + be2(p), Addr::V6(o, p) => seq![2u8] + o + be2(p) } }
pub open spec fn dip(s: Seq<u8>, n: int, six: bool) -> Option<(Addr, Seq<u8>)> {
    match dn(s, n) { None => None, Some((o, t)) => match d2(t) { None => None, Some((p, u)) => Some((if six { Addr::V6(o, p) } else { Addr::V4(o, p) }, u)) } }
}
pub open spec fn deca(s: Seq<u8>) -> Option<(Addr, Seq<u8>)> {
    match d1(s) { None => None, Some((b, t)) => if b == 1 { dip(t, 4, false) } else if b == 2 { dip(t, 16, true) } else { None } }
}
pub proof fn exact_a(a: Addr, rest: Seq<u8>) requires wfa(a) ensures deca(enca(a) + rest) == Some((a, rest)), enca(a).len() <= 19
{
    be();
    let (o, p) = match a { Addr::V4(o, p) => (o, p), Addr::V6(o, p) => (o, p) };
    let s = enca(a) + rest;
    assert(s.skip(1) =~= o + be2(p) + rest);
    assert((o + be2(p) + rest).take(o.len() as int) =~= o);
    assert((o + be2(p) + rest).skip(o.len() as int) =~= be2(p) + rest);
    assert((be2(p) + rest).take(2) =~= be2(p));
    assert((be2(p) + rest).skip(2) =~= rest);
}
pub open spec fn encl(l: Seq<Addr>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { encl(l.drop_last()) + enca(l.last()) } }
pub open spec fn decl(s: Seq<u8>, n: nat) -> Option<(Seq<Addr>, Seq<u8>)> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else { match decl(s, (n - 1) as nat) { None => None, Some((l, t)) => match deca(t) { None => None, Some((a, u)) => Some((l.push(a), u)) } } }
}
pub open spec fn wfl(l: Seq<Addr>) -> bool { forall|i: int| 0 <= i < l.len() ==> wfa(#[trigger] l[i]) }
pub proof fn exact_l(l: Seq<Addr>, rest: Seq<u8>) requires wfl(l) ensures decl(encl(l) + rest, l.len()) == Some((l, rest)), encl(l).len() <= 19 * l.len() decreases l.len()
{
    if l.len() == 0 { assert(encl(l) + rest =~= rest); assert(l =~= Seq::empty()); }
    else {
        let d = l.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies wfa(#[trigger] d[i]) by { assert(d[i] == l[i]); }
        exact_l(d, enca(l.last()) + rest);
        assert(encl(l) + rest =~= encl(d) + (enca(l.last()) + rest));
        exact_a(l.last(), rest);
        assert(d.push(l.last()) =~= l);
    }
}
/// a decoding that fails after some addresses fails after more
pub proof fn decl_none(s: Seq<u8>, i: nat, n: nat) requires i <= n, decl(s, i) is None ensures decl(s, n) is None decreases n { if i < n { decl_none(s, i, (n - 1) as nat); } }
pub open spec fn enc_al(l: Seq<Addr>) -> Seq<u8> { be4(l.len() as u32) + encl(l) }
pub open spec fn dec_al(s: Seq<u8>) -> Option<(Seq<Addr>, Seq<u8>)> { match d4(s) { None => None, Some((n, t)) => if 1 <= n <= 32 { decl(t, n as nat) } else { None } } }
pub proof fn exact_al(l: Seq<Addr>, rest: Seq<u8>) requires wfl(l), 1 <= l.len() <= 32 ensures dec_al(enc_al(l) + rest) == Some((l, rest)), enc_al(l).len() <= 612
{
    be();
    let s = enc_al(l) + rest;
    assert(s.take(4) =~= be4(l.len() as u32));
    assert(s.skip(4) =~= encl(l) + rest);
    exact_l(l, rest);
}
pub proof fn len_al(l: Seq<Addr>) requires wfl(l), l.len() <= 32 ensures enc_al(l).len() <= 612 { be(); exact_l(l, Seq::empty()); }
pub proof fn mas_wf(l: Seq<SocketAddr>) ensures wfl(mas(l)) { }
/// `FreeList`: proved in V6 (insert takes the first free slot, the iterator yields the occupied slots in order); nothing is
/// ever removed from an address list, so it is a sequence
//@@ source crates/connection/netcode/src/token.rs
//@@ item const MAX_SERVERS_PER_CONNECT
#[verifier::external_body]
pub struct FreeList { x: u64 }
impl View for FreeList { type V = Seq<SocketAddr>; uninterp spec fn view(&self) -> Seq<SocketAddr>; }
impl Clone for FreeList { #[verifier::external_body] fn clone(&self) -> (r: FreeList) ensures r == *self { unimplemented!() } }
impl Copy for FreeList { }
impl FreeList {
    #[verifier::external_body]
    pub fn new() -> (r: FreeList) ensures r@ == Seq::<SocketAddr>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: SocketAddr) -> (r: usize) requires old(self)@.len() < MAX_SERVERS_PER_CONNECT ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn items(&self) -> (r: &Vec<SocketAddr>) ensures r@ == self@ { unimplemented!() }
}
pub trait ToSocketAddrs: Sized {
    spec fn list(&self) -> Seq<SocketAddr>;
    fn to_socket_addrs(&self) -> (r: Result<Vec<SocketAddr>, SerializationError>) ensures r is Ok ==> r->Ok_0@ == self.list();
}
pub struct Enumerate { pub v: Vec<SocketAddr>, pub i: usize }
pub fn vx_enumerate(v: Vec<SocketAddr>) -> (r: Enumerate) ensures r.v@ == v@, r.i == 0 { Enumerate { v, i: 0 } }
impl Enumerate {
    pub fn next(&mut self) -> (r: Option<(usize, SocketAddr)>) requires old(self).i <= old(self).v@.len()
        ensures final(self).v@ == old(self).v@, final(self).i <= final(self).v@.len(), match r { Some(x) => old(self).i < old(self).v@.len() && x.0 == old(self).i && x.1 == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i == old(self).v@.len() && final(self).i == old(self).i }
    { if self.i < self.v.len() { let k = self.i; self.i = k + 1; Some((k, self.v[k])) } else { None } }
}
#[derive(Clone, Copy)]
pub struct AddressList { pub addrs: FreeList }
//@@ source crates/connection/netcode/src/token.rs
impl AddressList {
//@@ item const AddressList::IPV4
//@@ item const AddressList::IPV6
    pub open spec fn m(&self) -> Seq<Addr> { mas(self.addrs@) }
    pub open spec fn wf(&self) -> bool { self.addrs@.len() <= 32 }
//@@ fn AddressList::new
//@@ rename: addrs : impl utils :: ToSocketAddrs => addrs: impl ToSocketAddrs ;; Result < Self , Error > => Result<Self, SerializationError> ;; addrs . to_socket_addrs ( ) ? . enumerate ( ) => vx_enumerate(addrs.to_socket_addrs()?)
//@@ stepped: vx_it
//@@ spec: ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.addrs@ == (if addrs.list().len() <= 32 { addrs.list() } else { addrs.list().take(32) })
//@@ loop 0:
//@@ | invariant_except_break vx_it.i <= 32, server_addresses@ == vx_it.v@.take(vx_it.i as int)
//@@ | invariant vx_it.v@ == addrs.list(), vx_it.i <= vx_it.v@.len()
//@@ | ensures server_addresses@ == (if addrs.list().len() <= 32 { addrs.list() } else { addrs.list().take(32) })
//@@ | decreases vx_it.v@.len() - vx_it.i
//@@ loopbody 0: proof { assert(addrs.list().take(addrs.list().len() as int) =~= addrs.list()); }
//@@ loopend 0: proof { if vx_it.i > 0 { assert(addrs.list().take(vx_it.i as int) =~= addrs.list().take(vx_it.i - 1).push(addrs.list()[vx_it.i - 1])); } }
//@@ end
//@@ fn AddressList::len
//@@ spec: ensures r == self.addrs@.len()
//@@ end
//@@ fn Bytes for AddressList::write_to
//@@ rename: & mut impl WriteInteger => &mut Writer ;; InvalidTokenError => SerializationError ;; for ( _ , addr ) in self . iter ( ) => for addr in self.addrs.items().iter() ;; write_all => put
//@@ spec: requires self.wf() ensures r is Ok, final(buf)@ == old(buf)@ + enc_al(self.m())
//@@ start: let ghost b0 = buf@;
//@@ before "for addr": let ghost b1 = buf@; proof { assert(self.m().take(0) =~= Seq::empty()); assert(b1 + encl(self.m().take(0)) =~= b1); }
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant it.seq() == self.addrs@.map_values(|x: SocketAddr| &x), buf@ == b1 + encl(self.m().take(it.index() as int))
//@@ loopbody 0: let ghost c0 = buf@; proof { assert(self.m().take(it.index() + 1).drop_last() =~= self.m().take(it.index() as int)); assert(self.m().take(it.index() + 1).last() == ma(*addr)); }
//@@ loopend 0: proof { assert(buf@ =~= c0 + enca(ma(*addr))); assert(buf@ =~= b1 + encl(self.m().take(it.index() + 1))); }
//@@ afterloop 0: proof { assert(self.m().take(self.m().len() as int) =~= self.m()); assert(buf@ =~= b0 + enc_al(self.m())); }
//@@ end
//@@ fn Bytes for AddressList::read_from
//@@ rename: & mut impl ReadInteger => &mut Reader ;; InvalidTokenError :: AddressListLength ( len ) => SerializationError::InvalidValue ;; InvalidTokenError :: InvalidIpAddressType ( t ) => SerializationError::InvalidValue ;; InvalidTokenError => SerializationError ;; ( 1 ..= MAX_SERVERS_PER_CONNECT as u32 ) => vx_incl(1, MAX_SERVERS_PER_CONNECT as u32)
//@@ spec:
//@@ | // any bytes: the addresses that are there, in their order, or an error
//@@ | ensures match dec_al(old(reader)@) { Some((l, t)) => r is Ok && r->Ok_0.wf() && r->Ok_0.m() == l && final(reader)@ == t, None => r is Err }
//@@ before "for _ in": let ghost t0 = reader@; proof { assert(mas(addrs@) =~= Seq::empty()); }
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant 1 <= len <= 32, dec_al(old(reader)@) == decl(t0, len as nat), 0 <= it.index() <= len, addrs@.len() == it.index(), decl(t0, it.index() as nat) == Some((mas(addrs@), reader@))
//@@ loopbody 0: let ghost a0 = addrs@; let ghost q0 = reader@; proof { if deca(q0) is None { assert(decl(t0, (it.index() + 1) as nat) is None); decl_none(t0, (it.index() + 1) as nat, len as nat); } }
//@@ loopend 0: proof { assert(mas(addrs@) =~= mas(a0).push(ma(addrs@.last()))); }
//@@ end
}
// ---------------------------------------------------------------- sealing
pub type Key = [u8; 32];
pub type XNonce = [u8; 24];
pub enum Nonce { X(Seq<u8>), C(u64) }
/// authenticated encryption is a function of nonce, associated data, key and contents; only its results open
pub uninterp spec fn seal(n: Nonce, ad: Seq<u8>, key: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn open(n: Nonce, ad: Seq<u8>, key: Seq<u8>, c: Seq<u8>) -> Option<Seq<u8>>;
pub axiom fn aead_opens(n: Nonce, ad: Seq<u8>, key: Seq<u8>, p: Seq<u8>) ensures open(n, ad, key, seal(n, ad, key, p)) == Some(p), seal(n, ad, key, p).len() == p.len() + 16;
pub axiom fn aead_only(n: Nonce, ad: Seq<u8>, key: Seq<u8>, c: Seq<u8>) ensures match open(n, ad, key, c) { Some(p) => c == seal(n, ad, key, p) && c.len() == p.len() + 16, None => true };
pub open spec fn ad_of<const N: usize>(a: Option<&[u8; N]>) -> Seq<u8> { match a { Some(x) => x@, None => Seq::empty() } }
#[verifier::external_body]
pub fn xchacha_encrypt<const N: usize>(buf: &mut [u8; N], ad: Option<&[u8; 29]>, nonce: XNonce, key: &Key) -> (r: Result<(), SerializationError>)
    ensures N >= 16 ==> r is Ok && final(buf)@ == seal(Nonce::X(nonce@), ad_of(ad), key@, old(buf)@.take(N - 16))
{ unimplemented!() }
#[verifier::external_body]
pub fn chacha_encrypt<const N: usize>(buf: &mut [u8; N], ad: Option<&[u8; 29]>, nonce: u64, key: &Key) -> (r: Result<(), SerializationError>)
    ensures N >= 16 ==> r is Ok && final(buf)@ == seal(Nonce::C(nonce), ad_of(ad), key@, old(buf)@.take(N - 16))
{ unimplemented!() }
#[verifier::external_body]
pub fn xchacha_decrypt(buf: &mut [u8], ad: Option<&[u8; 29]>, nonce: XNonce, key: &Key) -> (r: Result<(), SerializationError>)
    ensures final(buf)@.len() == old(buf)@.len(), match open(Nonce::X(nonce@), ad_of(ad), key@, old(buf)@) { Some(p) => r is Ok && final(buf)@ == p + old(buf)@.skip(p.len() as int), None => r is Err }
{ unimplemented!() }
#[verifier::external_body]
pub fn chacha_decrypt<const N: usize>(buf: &mut [u8; N], ad: Option<&[u8; 29]>, nonce: u64, key: &Key) -> (r: Result<(), SerializationError>)
    ensures match open(Nonce::C(nonce), ad_of(ad), key@, old(buf)@) { Some(p) => r is Ok && final(buf)@ == p + old(buf)@.skip(p.len() as int), None => r is Err }
{ unimplemented!() }
pub uninterp spec fn version() -> Seq<u8>;
#[verifier::external_body]
pub fn vx_version() -> (r: &'static [u8; 13]) ensures r@ == version(), version().len() == 13 { unimplemented!() }
#[verifier::external_body]
pub fn vx_differ(a: &[u8; 13], b: &[u8; 13]) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
pub open spec fn aad(protocol: u64, expire: u64) -> Seq<u8> { version() + be8(protocol) + be8(expire) }
/// associated data of different protocols or expiries differ
pub proof fn aad_injective(p: u64, e: u64, q: u64, f: u64) requires aad(p, e) == aad(q, f), version().len() == 13 ensures p == q, e == f
{
    be();
    let (a, b) = (aad(p, e), aad(q, f));
    assert(a.subrange(13, 21) =~= be8(p)); assert(b.subrange(13, 21) =~= be8(q)); assert(a.skip(21) =~= be8(e)); assert(b.skip(21) =~= be8(f));
}
// ---------------------------------------------------------------- private part
pub struct Priv { pub id: u64, pub timeout: i32, pub addrs: Seq<Addr>, pub c2s: Seq<u8>, pub s2c: Seq<u8>, pub user: Seq<u8> }
pub open spec fn wfp(v: Priv) -> bool { wfl(v.addrs) && v.addrs.len() <= 32 && v.c2s.len() == 32 && v.s2c.len() == 32 && v.user.len() == 256 }
pub open spec fn keys(c: Seq<u8>, s: Seq<u8>) -> Seq<u8> { c + s }
pub open spec fn enc_priv(v: Priv) -> Seq<u8> { be8(v.id) + bi4(v.timeout) + enc_al(v.addrs) + v.c2s + v.s2c + v.user }
pub open spec fn dec_priv(s: Seq<u8>) -> Option<(Priv, Seq<u8>)> {
    match d8(s) { None => None, Some((id, s)) => match di4(s) { None => None, Some((timeout, s)) => match dec_al(s) { None => None, Some((addrs, s)) =>
    match dn(s, 32) { None => None, Some((c2s, s)) => match dn(s, 32) { None => None, Some((s2c, s)) => match dn(s, 256) { None => None, Some((user, s)) => Some((Priv { id, timeout, addrs, c2s, s2c, user }, s)) } } } } } }
}
pub proof fn num(n: u64, rest: Seq<u8>) ensures d8(be8(n) + rest) == Some((n, rest)), be8(n).len() == 8 { be(); assert((be8(n) + rest).take(8) =~= be8(n)); assert((be8(n) + rest).skip(8) =~= rest); }
pub proof fn inum(n: i32, rest: Seq<u8>) ensures di4(bi4(n) + rest) == Some((n, rest)), bi4(n).len() == 4 { bi(); assert((bi4(n) + rest).take(4) =~= bi4(n)); assert((bi4(n) + rest).skip(4) =~= rest); }
pub proof fn arr(a: Seq<u8>, rest: Seq<u8>) ensures dn(a + rest, a.len() as int) == Some((a, rest)) { assert((a + rest).take(a.len() as int) =~= a); assert((a + rest).skip(a.len() as int) =~= rest); }
pub proof fn len_priv(v: Priv) requires wfp(v) ensures enc_priv(v).len() <= 944 { be(); bi(); len_al(v.addrs); }
pub proof fn exact_priv(v: Priv, rest: Seq<u8>) requires wfp(v), v.addrs.len() >= 1 ensures dec_priv(enc_priv(v) + rest) == Some((v, rest))
{
    let t5 = v.user + rest; let t4 = v.s2c + t5; let t3 = v.c2s + t4; let t2 = enc_al(v.addrs) + t3; let t1 = bi4(v.timeout) + t2;
    assert(enc_priv(v) + rest =~= be8(v.id) + t1);
    num(v.id, t1); inum(v.timeout, t2); exact_al(v.addrs, t3); arr(v.c2s, t4); arr(v.s2c, t5); arr(v.user, rest);
}
//@@ item struct ConnectTokenPrivate USER_DATA_BYTES=>256
impl ConnectTokenPrivate {
//@@ item const ConnectTokenPrivate::SIZE
    pub open spec fn m(&self) -> Priv { Priv { id: self.client_id, timeout: self.timeout_seconds, addrs: self.server_addresses.m(), c2s: self.client_to_server_key@, s2c: self.server_to_client_key@, user: self.user_data@ } }
    pub open spec fn wf(&self) -> bool { self.server_addresses.wf() }
//@@ fn ConnectTokenPrivate::aead
//@@ rename: [ u8 ; NETCODE_VERSION . len ( ) + core :: mem :: size_of :: < u64 > ( ) * 2 ] => [u8; 29] ;; [ 0 ; NETCODE_VERSION . len ( ) + core :: mem :: size_of :: < u64 > ( ) * 2 ] => [0; 29] ;; , Error > => , SerializationError> ;; io :: Cursor :: new ( & mut aead [ .. ] ) => vx_cursor() ;; write_all ( NETCODE_VERSION ) => put(vx_version()) ;; Ok ( aead ) => { vx_flush(&mut aead, &cursor); Ok(aead) }
//@@ spec: ensures r is Ok, r->Ok_0@ == aad(protocol_id, expire_timestamp)
//@@ start: proof { be(); }
//@@ before "\{ vx_flush": proof { assert(cursor@ =~= aad(protocol_id, expire_timestamp)); assert(aead@.skip(29) =~= Seq::empty()); assert(cursor@ + Seq::<u8>::empty() =~= cursor@); }
//@@ end
//@@ fn Bytes for ConnectTokenPrivate::write_to
//@@ rename: & mut impl WriteInteger => &mut Writer ;; io :: Error > => SerializationError> ;; . map_err ( io :: Error :: other ) => ;; write_all => put
//@@ spec: requires self.wf() ensures r is Ok, final(buf)@ == old(buf)@ + enc_priv(self.m())
//@@ start: let ghost b0 = buf@;
//@@ before "Ok\(\(\)\)": proof { assert(buf@ =~= b0 + enc_priv(self.m())); }
//@@ end
//@@ fn Bytes for ConnectTokenPrivate::read_from
//@@ rename: & mut impl ReadInteger => &mut Reader ;; io :: Error > => SerializationError> ;; . map_err ( io :: Error :: other ) => ;; PRIVATE_KEY_BYTES => 32 ;; USER_DATA_BYTES => 256
//@@ spec: ensures match dec_priv(old(reader)@) { Some((v, t)) => r is Ok && r->Ok_0.wf() && r->Ok_0.m() == v && final(reader)@ == t, None => r is Err }
//@@ end
//@@ fn ConnectTokenPrivate::encrypt
//@@ rename: , Error > => , SerializationError> ;; io :: Cursor :: new ( & mut buf [ .. ] ) => vx_cursor() ;; crypto :: xchacha_encrypt => vx_flush(&mut buf, &cursor); proof { vx_seal(buf@, self.m()); } xchacha_encrypt
//@@ spec:
//@@ | // everything fits in front of the tag; what is sealed is the token, to this protocol, expiry, nonce and key
//@@ | requires self.wf()
//@@ | ensures r is Ok, r->Ok_0@ == seal(Nonce::X(nonce@), aad(protocol_id, expire_timestamp), private_key@, padded(enc_priv(self.m()), 1008))
//@@ start: proof { len_priv(self.m()); }
//@@ before "self . write_to|self\.write_to": let ghost z = buf@; proof { assert(Seq::<u8>::empty() + enc_priv(self.m()) =~= enc_priv(self.m())); assert(z =~= zeros(1024)); }
//@@ end
//@@ fn ConnectTokenPrivate::decrypt
//@@ rename: Result < Self , Error > => Result<Self, SerializationError> ;; crypto :: xchacha_decrypt => xchacha_decrypt ;; io :: Cursor :: new ( encrypted ) => vx_reader(encrypted)
//@@ spec:
//@@ | // opens only what was sealed to this protocol, expiry, nonce and key, and gives what was sealed
//@@ | ensures match open(Nonce::X(nonce@), aad(protocol_id, expire_timestamp), private_key@, old(encrypted)@) { None => r is Err,
//@@ |   Some(p) => match dec_priv(p + old(encrypted)@.skip(p.len() as int)) { Some((v, _)) => r is Ok && r->Ok_0.wf() && r->Ok_0.m() == v, None => r is Err } }
//@@ end
}
pub proof fn vx_seal(b: Seq<u8>, v: Priv) requires wfp(v), b == enc_priv(v) + zeros(1024).skip(enc_priv(v).len() as int) ensures b.take(1008) == padded(enc_priv(v), 1008)
{ len_priv(v); assert(b.take(1008) =~= padded(enc_priv(v), 1008)); }
/// what is sealed for a server opens there and says the same
pub proof fn private_round_trip(v: Priv, protocol: u64, expire: u64, nonce: Seq<u8>, key: Seq<u8>)
    requires wfp(v), v.addrs.len() >= 1
    ensures ({ let c = seal(Nonce::X(nonce), aad(protocol, expire), key, padded(enc_priv(v), 1008));
        &&& c.len() == 1024
        &&& match open(Nonce::X(nonce), aad(protocol, expire), key, c) { Some(p) => match dec_priv(p + c.skip(p.len() as int)) { Some((w, _)) => w == v, None => false }, None => false } })
{
    len_priv(v);
    let p = padded(enc_priv(v), 1008);
    let c = seal(Nonce::X(nonce), aad(protocol, expire), key, p);
    aead_opens(Nonce::X(nonce), aad(protocol, expire), key, p);
    assert(p + c.skip(p.len() as int) =~= enc_priv(v) + (zeros(1008 - enc_priv(v).len()) + c.skip(p.len() as int)));
    exact_priv(v, zeros(1008 - enc_priv(v).len()) + c.skip(p.len() as int));
}
// ---------------------------------------------------------------- challenge
pub struct Chal { pub id: u64, pub user: Seq<u8> }
pub open spec fn enc_ch(v: Chal) -> Seq<u8> { be8(v.id) + v.user }
pub open spec fn dec_ch(s: Seq<u8>) -> Option<(Chal, Seq<u8>)> { match d8(s) { None => None, Some((id, s)) => match dn(s, 256) { None => None, Some((user, s)) => Some((Chal { id, user }, s)) } } }
//@@ item struct ChallengeToken USER_DATA_BYTES=>256
impl ChallengeToken {
//@@ item const ChallengeToken::SIZE
    pub open spec fn m(&self) -> Chal { Chal { id: self.client_id, user: self.user_data@ } }
//@@ fn Bytes for ChallengeToken::write_to
//@@ rename: & mut impl WriteInteger => &mut Writer ;; io :: Error > => SerializationError> ;; write_all => put
//@@ spec: ensures r is Ok, final(buf)@ == old(buf)@ + enc_ch(self.m())
//@@ start: let ghost b0 = buf@;
//@@ before "Ok\(\(\)\)": proof { assert(buf@ =~= b0 + enc_ch(self.m())); }
//@@ end
//@@ fn Bytes for ChallengeToken::read_from
//@@ rename: & mut impl ReadInteger => &mut Reader ;; io :: Error > => SerializationError> ;; USER_DATA_BYTES => 256
//@@ spec: ensures match dec_ch(old(reader)@) { Some((v, t)) => r is Ok && r->Ok_0.m() == v && final(reader)@ == t, None => r is Err }
//@@ end
//@@ fn ChallengeToken::encrypt
//@@ rename: , Error > => , SerializationError> ;; io :: Cursor :: new ( & mut buf [ .. ] ) => vx_cursor() ;; crypto :: chacha_encrypt => vx_flush(&mut buf, &cursor); proof { assert(buf@.take(284) =~= padded(enc_ch(self.m()), 284)); } chacha_encrypt
//@@ spec: ensures r is Ok, r->Ok_0@ == seal(Nonce::C(sequence), Seq::empty(), private_key@, padded(enc_ch(self.m()), 284))
//@@ start: proof { be(); }
//@@ before "self . write_to|self\.write_to": let ghost z = buf@; proof { assert(Seq::<u8>::empty() + enc_ch(self.m()) =~= enc_ch(self.m())); assert(z =~= zeros(300)); }
//@@ end
//@@ fn ChallengeToken::decrypt
//@@ rename: Result < Self , Error > => Result<Self, SerializationError> ;; crypto :: chacha_decrypt => chacha_decrypt ;; io :: Cursor :: new ( & encrypted [ .. ] ) => vx_reader_of(encrypted)
//@@ spec:
//@@ | ensures match open(Nonce::C(sequence), Seq::empty(), private_key@, old(encrypted)@) { None => r is Err,
//@@ |   Some(p) => match dec_ch(p + old(encrypted)@.skip(p.len() as int)) { Some((v, _)) => r is Ok && r->Ok_0.m() == v, None => r is Err } }
//@@ end
}
pub proof fn challenge_round_trip(v: Chal, n: u64, key: Seq<u8>)
    requires v.user.len() == 256
    ensures ({ let c = seal(Nonce::C(n), Seq::empty(), key, padded(enc_ch(v), 284));
        &&& c.len() == 300
        &&& match open(Nonce::C(n), Seq::empty(), key, c) { Some(p) => match dec_ch(p + c.skip(p.len() as int)) { Some((w, _)) => w == v, None => false }, None => false } })
{
    be();
    let p = padded(enc_ch(v), 284);
    let c = seal(Nonce::C(n), Seq::empty(), key, p);
    aead_opens(Nonce::C(n), Seq::empty(), key, p);
    let rest = zeros(20) + c.skip(284);
    assert(p + c.skip(284) =~= be8(v.id) + (v.user + rest));
    num(v.id, v.user + rest); arr(v.user, rest);
}
// ---------------------------------------------------------------- public part
pub struct Tok { pub protocol: u64, pub create: u64, pub expire: u64, pub nonce: Seq<u8>, pub sealed: Seq<u8>, pub timeout: i32, pub addrs: Seq<Addr>, pub c2s: Seq<u8>, pub s2c: Seq<u8> }
pub open spec fn wft(v: Tok) -> bool { wfl(v.addrs) && v.addrs.len() <= 32 && v.nonce.len() == 24 && v.sealed.len() == 1024 && v.c2s.len() == 32 && v.s2c.len() == 32 && v.create <= v.expire }
pub open spec fn enc_tok(v: Tok) -> Seq<u8> { version() + be8(v.protocol) + be8(v.create) + be8(v.expire) + v.nonce + v.sealed + bi4(v.timeout) + enc_al(v.addrs) + v.c2s + v.s2c }
pub open spec fn dec_tail(protocol: u64, create: u64, expire: u64, s: Seq<u8>) -> Option<(Tok, Seq<u8>)> {
    match dn(s, 24) { None => None, Some((nonce, s)) => match dn(s, 1024) { None => None, Some((sealed, s)) => match di4(s) { None => None, Some((timeout, s)) => match dec_al(s) { None => None, Some((addrs, s)) =>
    match dn(s, 32) { None => None, Some((c2s, s)) => match dn(s, 32) { None => None, Some((s2c, s)) => Some((Tok { protocol, create, expire, nonce, sealed, timeout, addrs, c2s, s2c }, s)) } } } } } }
}
pub open spec fn dec_tok(s: Seq<u8>) -> Option<(Tok, Seq<u8>)> {
    match dn(s, 13) { None => None, Some((v, s)) => if v != version() { None } else { match d8(s) { None => None, Some((protocol, s)) => match d8(s) { None => None, Some((create, s)) => match d8(s) { None => None, Some((expire, s)) =>
    if create > expire { None } else { dec_tail(protocol, create, expire, s) } } } } } }
}
pub proof fn exact_tok(v: Tok, rest: Seq<u8>) requires wft(v), v.addrs.len() >= 1, version().len() == 13 ensures dec_tok(enc_tok(v) + rest) == Some((v, rest)), enc_tok(v).len() <= 2048
{
    let t9 = v.s2c + rest; let t8 = v.c2s + t9; let t7 = enc_al(v.addrs) + t8; let t6 = bi4(v.timeout) + t7; let t5 = v.sealed + t6; let t4 = v.nonce + t5;
    let t3 = be8(v.expire) + t4; let t2 = be8(v.create) + t3; let t1 = be8(v.protocol) + t2;
    assert(enc_tok(v) + rest =~= version() + t1);
    arr(version(), t1); num(v.protocol, t2); num(v.create, t3); num(v.expire, t4); arr(v.nonce, t5); arr(v.sealed, t6); inum(v.timeout, t7); exact_al(v.addrs, t8); arr(v.c2s, t9); arr(v.s2c, rest);
}
pub proof fn len_tok(v: Tok) requires wft(v), version().len() == 13 ensures enc_tok(v).len() <= 2048 { be(); bi(); len_al(v.addrs); }
//@@ item struct ConnectToken NETCODE_VERSION . len ( )=>13;;ConnectTokenPrivate :: SIZE=>1024
#[verifier::external_body]
pub fn now() -> (r: Result<u64, SerializationError>) ensures r is Ok ==> r->Ok_0 < 0x4000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn generate_key() -> (r: Key) { unimplemented!() }
#[verifier::external_body]
pub fn vx_nonce() -> (r: XNonce) { unimplemented!() }
pub const TOKEN_EXPIRE_SEC: i32 = 30;
//@@ item struct ConnectTokenBuilder A : utils :: ToSocketAddrs=>A: ToSocketAddrs;;USER_DATA_BYTES=>256
impl<A: ToSocketAddrs> ConnectTokenBuilder<A> {
//@@ fn ConnectTokenBuilder::new
//@@ rename: USER_DATA_BYTES => 256 ;; CONNECTION_TIMEOUT_SEC => vx_timeout()
//@@ spec: ensures r.protocol_id == protocol_id, r.client_id == client_id, r.private_key == private_key, r.public_server_addresses == server_addresses, r.internal_server_addresses is None, r.user_data@ =~= zeros(256)
//@@ end
//@@ fn ConnectTokenBuilder::expire_seconds
//@@ rename: mut self => mut me: Self ;; self => me
//@@ spec: ensures r == (ConnectTokenBuilder { expire_seconds, ..me })
//@@ end
//@@ fn ConnectTokenBuilder::timeout_seconds
//@@ rename: mut self => mut me: Self ;; self => me
//@@ spec: ensures r == (ConnectTokenBuilder { timeout_seconds, ..me })
//@@ end
//@@ fn ConnectTokenBuilder::user_data
//@@ rename: mut self => mut me: Self ;; self => me ;; USER_DATA_BYTES => 256
//@@ spec: ensures r == (ConnectTokenBuilder { user_data, ..me })
//@@ end
//@@ fn ConnectTokenBuilder::internal_addresses
//@@ rename: mut self => mut me: Self ;; self => me ;; , Error > => , SerializationError>
//@@ spec: ensures r is Ok ==> ({ let b = r->Ok_0; let l = internal_addresses.list(); b.internal_server_addresses is Some && b.internal_server_addresses->0.wf() && b.internal_server_addresses->0.addrs@ == (if l.len() <= 32 { l } else { l.take(32) }) && b == (ConnectTokenBuilder { internal_server_addresses: b.internal_server_addresses, ..me }) })
//@@ end
//@@ fn ConnectTokenBuilder::generate
//@@ rename: , Error > => , SerializationError> ;; utils :: now => now ;; crypto :: generate_key => generate_key ;; XChaCha20Poly1305 :: generate_nonce ( & mut OsRng ) => vx_nonce() ;; * NETCODE_VERSION => *vx_version()
//@@ spec:
//@@ | // the public part says what was asked for, the private part agrees with it and is sealed to it
//@@ | requires match self.internal_server_addresses { Some(a) => a.wf(), None => true }
//@@ | ensures r is Ok ==> ({ let t = r->Ok_0; let l = self.public_server_addresses.list(); let public = if l.len() <= 32 { l } else { l.take(32) };
//@@ |   &&& t.wf() && t.protocol_id == self.protocol_id && t.timeout_seconds == self.timeout_seconds && t.server_addresses.addrs@ == public
//@@ |   &&& t.expire_timestamp == (if self.expire_seconds < 0 { u64::MAX } else { (t.create_timestamp + self.expire_seconds) as u64 })
//@@ |   &&& t.private_data@ == seal(Nonce::X(t.nonce@), aad(t.protocol_id, t.expire_timestamp), self.private_key@, padded(enc_priv(Priv { id: self.client_id, timeout: self.timeout_seconds,
//@@ |         addrs: match self.internal_server_addresses { Some(a) => a.m(), None => mas(public) }, c2s: t.client_to_server_key@, s2c: t.server_to_client_key@, user: self.user_data@ }), 1008)) })
//@@ end
}
#[verifier::external_body]
pub fn vx_timeout() -> i32 { unimplemented!() }
impl ConnectToken {
    pub open spec fn m(&self) -> Tok { Tok { protocol: self.protocol_id, create: self.create_timestamp, expire: self.expire_timestamp, nonce: self.nonce@, sealed: self.private_data@, timeout: self.timeout_seconds, addrs: self.server_addresses.m(), c2s: self.client_to_server_key@, s2c: self.server_to_client_key@ } }
    pub open spec fn wf(&self) -> bool { self.version_info@ == version() && version().len() == 13 && self.server_addresses.wf() && self.create_timestamp <= self.expire_timestamp }
//@@ fn Bytes for ConnectToken::write_to
//@@ rename: & mut impl WriteInteger => &mut Writer ;; Self :: Error > => SerializationError> ;; write_all => put
//@@ spec: requires self.wf() ensures r is Ok, final(buf)@ == old(buf)@ + enc_tok(self.m())
//@@ start: let ghost b0 = buf@;
//@@ before "Ok\(\(\)\)": proof { assert(buf@ =~= b0 + enc_tok(self.m())); }
//@@ end
//@@ fn Bytes for ConnectToken::read_from
//@@ rename: & mut impl ReadInteger => &mut Reader ;; Self :: Error > => SerializationError> ;; [ 0 ; NETCODE_VERSION . len ( ) ] => [0; 13] ;; if version_info != * NETCODE_VERSION => if vx_differ(&version_info, vx_version()) ;; InvalidTokenError :: InvalidVersion => SerializationError::InvalidValue ;; InvalidTokenError :: InvalidTimestamp => SerializationError::InvalidValue ;; [ 0 ; size_of :: < XNonce > ( ) ] => [0; 24] ;; XNonce :: from_slice ( & nonce ) . to_owned ( ) => nonce ;; ConnectTokenPrivate :: SIZE => 1024 ;; PRIVATE_KEY_BYTES => 32
//@@ spec:
//@@ | // any bytes: the token that is there, or an error
//@@ | ensures match dec_tok(old(reader)@) { Some((v, t)) => r is Ok && r->Ok_0.wf() && r->Ok_0.m() == v && final(reader)@ == t, None => r is Err }
//@@ end
//@@ fn ConnectToken::try_into_bytes
//@@ rename: CONNECT_TOKEN_BYTES => 2048 ;; io :: Error > => SerializationError> ;; io :: Cursor :: new ( & mut buf [ .. ] ) => vx_cursor() ;; . map_err ( | e | io :: Error :: other ( format ! ( "failed to write token to buffer: {e}" ) ) ) => ;; Ok ( buf ) => { vx_flush(&mut buf, &cursor); Ok(buf) }
//@@ spec: requires self.wf() ensures r is Ok, r->Ok_0@ == padded(enc_tok(self.m()), 2048)
//@@ start: proof { len_tok(self.m()); }
//@@ before "\{ vx_flush": proof { assert(Seq::<u8>::empty() + enc_tok(self.m()) =~= enc_tok(self.m())); assert(buf@ =~= zeros(2048)); assert(enc_tok(self.m()) + zeros(2048).skip(enc_tok(self.m()).len() as int) =~= padded(enc_tok(self.m()), 2048)); }
//@@ end
//@@ fn ConnectToken::try_from_bytes
//@@ rename: io :: Cursor :: new ( bytes ) => vx_reader(bytes) ;; InvalidTokenError => SerializationError
//@@ spec: ensures match dec_tok(bytes@) { Some((v, _)) => r is Ok && r->Ok_0.wf() && r->Ok_0.m() == v, None => r is Err }
//@@ end
}
/// a token handed over as bytes arrives as it was issued
pub proof fn public_round_trip(v: Tok) requires wft(v), v.addrs.len() >= 1, version().len() == 13
    ensures padded(enc_tok(v), 2048).len() == 2048, match dec_tok(padded(enc_tok(v), 2048)) { Some((w, _)) => w == v, None => false }
{ exact_tok(v, zeros(2048 - enc_tok(v).len())); }
/// a private part that opens was sealed with this very protocol, expiry, nonce and key
pub proof fn opens_only(c: Seq<u8>, protocol: u64, expire: u64, nonce: Seq<u8>, key: Seq<u8>)
    ensures match open(Nonce::X(nonce), aad(protocol, expire), key, c) { Some(p) => c == seal(Nonce::X(nonce), aad(protocol, expire), key, p), None => true }
{ aead_only(Nonce::X(nonce), aad(protocol, expire), key, c); }
fn main() {}
}
