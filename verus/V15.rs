// V15: the wire form of peer ids and network targets (C23, S02).
// Real code: crates/core/core/src/id.rs, crates/connection/connection/src/network_target.rs.
use vstd::prelude::*;
verus! {
//@@ include io.inc
/// a fixed-width number
pub struct Seg(pub u16);
impl ToBytes for Seg {
    type M = u16;
    open spec fn m(&self) -> u16 { self.0 }
    open spec fn wf(v: u16) -> bool { true }
    open spec fn enc(v: u16) -> Seq<u8> { be2(v) }
    open spec fn dec(s: Seq<u8>) -> Option<(u16, Seq<u8>)> { d2(s) }
    proof fn exact(v: u16, rest: Seq<u8>) { be(); assert((be2(v) + rest).take(2) =~= be2(v)); assert((be2(v) + rest).skip(2) =~= rest); }
    proof fn cut(v: u16, k: int) { be(); }
    fn bytes_len(&self) -> usize { proof { be(); } 2 }
    fn to_bytes(&self, buffer: &mut Writer) -> Result<(), SerializationError> { buffer.write_u16(self.0) }
    fn from_bytes(buffer: &mut Reader) -> Result<Self, SerializationError> { Ok(Seg(buffer.read_u16()?)) }
}
// ---------------------------------------------------------------- core::net
#[derive(Clone, Copy)]
pub struct Ipv4Addr { pub a: [u8; 4] }
#[derive(Clone, Copy)]
pub struct Ipv6Addr { pub a: [u16; 8] }
pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
#[derive(Clone, Copy)]
pub struct SocketAddrV4 { pub i: Ipv4Addr, pub p: u16 }
#[derive(Clone, Copy)]
pub struct SocketAddrV6 { pub i: Ipv6Addr, pub p: u16, pub flowinfo: u32, pub scope_id: u32 }
#[derive(Clone, Copy)]
pub enum SocketAddr { V4(SocketAddrV4), V6(SocketAddrV6) }
impl Ipv4Addr {
    pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures r.a@ == seq![a, b, c, d] { let r = Ipv4Addr { a: [a, b, c, d] }; proof { assert(r.a@ =~= seq![a, b, c, d]); } r }
    #[verifier::external_body]
    pub fn octets(&self) -> (r: &Vec<u8>) ensures r@ == self.a@ { unimplemented!() }
}
impl Ipv6Addr {
    pub fn from(s: [u16; 8]) -> (r: Ipv6Addr) ensures r.a@ == s@ { Ipv6Addr { a: s } }
    #[verifier::external_body]
    pub fn segments(&self) -> (r: &Vec<u16>) ensures r@ == self.a@ { unimplemented!() }
}
impl SocketAddrV4 {
    pub fn ip(&self) -> (r: &Ipv4Addr) ensures *r == self.i { &self.i }
    pub fn port(&self) -> (r: u16) ensures r == self.p { self.p }
}
impl SocketAddrV6 {
    pub fn ip(&self) -> (r: &Ipv6Addr) ensures *r == self.i { &self.i }
    pub fn port(&self) -> (r: u16) ensures r == self.p { self.p }
}
impl SocketAddr {
    pub fn new(ip: IpAddr, port: u16) -> (r: SocketAddr)
        ensures r == (match ip { IpAddr::V4(i) => SocketAddr::V4(SocketAddrV4 { i, p: port }), IpAddr::V6(i) => SocketAddr::V6(SocketAddrV6 { i, p: port, flowinfo: 0, scope_id: 0 }) })
    { match ip { IpAddr::V4(i) => SocketAddr::V4(SocketAddrV4 { i, p: port }), IpAddr::V6(i) => SocketAddr::V6(SocketAddrV6 { i, p: port, flowinfo: 0, scope_id: 0 }) } }
}
// ---------------------------------------------------------------- peers
//@@ source crates/core/core/src/id.rs
#[derive(Clone, Copy)]
//@@ item enum PeerId
/// a peer, but for the flow label and scope of a raw IPv6 address
pub enum Peer { Entity(u64), V4(Seq<u8>, u16), V6(Seq<u16>, u16), Netcode(u64), Steam(u64), Local(u64), Server }
pub open spec fn d_num(s: Seq<u8>, v: spec_fn(u64) -> Peer) -> Option<(Peer, Seq<u8>)> { match d8(s) { None => None, Some((n, t)) => Some((v(n), t)) } }
pub open spec fn d_v4(s: Seq<u8>) -> Option<(Peer, Seq<u8>)> { if s.len() >= 4 { match d2(s.skip(4)) { None => None, Some((p, t)) => Some((Peer::V4(s.take(4), p), t)) } } else { None } }
pub open spec fn d_v6(s: Seq<u8>) -> Option<(Peer, Seq<u8>)> { match dec_list::<Seg>(s, 8) { None => None, Some((l, t)) => match d2(t) { None => None, Some((p, u)) => Some((Peer::V6(l, p), u)) } } }
pub open spec fn body(v: Peer) -> Seq<u8> {
    match v { Peer::Entity(n) => be8(n), Peer::V4(o, p) => o + be2(p), Peer::V6(l, p) => enc_list::<Seg>(l) + be2(p), Peer::Netcode(n) => be8(n), Peer::Steam(n) => be8(n), Peer::Local(n) => be8(n), Peer::Server => Seq::empty() }
}
pub open spec fn tag(v: Peer) -> u8 { match v { Peer::Entity(_) => 0, Peer::V4(_, _) => 1, Peer::V6(_, _) => 2, Peer::Netcode(_) => 3, Peer::Steam(_) => 4, Peer::Local(_) => 5, Peer::Server => 6 } }
pub open spec fn d_body(b: u8, s: Seq<u8>) -> Option<(Peer, Seq<u8>)> {
    if b == 0 { d_num(s, |n: u64| Peer::Entity(n)) } else if b == 1 { d_v4(s) } else if b == 2 { d_v6(s) } else if b == 3 { d_num(s, |n: u64| Peer::Netcode(n)) } else if b == 4 { d_num(s, |n: u64| Peer::Steam(n)) }
    else if b == 5 { d_num(s, |n: u64| Peer::Local(n)) } else if b == 6 { Some((Peer::Server, s)) } else { None }
}
pub proof fn num(n: u64, rest: Seq<u8>) ensures d8(be8(n) + rest) == Some((n, rest)), be8(n).len() == 8 { be(); assert((be8(n) + rest).take(8) =~= be8(n)); assert((be8(n) + rest).skip(8) =~= rest); }
pub proof fn list_len(l: Seq<u16>) ensures enc_list::<Seg>(l).len() == 2 * l.len() decreases l.len() { be(); if l.len() > 0 { list_len(l.skip(1)); } }
pub proof fn list_back(l: Seq<u16>, n: u16) ensures enc_list::<Seg>(l.push(n)) == enc_list::<Seg>(l) + be2(n) decreases l.len()
{
    assert(l.push(n)[0] == (if l.len() == 0 { n } else { l[0] }));
    if l.len() == 0 { assert(l.push(n).skip(1) =~= Seq::empty()); assert(enc_list::<Seg>(l.push(n).skip(1)) =~= Seq::empty()); assert(enc_list::<Seg>(l) =~= Seq::empty()); assert(enc_list::<Seg>(l.push(n)) =~= enc_list::<Seg>(l) + be2(n)); }
    else { list_back(l.skip(1), n); assert(l.push(n).skip(1) =~= l.skip(1).push(n)); assert(enc_list::<Seg>(l.push(n)) =~= enc_list::<Seg>(l) + be2(n)); }
}
impl ToBytes for PeerId {
    type M = Peer;
    open spec fn m(&self) -> Peer {
        match *self { PeerId::Entity(n) => Peer::Entity(n), PeerId::Raw(SocketAddr::V4(a)) => Peer::V4(a.i.a@, a.p), PeerId::Raw(SocketAddr::V6(a)) => Peer::V6(a.i.a@, a.p),
            PeerId::Netcode(n) => Peer::Netcode(n), PeerId::Steam(n) => Peer::Steam(n), PeerId::Local(n) => Peer::Local(n), PeerId::Server => Peer::Server }
    }
    open spec fn wf(v: Peer) -> bool { match v { Peer::V4(o, _) => o.len() == 4, Peer::V6(l, _) => l.len() == 8, _ => true } }
    open spec fn enc(v: Peer) -> Seq<u8> { seq![tag(v)] + body(v) }
    open spec fn dec(s: Seq<u8>) -> Option<(Peer, Seq<u8>)> { match d1(s) { None => None, Some((b, t)) => d_body(b, t) } }
    proof fn exact(v: Peer, rest: Seq<u8>) {
        let b = body(v);
        assert((Self::enc(v) + rest).skip(1) =~= b + rest);
        match v {
            Peer::Entity(n) => { num(n, rest); } Peer::Netcode(n) => { num(n, rest); } Peer::Steam(n) => { num(n, rest); } Peer::Local(n) => { num(n, rest); }
            Peer::V4(o, p) => { be(); assert((b + rest).take(4) =~= o); assert((b + rest).skip(4) =~= be2(p) + rest); Seg::exact(p, rest); }
            Peer::V6(l, p) => { assert(b + rest =~= enc_list::<Seg>(l) + (be2(p) + rest)); exact_list::<Seg>(l, be2(p) + rest); Seg::exact(p, rest); }
            Peer::Server => { assert(b + rest =~= rest); }
        }
    }
    proof fn cut(v: Peer, k: int) {
        if k > 0 {
            let b = body(v);
            be();
            assert(Self::enc(v).take(k).skip(1) =~= b.take(k - 1));
            if let Peer::V6(l, p) = v {
                let e = enc_list::<Seg>(l);
                if k - 1 < e.len() { assert(b.take(k - 1) =~= e.take(k - 1)); cut_list::<Seg>(l, k - 1); }
                else { assert(b.take(k - 1) =~= e + be2(p).take(k - 1 - e.len())); exact_list::<Seg>(l, be2(p).take(k - 1 - e.len())); }
            }
        }
    }
//@@ fn ToBytes for PeerId::bytes_len
//@@ start: proof { be(); if let Peer::V6(l, p) = self.m() { list_len(l); } }
//@@ end
//@@ fn ToBytes for PeerId::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ start: let ghost b0 = buffer@; proof { be(); }
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant b0 == old(buffer)@, buffer@ == b0 + (seq![1u8] + v4.i.a@.take(it.index() as int)), it.seq() == v4.i.a@.map_values(|x: u8| &x)
//@@ loopend 0: proof { assert(v4.i.a@.take(it.index() + 1) =~= v4.i.a@.take(it.index()).push(*byte)); assert(buffer@ =~= b0 + (seq![1u8] + v4.i.a@.take(it.index() + 1))); }
//@@ afterloop 0: let ghost b1 = buffer@; proof { assert(v4.i.a@.take(4) =~= v4.i.a@); assert(b1 + be2(v4.p) =~= b0 + Self::enc(self.m())); }
//@@ iter 1: jt
//@@ loop 1:
//@@ | invariant b0 == old(buffer)@, buffer@ == b0 + (seq![2u8] + enc_list::<Seg>(v6.i.a@.take(jt.index() as int))), jt.seq() == v6.i.a@.map_values(|x: u16| &x)
//@@ loopend 1: proof { list_back(v6.i.a@.take(jt.index() as int), *segment); assert(v6.i.a@.take(jt.index() + 1) =~= v6.i.a@.take(jt.index() as int).push(*segment)); assert(buffer@ =~= b0 + (seq![2u8] + enc_list::<Seg>(v6.i.a@.take(jt.index() + 1)))); }
//@@ afterloop 1: let ghost b1 = buffer@; proof { assert(v6.i.a@.take(8) =~= v6.i.a@); assert(b1 + be2(v6.p) =~= b0 + Self::enc(self.m())); }
//@@ before "Ok(())": proof { if !(self is Raw) { assert(buffer@ =~= b0 + Self::enc(self.m())); } }
//@@ end
//@@ fn ToBytes for PeerId::from_bytes
//@@ rename: core :: net :: IpAddr => IpAddr ;; core :: net :: Ipv4Addr => Ipv4Addr ;; core :: net :: Ipv6Addr => Ipv6Addr ;; & mut segments => 0..8usize ;; * segment = => segments[segment] =
//@@ start: let ghost s0 = buffer@;
//@@ before "let d =": proof { assert(s0.skip(1).skip(1).skip(1).skip(1) =~= s0.skip(4)); }
//@@ after "let d =": let ghost q4 = buffer@; proof { assert(s0.skip(1).take(4) =~= seq![a, b, c, d]); assert(q4 =~= s0.skip(1).skip(4)); }
//@@ before "for segment": let ghost t0 = buffer@; proof { assert(segments@.take(0) =~= Seq::empty()); if let Some((l, u)) = dec_list::<Seg>(t0, 8) { assert(Seq::<u16>::empty() + l =~= l); } }
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant s0 == old(buffer)@, s0.len() > 0, s0[0] == 2, t0 == s0.skip(1), dec_list::<Seg>(t0, 8) == vx_prepend(segments@.take(it.index() as int), dec_list::<Seg>(buffer@, (8 - it.index()) as nat)), 0 <= it.index() <= 8
//@@ loopbody 0: let ghost v0 = segments@; proof { prepend_step::<Seg>(v0.take(it.index() as int), buffer@, (8 - it.index()) as nat); }
//@@ loopend 0: proof { assert(segments@.take(it.index() + 1) =~= v0.take(it.index() as int).push(segments@[it.index() as int])); }
//@@ afterloop 0: proof { assert(segments@.take(8) =~= segments@); assert(segments@ + Seq::<u16>::empty() =~= segments@); }
//@@ end
}
// ---------------------------------------------------------------- targets
/// SmallVec: its codec is proved in V14 for any element codec
pub struct TargetList<X> { pub v: Vec<X> }
impl<X> View for TargetList<X> { type V = Seq<X>; open spec fn view(&self) -> Seq<X> { self.v@ } }
impl<A: ToBytes> ToBytes for TargetList<A> {
    type M = Seq<A::M>;
    open spec fn m(&self) -> Seq<A::M> { ms(self@) }
    open spec fn wf(v: Seq<A::M>) -> bool { wf_list::<A>(v) && v.len() <= VMAX }
    open spec fn enc(v: Seq<A::M>) -> Seq<u8> { framed::<A>(v) }
    open spec fn dec(s: Seq<u8>) -> Option<(Seq<A::M>, Seq<u8>)> { dec_framed::<A>(s) }
    proof fn exact(v: Seq<A::M>, rest: Seq<u8>) { exact_framed::<A>(v, rest); }
    proof fn cut(v: Seq<A::M>, k: int) { cut_framed::<A>(v, k); }
    #[verifier::external_body]
    fn bytes_len(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn to_bytes(&self, buffer: &mut Writer) -> Result<(), SerializationError> { unimplemented!() }
    #[verifier::external_body]
    fn from_bytes(buffer: &mut Reader) -> Result<Self, SerializationError> { unimplemented!() }
}
//@@ source crates/connection/connection/src/network_target.rs
//@@ item enum Target
/// a target as written: which form, and whom it names
pub enum Named { None, AllExceptSingle(Peer), AllExcept(Seq<Peer>), All, Only(Seq<Peer>), Single(Peer) }
pub open spec fn t_tag(v: Named) -> u8 { match v { Named::None => 0, Named::AllExceptSingle(_) => 1, Named::AllExcept(_) => 2, Named::All => 3, Named::Only(_) => 4, Named::Single(_) => 5 } }
pub open spec fn t_body(v: Named) -> Seq<u8> { match v { Named::AllExceptSingle(p) => PeerId::enc(p), Named::Single(p) => PeerId::enc(p), Named::AllExcept(l) => framed::<PeerId>(l), Named::Only(l) => framed::<PeerId>(l), _ => Seq::empty() } }
pub open spec fn t_dec(b: u8, s: Seq<u8>) -> Option<(Named, Seq<u8>)> {
    if b == 0 { Some((Named::None, s)) } else if b == 3 { Some((Named::All, s)) }
    else if b == 1 { match PeerId::dec(s) { None => None, Some((p, t)) => Some((Named::AllExceptSingle(p), t)) } }
    else if b == 5 { match PeerId::dec(s) { None => None, Some((p, t)) => Some((Named::Single(p), t)) } }
    else if b == 2 { match dec_framed::<PeerId>(s) { None => None, Some((l, t)) => Some((Named::AllExcept(l), t)) } }
    else if b == 4 { match dec_framed::<PeerId>(s) { None => None, Some((l, t)) => Some((Named::Only(l), t)) } }
    else { None }
}
impl ToBytes for Target<PeerId> {
    type M = Named;
    open spec fn m(&self) -> Named {
        match *self { Target::None => Named::None, Target::All => Named::All, Target::AllExceptSingle(p) => Named::AllExceptSingle(p.m()), Target::Single(p) => Named::Single(p.m()), Target::AllExcept(l) => Named::AllExcept(ms(l@)), Target::Only(l) => Named::Only(ms(l@)) }
    }
    open spec fn wf(v: Named) -> bool { match v { Named::AllExceptSingle(p) => PeerId::wf(p), Named::Single(p) => PeerId::wf(p), Named::AllExcept(l) => TargetList::<PeerId>::wf(l), Named::Only(l) => TargetList::<PeerId>::wf(l), _ => true } }
    open spec fn enc(v: Named) -> Seq<u8> { seq![t_tag(v)] + t_body(v) }
    open spec fn dec(s: Seq<u8>) -> Option<(Named, Seq<u8>)> { match d1(s) { None => None, Some((b, t)) => t_dec(b, t) } }
    proof fn exact(v: Named, rest: Seq<u8>) {
        assert((Self::enc(v) + rest).skip(1) =~= t_body(v) + rest);
        match v {
            Named::AllExceptSingle(p) => { PeerId::exact(p, rest); } Named::Single(p) => { PeerId::exact(p, rest); }
            Named::AllExcept(l) => { exact_framed::<PeerId>(l, rest); } Named::Only(l) => { exact_framed::<PeerId>(l, rest); }
            _ => { assert(t_body(v) + rest =~= rest); }
        }
    }
    proof fn cut(v: Named, k: int) {
        if k > 0 {
            assert(Self::enc(v).take(k).skip(1) =~= t_body(v).take(k - 1));
            match v {
                Named::AllExceptSingle(p) => { PeerId::cut(p, k - 1); } Named::Single(p) => { PeerId::cut(p, k - 1); }
                Named::AllExcept(l) => { cut_framed::<PeerId>(l, k - 1); } Named::Only(l) => { cut_framed::<PeerId>(l, k - 1); }
                _ => {}
            }
        }
    }
//@@ fn ToBytes for Target<PeerId>::bytes_len
//@@ end
//@@ fn ToBytes for Target<PeerId>::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ start: let ghost b0 = buffer@;
//@@ before "Ok(())": proof { assert(buffer@ =~= b0 + Self::enc(self.m())); }
//@@ end
//@@ fn ToBytes for Target<PeerId>::from_bytes
//@@ end
}
}
fn main() {}
