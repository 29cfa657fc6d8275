//@@ source crates/transport/serde/src/lib.rs
impl ToBytes for u8 {
    type M = u8;
    open spec fn m(&self) -> u8 { *self }
    open spec fn wf(v: u8) -> bool { true }
    open spec fn enc(v: u8) -> Seq<u8> { seq![v] }
    open spec fn dec(s: Seq<u8>) -> Option<(u8, Seq<u8>)> { d1(s) }
    proof fn exact(v: u8, rest: Seq<u8>) { assert((seq![v] + rest).skip(1) =~= rest); }
    proof fn cut(v: u8, k: int) {}
//@@ fn ToBytes for u8::bytes_len
//@@ end
//@@ fn ToBytes for u8::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ end
//@@ fn ToBytes for u8::from_bytes
//@@ end
}
impl ToBytes for u16 {
    type M = u16;
    open spec fn m(&self) -> u16 { *self }
    open spec fn wf(v: u16) -> bool { true }
    open spec fn enc(v: u16) -> Seq<u8> { venc(v as u64) }
    open spec fn dec(s: Seq<u8>) -> Option<(u16, Seq<u8>)> { match vdec(s) { Some((n, t)) => if n <= u16::MAX { Some((n as u16, t)) } else { None }, None => None } }
    proof fn exact(v: u16, rest: Seq<u8>) { v_exact(v as u64, rest); }
    proof fn cut(v: u16, k: int) { v_cut(v as u64, k); }
//@@ fn ToBytes for u16::bytes_len
//@@ start: proof { v_exact(*self as u64, Seq::empty()); }
//@@ end
//@@ fn ToBytes for u16::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ end
//@@ fn ToBytes for u16::from_bytes
//@@ rename: u16 :: try_from => vx_u16
//@@ closures: map_err
//@@ end
}
pub fn vx_u16(n: u64) -> (r: Result<u16, ()>) ensures r == (if n <= u16::MAX { Ok::<u16, ()>(n as u16) } else { Err::<u16, ()>(()) }) { if n <= 65535 { Ok(n as u16) } else { Err(()) } }
impl<A: ToBytes> ToBytes for Option<A> {
    type M = Option<A::M>;
    open spec fn m(&self) -> Option<A::M> { match *self { Some(a) => Some(a.m()), None => None } }
    open spec fn wf(v: Option<A::M>) -> bool { match v { Some(a) => A::wf(a), None => true } }
    open spec fn enc(v: Option<A::M>) -> Seq<u8> { match v { Some(a) => seq![1u8] + A::enc(a), None => seq![0u8] } }
    open spec fn dec(s: Seq<u8>) -> Option<(Option<A::M>, Seq<u8>)> { match d1(s) { None => None, Some((b, t)) => if b != 0 { match A::dec(t) { None => None, Some((a, u)) => Some((Some(a), u)) } } else { Some((None, t)) } } }
    proof fn exact(v: Option<A::M>, rest: Seq<u8>) {
        match v { Some(a) => { assert((seq![1u8] + A::enc(a) + rest).skip(1) =~= A::enc(a) + rest); A::exact(a, rest); }, None => { assert((seq![0u8] + rest).skip(1) =~= rest); } }
    }
    proof fn cut(v: Option<A::M>, k: int) {
        if v is Some && k > 0 { let a = v->0; assert((seq![1u8] + A::enc(a)).take(k).skip(1) =~= A::enc(a).take(k - 1)); A::cut(a, k - 1); }
    }
//@@ fn ToBytes for Option<M>::bytes_len
//@@ end
//@@ fn ToBytes for Option<M>::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ end
//@@ fn ToBytes for Option<M>::from_bytes
//@@ rename: M :: from_bytes => A::from_bytes
//@@ end
}
impl ToBytes for Bytes {
    type M = Seq<u8>;
    open spec fn m(&self) -> Seq<u8> { self@ }
    open spec fn wf(v: Seq<u8>) -> bool { v.len() <= VMAX }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { venc(v.len() as u64) + v }
    open spec fn dec(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { match vdec(s) { None => None, Some((n, t)) => if n <= t.len() { Some((t.take(n as int), t.skip(n as int))) } else { None } } }
    proof fn exact(v: Seq<u8>, rest: Seq<u8>) {
        let n = v.len() as u64;
        assert(venc(n) + v + rest =~= venc(n) + (v + rest)); v_exact(n, v + rest);
        assert((v + rest).take(n as int) =~= v); assert((v + rest).skip(n as int) =~= rest);
    }
    proof fn cut(v: Seq<u8>, k: int) {
        let n = v.len() as u64; let l = venc(n).len(); let p = (venc(n) + v).take(k);
        if k < l { assert(p =~= venc(n).take(k)); v_cut(n, k); } else { assert(p =~= venc(n) + v.take(k - l)); v_exact(n, v.take(k - l)); }
    }
//@@ fn ToBytes for Bytes::bytes_len
//@@ start: proof { v_exact(self@.len() as u64, Seq::empty()); }
//@@ end
//@@ fn ToBytes for Bytes::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ start: let ghost b0 = buffer@; proof { assert(b0 + (venc(self@.len() as u64) + self@) =~= b0 + venc(self@.len() as u64) + self@); }
//@@ end
//@@ fn ToBytes for Bytes::from_bytes
//@@ start: proof { v_sound(buffer@); }
//@@ end
}
