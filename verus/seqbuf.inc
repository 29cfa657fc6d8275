/// a key of a sequence buffer: all that is used of it is its remainder
pub trait WrappedId: Sized {
    spec fn id(&self) -> int;
    fn rem(&self, total: usize) -> (r: usize) requires total > 0 ensures r < total, r == self.id() % (total as int);
}
/// the wrapping ids of the crate (`wrapping_id!`): their real `rem`
//@@ source crates/core/utils/src/wrapping_id.rs
//@@ macro wrapping_id $struct_name=PingId
impl WrappedId for PingId {
    open spec fn id(&self) -> int { self.0 as int }
//@@ fn WrappedId for PingId::rem
//@@ end
}
//@@ source crates/core/utils/src/sequence_buffer.rs
use core::marker::PhantomData;
//@@ item struct SequenceBuffer
pub open spec fn slot<K: WrappedId>(k: K, n: int) -> int { k.id() % n }
#[verifier::external_body]
pub fn vx_none_array<T, const N: usize>() -> (r: [Option<T>; N]) ensures forall|i: int| 0 <= i < N ==> #[trigger] r@[i] is None { unimplemented!() }
impl<K: WrappedId, T, const N: usize> SequenceBuffer<K, T, N> {
//@@ fn SequenceBuffer::new
//@@ rename: core :: array :: from_fn ( | _ | None ) => vx_none_array()
//@@ spec: ensures forall|i: int| 0 <= i < N ==> #[trigger] r.buffer@[i] is None
//@@ end
//@@ fn SequenceBuffer::index
//@@ spec: requires N > 0 ensures r < N, r == slot(*key, N as int)
//@@ end
//@@ fn SequenceBuffer::push
//@@ spec: requires N > 0 ensures final(self).buffer@ == old(self).buffer@.update(slot(*key, N as int), Some(value))
//@@ end
//@@ fn SequenceBuffer::get
//@@ spec: requires N > 0 ensures match r { Some(x) => self.buffer@[slot(*key, N as int)] == Some(*x), None => self.buffer@[slot(*key, N as int)] is None }
//@@ end
//@@ fn SequenceBuffer::remove
//@@ spec: requires N > 0 ensures r == old(self).buffer@[slot(*key, N as int)], final(self).buffer@ == old(self).buffer@.update(slot(*key, N as int), None)
//@@ end
//@@ fn SequenceBuffer::clear
//@@ spec: ensures forall|i: int| 0 <= i < N ==> #[trigger] final(self).buffer@[i] is None
//@@ loop 0:
//@@ | invariant forall|j: int| 0 <= j < i ==> #[trigger] self.buffer@[j] is None
//@@ end
}
