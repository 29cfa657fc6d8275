// Stand-in for alloc's VecDeque: assumed contracts of the container (the view is a sequence).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { m: std::collections::VecDeque<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r { Some(x) => i < old(self)@.len() && *x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(x)), None => i >= old(self)@.len() && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn front_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.update(0, *final(x)), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn back_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && *x == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    /// the returned iterator is dropped at once
    #[verifier::external_body]
    pub fn drain(&mut self, r: core::ops::Range<usize>)
        requires r.start <= r.end <= old(self)@.len()
        ensures final(self)@ == old(self)@.take(r.start as int) + old(self)@.skip(r.end as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, x: T) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set(&mut self, i: usize, x: T) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { unimplemented!() }
    /// self[i]
    #[verifier::external_body]
    pub fn vx_at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
}
