// hooks
use super::*;
impl<T: Eq + Hash + Copy> Target<T> {
    pub fn v_intersection(&mut self, t: &Target<T>) { self.intersection(t) }
    pub fn v_union(&mut self, t: &Target<T>) { self.union(t) }
    pub fn v_exclude(&mut self, t: &Target<T>) { self.exclude(t) }
    pub fn v_inverse(&mut self) { self.inverse() }
}
