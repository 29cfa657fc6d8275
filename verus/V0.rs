use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include msgid.inc
}
fn main() {}
