// What stands behind the names of vp.rs when the extracted text is run (tool/normcheck.py): the library calls that the
// normalisations have replaced. Plain Rust, not part of the verified text.
pub use serde::{Deserialize, Deserializer, Serialize, Serializer};
pub use priority_queue::PriorityQueue;
use std::cmp::Ordering;
use std::collections::BTreeSet;

#[derive(Clone, Copy)]
pub struct Ghost<T>(pub T);
pub fn vp_assert(c: bool, Ghost(_): Ghost<bool>) { assert!(c) }
pub fn vp_debug_assert(c: bool, Ghost(_): Ghost<bool>) { debug_assert!(c) }
pub fn vp_panic<T>(Ghost(_): Ghost<bool>) -> T { panic!() }
pub trait VpNum: Sized {
    fn f32_(self) -> f32;
    fn f64_(self) -> f64;
    fn usize_(self) -> usize;
}
macro_rules! num { ($($t:ty)*) => { $(impl VpNum for $t {
    fn f32_(self) -> f32 { self as f32 }
    fn f64_(self) -> f64 { self as f64 }
    fn usize_(self) -> usize { self as usize }
})* } }
num!(f32 f64 usize u64 u32 u16 u8 isize i64 i32 i16 i8);
pub fn vp_to_f32<T: VpNum>(x: T) -> f32 { x.f32_() }
pub fn vp_to_f64<T: VpNum>(x: T) -> f64 { x.f64_() }
pub fn vp_f32_to_usize<T: VpNum>(x: T) -> usize { x.usize_() }
pub trait VpIntoVec: Sized { type Out; fn vp_into_vec_(self) -> Self::Out; }
impl<T> VpIntoVec for Vec<T> { type Out = Vec<T>; fn vp_into_vec_(self) -> Vec<T> { self } }
impl<T: Ord> VpIntoVec for BTreeSet<T> { type Out = Vec<T>; fn vp_into_vec_(self) -> Vec<T> { self.into_iter().collect() } }
// items that are moved out one by one (vp_own in exec_io.rs)
impl<T> VpIntoVec for std::mem::ManuallyDrop<T> { type Out = Self; fn vp_into_vec_(self) -> Self { self } }
pub fn vp_into_vec<C: VpIntoVec>(c: C) -> C::Out { c.vp_into_vec_() }
pub fn vp_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F) { v.retain(|x| f(x)) }
pub fn vp_vec_like<T>(_: &Vec<T>) -> Vec<T> { Vec::new() }
pub fn vp_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F) { v.sort_unstable_by(|a, b| f(a, b)) }
pub trait VpMinMax: Ord + Sized {
    fn vp_max(self, b: Self) -> Self { Ord::max(self, b) }
    fn vp_min(self, b: Self) -> Self { Ord::min(self, b) }
}
impl<T: Ord> VpMinMax for T {}
