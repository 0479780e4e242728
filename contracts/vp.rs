// Support for the generated file: stand-ins for panicking macros, assumed contracts on std and dependencies.
use vstd::prelude::*;
use vstd::multiset::*;
use std::collections::BinaryHeap;
use std::collections::BTreeSet;
use std::cmp::Ordering;
use vstd::std_specs::cmp::OrdSpec;
use vstd::std_specs::ops::{AddSpec, SubSpec, MulSpec, DivSpec};
verus! {

global size_of usize == 8;

// vacuity probes: assert(!vp_probe(k)) must be refuted wherever it is put
pub uninterp spec fn vp_probe(k: int) -> bool;

// assert!(c): when the caller claims that the call must not panic (ok), c has to hold; after it c holds
#[verifier::external_body]
pub fn vp_assert(c: bool, Ghost(ok): Ghost<bool>)
    requires ok ==> c,
    ensures c,
{ assert!(c) }

// debug_assert!(c): checked in some builds only, so nothing is known after it
#[verifier::external_body]
pub fn vp_debug_assert(c: bool, Ghost(ok): Ghost<bool>)
    requires ok ==> c,
{ debug_assert!(c) }

// panic!(): must be unreachable when ok; execution never continues after it
#[verifier::external_body]
pub fn vp_panic<T>(Ghost(ok): Ghost<bool>) -> (res: T)
    requires !ok,
    ensures false,
{ panic!() }

// floating point values feed only heuristics: operations never panic, casts give arbitrary values
#[verifier::external_body]
pub fn vp_to_f32<T>(x: T) -> (res: f32) { unimplemented!() }
#[verifier::external_body]
pub fn vp_to_f64<T>(x: T) -> (res: f64) { unimplemented!() }
#[verifier::external_body]
pub fn vp_f32_to_usize<T>(x: T) -> (res: usize) { unimplemented!() }
pub broadcast axiom fn axiom_f32_add(a: f32, b: f32)
    ensures #[trigger] a.add_req(b);
pub broadcast axiom fn axiom_f32_sub(a: f32, b: f32)
    ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn axiom_f32_mul(a: f32, b: f32)
    ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn axiom_f32_div(a: f32, b: f32)
    ensures #[trigger] a.div_req(b);
pub broadcast group vp_floats { axiom_f32_add, axiom_f32_sub, axiom_f32_mul, axiom_f32_div }

// a vector cannot be longer than isize::MAX (allocation limit; elements are not zero-sized)
#[verifier::external_body]
pub proof fn axiom_vec_len<T>(v: &Vec<T>)
    ensures v.len() <= isize::MAX,
{}

// ------------------------------------------------------------------ by-value iteration
pub trait VpIntoVec<T>: Sized {
    spec fn vp_seq_ok(&self, s: Seq<T>) -> bool;
    fn vp_into_vec_(self) -> (r: Vec<T>)
        ensures self.vp_seq_ok(r@);
}
impl<T> VpIntoVec<T> for Vec<T> {
    open spec fn vp_seq_ok(&self, s: Seq<T>) -> bool { s == self@ }
    fn vp_into_vec_(self) -> (r: Vec<T>) { self }
}
impl VpIntoVec<usize> for BTreeSet<usize> {
    open spec fn vp_seq_ok(&self, s: Seq<usize>) -> bool {
        &&& s.no_duplicates()
        &&& forall|x: usize| self@.contains(x) <==> #[trigger] s.contains(x)
        &&& forall|k: int| 0 <= k < s.len() ==> self@.contains(#[trigger] s[k])
    }
    #[verifier::external_body]
    fn vp_into_vec_(self) -> (r: Vec<usize>) { self.into_iter().collect() }
}
pub fn vp_into_vec<T, C: VpIntoVec<T>>(c: C) -> (r: Vec<T>)
    ensures c.vp_seq_ok(r@),
{ c.vp_into_vec_() }

// ------------------------------------------------------------------ std::collections::BinaryHeap
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExBinaryHeap<T, A: std::alloc::Allocator>(BinaryHeap<T, A>);

pub uninterp spec fn hv<T, A: std::alloc::Allocator>(h: &BinaryHeap<T, A>) -> Multiset<T>;


pub assume_specification<T> [BinaryHeap::<T>::new] () -> (r: BinaryHeap<T>)
    ensures hv(&r) == Multiset::<T>::empty();
pub assume_specification<T, A: std::alloc::Allocator> [BinaryHeap::<T, A>::clear] (h: &mut BinaryHeap<T, A>)
    ensures hv(final(h)) == Multiset::<T>::empty();
pub assume_specification<T, A: std::alloc::Allocator> [BinaryHeap::<T, A>::is_empty] (h: &BinaryHeap<T, A>) -> (r: bool)
    ensures r == (hv(h).len() == 0);
pub assume_specification<T, A: std::alloc::Allocator> [BinaryHeap::<T, A>::len] (h: &BinaryHeap<T, A>) -> (r: usize)
    ensures r == hv(h).len();
pub assume_specification<T: Ord, A: std::alloc::Allocator> [BinaryHeap::<T, A>::push] (h: &mut BinaryHeap<T, A>, x: T)
    ensures hv(final(h)) == hv(old(h)).insert(x);
// what std asks of an order: a total preorder that cmp computes
pub open spec fn vp_total_order<T: Ord>() -> bool {
    &&& T::obeys_cmp_spec()
    &&& forall|a: T, b: T| #![trigger a.cmp_spec(&b)] (a.cmp_spec(&b) == Ordering::Less <==> b.cmp_spec(&a) == Ordering::Greater)
            && (a.cmp_spec(&b) == Ordering::Equal <==> b.cmp_spec(&a) == Ordering::Equal)
    &&& forall|a: T, b: T, c: T| #![trigger a.cmp_spec(&b), b.cmp_spec(&c)] a.cmp_spec(&b) != Ordering::Greater && b.cmp_spec(&c) != Ordering::Greater
            ==> a.cmp_spec(&c) != Ordering::Greater
}
pub assume_specification<T: Ord, A: std::alloc::Allocator> [BinaryHeap::<T, A>::pop] (h: &mut BinaryHeap<T, A>) -> (r: Option<T>)
    ensures match r {
        Some(x) => hv(old(h)).contains(x) && hv(final(h)) == hv(old(h)).remove(x)
            && (vp_total_order::<T>() ==> forall|y: T| #[trigger] hv(old(h)).contains(y) ==> x.cmp_spec(&y) != Ordering::Less),
        None => hv(old(h)).len() == 0 && hv(final(h)) == hv(old(h)),
    };
pub assume_specification<T, A: std::alloc::Allocator> [BinaryHeap::<T, A>::peek] (h: &BinaryHeap<T, A>) -> (r: Option<&T>)
    ensures match r {
        Some(x) => hv(h).contains(*x),
        None => hv(h).len() == 0,
    };

// ------------------------------------------------------------------ serde: formats are arbitrary, derived implementations opaque
pub trait Serializer: Sized { type Ok; type Error; }
pub trait Deserializer<'de>: Sized { type Error; }
// "serialising v into s ended with r", "deserialising from d ended with r"
pub uninterp spec fn vp_ser<T, S: Serializer>(v: T, s: S, r: Result<S::Ok, S::Error>) -> bool;
pub uninterp spec fn vp_des<'de, T, D: Deserializer<'de>>(d: D, r: Result<T, D::Error>) -> bool;
// reading o (what writing into s has produced) through d gives back the value that was written
pub open spec fn lossless<'de, T, S: Serializer, D: Deserializer<'de>>(s: S, o: S::Ok, d: D) -> bool {
    forall|v: T, e: Result<S::Ok, S::Error>, r: Result<T, D::Error>| #[trigger] vp_ser(v, s, e) && e == Ok::<S::Ok, S::Error>(o) && #[trigger] vp_des(d, r) ==> r == Ok::<T, D::Error>(v)
}

// ------------------------------------------------------------------ std::cmp
pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering)
    ensures r == match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less };

pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == if a == Ordering::Equal { b } else { a };

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + std::marker::Destruct> [std::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == if b.cmp_spec(&a) == Ordering::Less { a } else { b };

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + std::marker::Destruct> [std::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == if b.cmp_spec(&a) == Ordering::Less { b } else { a };

// Ord::max and Ord::min of integers
pub trait VpMinMax: Sized {
    spec fn vp_max_of(a: Self, b: Self) -> Self;
    spec fn vp_min_of(a: Self, b: Self) -> Self;
    fn vp_max(self, b: Self) -> (r: Self) ensures r == Self::vp_max_of(self, b);
    fn vp_min(self, b: Self) -> (r: Self) ensures r == Self::vp_min_of(self, b);
}
impl VpMinMax for usize {
    open spec fn vp_max_of(a: Self, b: Self) -> Self { if a > b { a } else { b } }
    open spec fn vp_min_of(a: Self, b: Self) -> Self { if a < b { a } else { b } }
    fn vp_max(self, b: Self) -> (r: Self) { if self > b { self } else { b } }
    fn vp_min(self, b: Self) -> (r: Self) { if self < b { self } else { b } }
}
impl VpMinMax for u64 {
    open spec fn vp_max_of(a: Self, b: Self) -> Self { if a > b { a } else { b } }
    open spec fn vp_min_of(a: Self, b: Self) -> Self { if a < b { a } else { b } }
    fn vp_max(self, b: Self) -> (r: Self) { if self > b { self } else { b } }
    fn vp_min(self, b: Self) -> (r: Self) { if self < b { self } else { b } }
}
impl VpMinMax for u32 {
    open spec fn vp_max_of(a: Self, b: Self) -> Self { if a > b { a } else { b } }
    open spec fn vp_min_of(a: Self, b: Self) -> Self { if a < b { a } else { b } }
    fn vp_max(self, b: Self) -> (r: Self) { if self > b { self } else { b } }
    fn vp_min(self, b: Self) -> (r: Self) { if self < b { self } else { b } }
}

#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExReverse<T>(std::cmp::Reverse<T>);

pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

// Vec::retain; the body is a reference implementation proved to meet the contract (the library's own is assumed to)
pub fn vp_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|a: T| #[trigger] f.requires((&a,)),
    ensures forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| f.ensures((&x,), b) ==> b == p(x)) ==> final(v)@ == #[trigger] old(v)@.filter(p),
{
    let ghost o = v@;
    let ghost mut k: int = 0;
    let mut i = 0;
    assert forall|p: spec_fn(T) -> bool| #[trigger] o.take(0).filter(p).len() == 0 by { reveal(Seq::filter); }
    assert(o.skip(0) =~= o);
    while i < v.len()
        invariant
            0 <= k <= o.len(),
            i <= v.len(),
            v@.skip(i as int) == o.skip(k),
            forall|a: T| #[trigger] f.requires((&a,)),
            forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| f.ensures((&x,), b) ==> b == p(x)) ==> v@.take(i as int) == #[trigger] o.take(k).filter(p),
        decreases v.len() - i,
    {
        let ghost w = v@;
        assert(w[i as int] == w.skip(i as int)[0]);
        assert(w.skip(i as int).len() == o.skip(k).len());
        assert(o.skip(k)[0] == o[k]);
        let b = f(&v[i]);
        proof {
            assert forall|p: spec_fn(T) -> bool| true implies #[trigger] o.take(k + 1).filter(p) == (if p(o[k]) { o.take(k).filter(p).push(o[k]) } else { o.take(k).filter(p) }) by {
                reveal(Seq::filter);
                assert(o.take(k + 1).drop_last() =~= o.take(k));
                assert(o.take(k + 1).last() == o[k]);
            }
            assert(o.skip(k + 1) =~= o.skip(k).skip(1));
        }
        if b {
            assert(w.take(i as int + 1) =~= w.take(i as int).push(w[i as int]));
            assert(w.skip(i as int + 1) =~= w.skip(i as int).skip(1));
            i += 1;
        } else {
            v.remove(i);
            assert(v@.take(i as int) =~= w.take(i as int));
            assert(v@.skip(i as int) =~= w.skip(i as int).skip(1));
        }
        proof { k = k + 1; }
    }
    assert(v@.skip(i as int).len() == 0);
    assert(k == o.len());
    assert(o.take(k) =~= o);
    assert(v@.take(i as int) =~= v@);
}

pub fn vp_vec_like<T>(v: &Vec<T>) -> (r: Vec<T>)
    ensures r.len() == 0,
{ Vec::new() }

// slice::sort_unstable_by / sort_by: for a comparator that is a total preorder, a sorted permutation; the body is again a
// proved reference implementation (insertion sort)
pub open spec fn vp_le<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool {
    exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && o != Ordering::Greater
}
#[verifier::opaque]
pub open spec fn vp_le0<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool {
    exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && o != Ordering::Greater
}
#[verifier::opaque]
pub open spec fn vp_trans<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    forall|a: T, b: T, c: T, o1: Ordering, o2: Ordering, o3: Ordering| #[trigger] f.ensures((&a, &b), o1) && #[trigger] f.ensures((&b, &c), o2)
        && #[trigger] f.ensures((&a, &c), o3) && o1 != Ordering::Greater && o2 != Ordering::Greater ==> o3 != Ordering::Greater
}
proof fn lemma_vp_trans<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T, c: T, o: Ordering)
    requires vp_trans::<T, F>(f), vp_le0(f, a, b), vp_le0(f, b, c), f.ensures((&a, &c), o),
    ensures vp_le0(f, a, c),
{
    reveal(vp_trans); reveal(vp_le0);
    let o1 = choose|q: Ordering| #[trigger] f.ensures((&a, &b), q) && q != Ordering::Greater;
    let o2 = choose|q: Ordering| #[trigger] f.ensures((&b, &c), q) && q != Ordering::Greater;
    assert(o != Ordering::Greater);
}
proof fn lemma_vp_le<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T, o: Ordering)
    requires f.ensures((&a, &b), o), o != Ordering::Greater,
    ensures vp_le0(f, a, b),
{ reveal(vp_le0); }

pub proof fn lemma_swap_multiset<T>(s: Seq<T>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s.len(),
    ensures s.update(i, s[j]).update(j, s[i]).to_multiset() == s.to_multiset(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let a = s.update(i, s[j]);
    assert(a.to_multiset() =~= s.to_multiset().insert(s[j]).remove(s[i]));
    assert(a.update(j, s[i]).to_multiset() =~= a.to_multiset().insert(s[i]).remove(a[j]));
    assert(s.to_multiset().count(s[i]) > 0) by { assert(s.to_multiset().contains(s[i])); }
    assert(a.update(j, s[i]).to_multiset() =~= s.to_multiset());
}

pub fn vp_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires
        forall|a: T, b: T| #[trigger] f.requires((&a, &b)),
        forall|a: T, b: T, o1: Ordering, o2: Ordering| #[trigger] f.ensures((&a, &b), o1) && #[trigger] f.ensures((&b, &a), o2)
            ==> (o1 == Ordering::Less <==> o2 == Ordering::Greater) && (o1 == Ordering::Equal <==> o2 == Ordering::Equal),
        forall|a: T, b: T, c: T, o1: Ordering, o2: Ordering, o3: Ordering| #[trigger] f.ensures((&a, &b), o1) && #[trigger] f.ensures((&b, &c), o2)
            && #[trigger] f.ensures((&a, &c), o3) && o1 != Ordering::Greater && o2 != Ordering::Greater ==> o3 != Ordering::Greater,
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| #![trigger final(v)@[i], final(v)@[j]] 0 <= i < j < final(v).len() ==>
            vp_le(f, final(v)@[i], final(v)@[j]),
{
    let ghost old_v = v@;
    assert(vp_trans::<T, F>(f)) by { reveal(vp_trans); }
    let n = v.len();
    let mut i = 0;
    while i < n
        invariant
            i <= n, n == v.len(),
            v@.to_multiset() == old_v.to_multiset(),
            forall|a: T, b: T| #[trigger] f.requires((&a, &b)),
            forall|a: T, b: T, o1: Ordering, o2: Ordering| #[trigger] f.ensures((&a, &b), o1) && #[trigger] f.ensures((&b, &a), o2)
                ==> (o1 == Ordering::Less <==> o2 == Ordering::Greater) && (o1 == Ordering::Equal <==> o2 == Ordering::Equal),
            forall|k: int| #![trigger v@[k]] 0 < k < i ==> vp_le0(f, v@[k - 1], v@[k]),
        decreases n - i,
    {
        let mut j = i;
        let ghost mut done = false;
        while j > 0
            invariant_except_break
                true,
            invariant
                j <= i < n, n == v.len(),
                v@.to_multiset() == old_v.to_multiset(),
                forall|a: T, b: T| #[trigger] f.requires((&a, &b)),
                forall|a: T, b: T, o1: Ordering, o2: Ordering| #[trigger] f.ensures((&a, &b), o1) && #[trigger] f.ensures((&b, &a), o2)
                    ==> (o1 == Ordering::Less <==> o2 == Ordering::Greater) && (o1 == Ordering::Equal <==> o2 == Ordering::Equal),
                forall|k: int| #![trigger v@[k]] 0 < k <= i && k != j ==> vp_le0(f, v@[k - 1], v@[k]),
                0 < j < i ==> vp_le0(f, v@[j - 1], v@[j + 1]),
            ensures
                j == 0 || vp_le0(f, v@[j - 1], v@[j as int]),
            decreases j,
        {
            let o = f(&v[j - 1], &v[j]);
            let o2 = f(&v[j], &v[j - 1]);
            assert(f.ensures((&v@[j - 1], &v@[j as int]), o));
            assert(f.ensures((&v@[j as int], &v@[j - 1]), o2));
            match o {
                Ordering::Greater => {}
                _ => { proof { lemma_vp_le(f, v@[j - 1], v@[j as int], o); } break; }
            }
            let ghost w = v@;
            proof { lemma_vp_le(f, w[j as int], w[j - 1], o2); }
            let x = v.remove(j);
            v.insert(j - 1, x);
            proof {
                lemma_swap_multiset(w, j - 1, j as int);
                assert(v@ =~= w.update(j - 1, w[j as int]).update(j as int, w[j - 1]));
                assert forall|k: int| #![trigger v@[k]] 0 < k <= i && k != j - 1 implies vp_le0(f, v@[k - 1], v@[k]) by {
                    if k == j {
                    } else if k == j + 1 {
                        assert(v@[k] == w[k]);
                    } else {
                        assert(v@[k] == w[k] && v@[k - 1] == w[k - 1]);
                    }
                }
                if 0 < j - 1 {
                    assert(w[j - 1] == v@[j as int] && w[j - 2] == v@[j - 2]);
                }
            }
            j -= 1;
        }
        i += 1;
    }
    vp_compare_all(v, f);
    proof { lemma_vp_le_all(v@, f); }
}
proof fn lemma_vp_le_all<T, F: Fn(&T, &T) -> Ordering>(s: Seq<T>, f: F)
    requires forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> vp_le0(f, s[i], s[j]),
    ensures
        forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==>
            vp_le(f, s[i], s[j]),
{
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies
        vp_le(f, s[i], s[j]) by { assert(vp_le0(f, s[i], s[j])); reveal(vp_le0); }
}

// neighbours are in order; by transitivity every pair is
fn vp_compare_all<T, F: Fn(&T, &T) -> Ordering>(v: &Vec<T>, f: F)
    requires
        forall|a: T, b: T| #[trigger] f.requires((&a, &b)),
        vp_trans::<T, F>(f),
        forall|k: int| #![trigger v@[k]] 0 < k < v.len() ==> vp_le0(f, v@[k - 1], v@[k]),
    ensures
        forall|i: int, j: int| #![trigger v@[i], v@[j]] 0 <= i < j < v.len() ==> vp_le0(f, v@[i], v@[j]),
{
    let n = v.len();
    let mut a = 0;
    while a < n
        invariant
            a <= n, n == v.len(),
            vp_trans::<T, F>(f),
            forall|x: T, y: T| #[trigger] f.requires((&x, &y)),
            forall|k: int| #![trigger v@[k]] 0 < k < n ==> vp_le0(f, v@[k - 1], v@[k]),
            forall|i: int, j: int| #![trigger v@[i], v@[j]] 0 <= i < a && i < j < n ==> vp_le0(f, v@[i], v@[j]),
        decreases n - a,
    {
        let mut b = a + 1;
        while b < n
            invariant
                a < n, n == v.len(), a + 1 <= b <= n,
                vp_trans::<T, F>(f),
                forall|x: T, y: T| #[trigger] f.requires((&x, &y)),
                forall|k: int| #![trigger v@[k]] 0 < k < n ==> vp_le0(f, v@[k - 1], v@[k]),
                forall|j: int| #![trigger v@[j]] a < j < b ==> vp_le0(f, v@[a as int], v@[j]),
            decreases n - b,
        {
            let o = f(&v[a], &v[b]);
            proof {
                assert(vp_le0(f, v@[b - 1], v@[b as int]));
                if b - 1 > a {
                    assert(vp_le0(f, v@[a as int], v@[b - 1]));
                    lemma_vp_trans(f, v@[a as int], v@[b - 1], v@[b as int], o);
                }
            }
            b += 1;
        }
        a += 1;
    }
}

// ------------------------------------------------------------------ priority_queue::PriorityQueue (only its key set matters)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(P)]
pub struct PriorityQueue<K, P> { k: std::marker::PhantomData<(K, P)> }
impl<K, P> PriorityQueue<K, P> {
    pub uninterp spec fn keys(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.keys() == Set::<K>::empty(), r.keys().finite(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, k: K, p: P)
        ensures final(self).keys() == old(self).keys().insert(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.keys() == Set::<K>::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<(K, P)>)
        ensures match r {
            Some(x) => old(self).keys().contains(x.0) && final(self).keys() == old(self).keys().remove(x.0),
            None => old(self).keys() == Set::<K>::empty() && final(self).keys() == old(self).keys(),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn change_priority(&mut self, k: &K, p: P)
        ensures final(self).keys() == old(self).keys(),
    { unimplemented!() }
}
}
