// C16: what the derived (assumed) and the hand-written serialization contracts give a client. Left out of the generated
// file when the implementations are not plainly derived (the property is undecided then).
use vstd::prelude::*;
use crate::vp::*;
use crate::spec_graph::*;
use crate::fast_graph::*;
use crate::fast_graph32::*;
verus! {
// any lossless format: whatever was written is what is read back
pub trait VpFormat<'de>: Sized {
    type S: Serializer;
    type D: Deserializer<'de>;
    fn reader(s: Ghost<Self::S>, o: <Self::S as Serializer>::Ok) -> (d: Self::D)
        ensures lossless::<FastGraph, Self::S, Self::D>(s@, o, d), lossless::<FastGraph32, Self::S, Self::D>(s@, o, d);
}
// an equal graph answers every query in the same way: all that the contracts of the queries mention is equal
pub proof fn lemma_same_graph(a: FastGraph, b: FastGraph)
    requires same_graph(a, b),
    ensures a.ok() == b.ok(), a.base() == b.base(), a.ranks_ok() == b.ranks_ok(), // [C16]
{
    reveal(FastGraph::closed_);
    assert(forall|k: int| #![auto] sc_fwd(a, k) == sc_fwd(b, k));
    assert(forall|k: int| #![auto] sc_bwd(a, k) == sc_bwd(b, k));
    assert(a.full() == b.full());
    assert(forall|s: usize, t: usize, w: int| #![auto] a.updown(s, t, w) == b.updown(s, t, w));
}
// C16: the derived (64-bit) form
pub fn thm_serialize<'de, F: VpFormat<'de>>(fg: &FastGraph, s: F::S) -> (res: Option<FastGraph>)
    ensures res is Some ==> same_graph(*fg, res->0) && fg.ok() == res->0.ok() && fg.base() == res->0.base(), // [C16]
{
    let ghost s0 = s;
    match fg.serialize(s) {
        Ok(o) => {
            let ghost o0 = o;
            let d = F::reader(Ghost(s0), o);
            let ghost d0 = d;
            assert(vp_ser(*fg, s0, Ok::<<F::S as Serializer>::Ok, <F::S as Serializer>::Error>(o0)));
            match FastGraph::deserialize(d) {
                Ok(g) => {
                    proof { lemma_same_graph(*fg, g); }
                    Some(g)
                },
                Err(_) => { assert(false); None },
            }
        },
        Err(_) => None,
    }
}
// C16: the 32-bit form, for graphs whose numbers the format can hold exactly
pub fn thm_serialize_32<'de, F: VpFormat<'de>>(fg: &FastGraph, s: F::S) -> (res: Option<FastGraph>)
    requires vexact(*fg),
    ensures res is Some ==> same_graph(*fg, res->0) && fg.ok() == res->0.ok() && fg.base() == res->0.base(), // [C16]
{
    let ghost s0 = s;
    match crate::serialize_32(fg, s, Ghost(true)) {
        Ok(o) => {
            let ghost o0 = o;
            let d = F::reader(Ghost(s0), o);
            let ghost d0 = d;
            match crate::deserialize_32(d) {
                Ok(g) => {
                    proof {
                        let h = choose|h: FastGraph32| genc(*fg, h) && #[trigger] vp_ser(h, s0, Ok::<<F::S as Serializer>::Ok, <F::S as Serializer>::Error>(o0));
                        lemma_round_trip(*fg, h, g);
                        lemma_same_graph(*fg, g);
                    }
                    Some(g)
                },
                Err(_) => { assert(false); None },
            }
        },
        Err(_) => None,
    }
}
}
