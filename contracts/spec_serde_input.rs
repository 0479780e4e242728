// C17: an input graph (frozen or not) survives serialization. Left out of the generated file when the implementations of
// InputGraph and Edge are not plainly derived (the property is undecided then).
use vstd::prelude::*;
use crate::vp::*;
use crate::spec_graph::*;
use crate::input_graph::*;
verus! {
// any lossless format: whatever was written is what is read back
pub trait VpFormatInput<'de>: Sized {
    type S: Serializer;
    type D: Deserializer<'de>;
    fn reader(s: Ghost<Self::S>, o: <Self::S as Serializer>::Ok) -> (d: Self::D)
        ensures lossless::<InputGraph, Self::S, Self::D>(s@, o, d);
}
pub open spec fn same_input(a: InputGraph, b: InputGraph) -> bool {
    a.edges@ =~= b.edges@ && a.num_nodes == b.num_nodes && a.frozen == b.frozen
}
// all that the contracts of the operations of an input graph and of the preparation mention is equal
pub proof fn lemma_same_input(a: InputGraph, b: InputGraph)
    requires same_input(a, b),
    ensures a.wf() == b.wf(), a.gr() == b.gr(), // [C17]
{}
pub fn thm_serialize_input<'de, F: VpFormatInput<'de>>(g: &InputGraph, s: F::S) -> (res: Option<InputGraph>)
    ensures res is Some ==> same_input(*g, res->0) && g.wf() == res->0.wf() && g.gr() == res->0.gr(), // [C17]
{
    let ghost s0 = s;
    match g.serialize(s) {
        Ok(o) => {
            let ghost o0 = o;
            let d = F::reader(Ghost(s0), o);
            assert(vp_ser(*g, s0, Ok::<<F::S as Serializer>::Ok, <F::S as Serializer>::Error>(o0)));
            match InputGraph::deserialize(d) {
                Ok(h) => {
                    proof { lemma_same_input(*g, h); }
                    Some(h)
                },
                Err(_) => { assert(false); None },
            }
        },
        Err(_) => None,
    }
}
// the copy behaves as the original: freezing (when not frozen) and reading it gives the same edges and node count
pub fn thm_copy_reads_equal<'de, F: VpFormatInput<'de>>(g: InputGraph, s: F::S)
    requires g.wf(), !g.frozen,
{
    if let Some(h) = thm_serialize_input::<F>(&g, s) {
        let mut g = g;
        let mut h = h;
        g.freeze(Ghost(true));
        h.freeze(Ghost(true));
        let n = g.get_num_nodes(Ghost(true));
        let m = h.get_num_nodes(Ghost(true));
        let a = g.get_edges(Ghost(true));
        let b = h.get_edges(Ghost(true));
        assert(n == m); // [C17]
        proof { lemma_normal_unique(a@, b@); }
        assert(a@ =~= b@); // [C17]
    }
}
}
