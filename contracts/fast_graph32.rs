use std::convert::TryFrom;

use serde::Deserialize;
use serde::Serialize;

use crate::fast_graph::FastGraphEdge;
use crate::FastGraph;
/*@
use crate::fast_graph::*;

// a number that the 32-bit format can hold: small, or the reserved maximum
pub open spec fn fits(x: usize) -> bool { x <= u32::MAX || x == usize::MAX }
// ... and that comes back unchanged
pub open spec fn exact(x: usize) -> bool { x < u32::MAX || x == usize::MAX }
pub open spec fn enc(x: usize) -> u32 { if x == usize::MAX { u32::MAX } else { x as u32 } }
pub open spec fn dec(x: u32) -> usize { if x == u32::MAX { usize::MAX } else { x as usize } }
pub open spec fn efits(e: FastGraphEdge) -> bool {
    fits(e.base_node) && fits(e.adj_node) && fits(e.weight) && fits(e.replaced_in_edge) && fits(e.replaced_out_edge)
}
pub open spec fn eexact(e: FastGraphEdge) -> bool {
    exact(e.base_node) && exact(e.adj_node) && exact(e.weight) && exact(e.replaced_in_edge) && exact(e.replaced_out_edge)
}
pub open spec fn eenc(e: FastGraphEdge) -> FastGraphEdge32 {
    FastGraphEdge32 { base_node: enc(e.base_node), adj_node: enc(e.adj_node), weight: enc(e.weight),
        replaced_in_edge: enc(e.replaced_in_edge), replaced_out_edge: enc(e.replaced_out_edge) }
}
pub open spec fn edec(e: FastGraphEdge32) -> FastGraphEdge {
    FastGraphEdge { base_node: dec(e.base_node), adj_node: dec(e.adj_node), weight: dec(e.weight),
        replaced_in_edge: dec(e.replaced_in_edge), replaced_out_edge: dec(e.replaced_out_edge) }
}
pub open spec fn all_fit(s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i]) }
pub open spec fn all_exact(s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> exact(#[trigger] s[i]) }
pub open spec fn all_efit(s: Seq<FastGraphEdge>) -> bool { forall|i: int| 0 <= i < s.len() ==> efits(#[trigger] s[i]) }
pub open spec fn all_eexact(s: Seq<FastGraphEdge>) -> bool { forall|i: int| 0 <= i < s.len() ==> eexact(#[trigger] s[i]) }
pub open spec fn vexact(g: FastGraph) -> bool {
    &&& g.num_nodes < u32::MAX
    &&& all_exact(g.ranks@) && all_exact(g.first_edge_ids_fwd@) && all_exact(g.first_edge_ids_bwd@)
    &&& all_eexact(g.edges_fwd@) && all_eexact(g.edges_bwd@)
}
pub open spec fn gfits(g: FastGraph) -> bool {
    &&& fits(g.num_nodes)
    &&& all_fit(g.ranks@) && all_fit(g.first_edge_ids_fwd@) && all_fit(g.first_edge_ids_bwd@)
    &&& all_efit(g.edges_fwd@) && all_efit(g.edges_bwd@)
}
pub open spec fn genc(g: FastGraph, h: FastGraph32) -> bool {
    &&& h.num_nodes == enc(g.num_nodes)
    &&& h.ranks@ == g.ranks@.map_values(|x: usize| enc(x))
    &&& h.first_edge_ids_fwd@ == g.first_edge_ids_fwd@.map_values(|x: usize| enc(x))
    &&& h.first_edge_ids_bwd@ == g.first_edge_ids_bwd@.map_values(|x: usize| enc(x))
    &&& h.edges_fwd@ == g.edges_fwd@.map_values(|x: FastGraphEdge| eenc(x))
    &&& h.edges_bwd@ == g.edges_bwd@.map_values(|x: FastGraphEdge| eenc(x))
}
pub open spec fn gdec(h: FastGraph32, g: FastGraph) -> bool {
    &&& g.num_nodes == h.num_nodes
    &&& g.ranks@ == h.ranks@.map_values(|x: u32| dec(x))
    &&& g.first_edge_ids_fwd@ == h.first_edge_ids_fwd@.map_values(|x: u32| dec(x))
    &&& g.first_edge_ids_bwd@ == h.first_edge_ids_bwd@.map_values(|x: u32| dec(x))
    &&& g.edges_fwd@ == h.edges_fwd@.map_values(|x: FastGraphEdge32| edec(x))
    &&& g.edges_bwd@ == h.edges_bwd@.map_values(|x: FastGraphEdge32| edec(x))
}
pub open spec fn same_graph(a: FastGraph, b: FastGraph) -> bool {
    &&& a.num_nodes == b.num_nodes && a.ranks@ == b.ranks@
    &&& a.first_edge_ids_fwd@ == b.first_edge_ids_fwd@ && a.first_edge_ids_bwd@ == b.first_edge_ids_bwd@
    &&& a.edges_fwd@ == b.edges_fwd@ && a.edges_bwd@ == b.edges_bwd@
}
// converting and converting back gives an equal graph
pub proof fn lemma_round_trip(g: FastGraph, h: FastGraph32, g2: FastGraph)
    requires vexact(g), genc(g, h), gdec(h, g2),
    ensures same_graph(g, g2), // [C10][C16]
{
    assert(g.ranks@ =~= g2.ranks@);
    assert(g.first_edge_ids_fwd@ =~= g2.first_edge_ids_fwd@);
    assert(g.first_edge_ids_bwd@ =~= g2.first_edge_ids_bwd@);
    assert(g.edges_fwd@ =~= g2.edges_fwd@);
    assert(g.edges_bwd@ =~= g2.edges_bwd@);
}
@*/
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FastGraph32 {
    num_nodes: u32,
    pub ranks: Vec<u32>,
    pub edges_fwd: Vec<FastGraphEdge32>,
    pub first_edge_ids_fwd: Vec<u32>,

    pub edges_bwd: Vec<FastGraphEdge32>,
    pub first_edge_ids_bwd: Vec<u32>,
}

impl FastGraph32 {
    pub fn new(fast_graph: &FastGraph) -> Self /*@
        requires vp_ok ==> gfits(*fast_graph),
        ensures gfits(*fast_graph), genc(*fast_graph, res), // [C10][C16]
    @*/ {
        FastGraph32 {
            num_nodes: usize_to_u32(fast_graph.get_num_nodes()),
            ranks: usize_to_u32_vec(&fast_graph.ranks),
            edges_fwd: usize_to_u32_edges(&fast_graph.edges_fwd),
            first_edge_ids_fwd: usize_to_u32_vec(&fast_graph.first_edge_ids_fwd),
            edges_bwd: usize_to_u32_edges(&fast_graph.edges_bwd),
            first_edge_ids_bwd: usize_to_u32_vec(&fast_graph.first_edge_ids_bwd),
        }
    }
    pub fn convert_to_usize(self) -> FastGraph /*@
        ensures gdec(self, res), // [C10][C16]
    @*/ {
        let mut g = FastGraph::new(self.num_nodes as usize);
        g.ranks = u32_to_usize_vec(&self.ranks);
        g.edges_fwd = u32_to_usize_edges(&self.edges_fwd);
        g.first_edge_ids_fwd = u32_to_usize_vec(&self.first_edge_ids_fwd);
        g.edges_bwd = u32_to_usize_edges(&self.edges_bwd);
        g.first_edge_ids_bwd = u32_to_usize_vec(&self.first_edge_ids_bwd);
        g
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub struct FastGraphEdge32 {
    pub base_node: u32,
    pub adj_node: u32,
    pub weight: u32,
    pub replaced_in_edge: u32,
    pub replaced_out_edge: u32,
}

fn usize_to_u32(int: usize) -> u32 /*@
    requires vp_ok ==> fits(int_vp),
    ensures fits(int_vp), res == enc(int_vp), // [C10]
    decreases (if int_vp == usize::MAX { 1int } else { 0int }),
@*/ {
    if int == std::usize::MAX {
        usize_to_u32(std::u32::MAX as usize)
    } else if let Ok(x) = u32::try_from(int) {
        x
    } else {
        panic!("Could not convert {} to a 32-bit integer", int);
    }
}

fn usize_to_u32_vec(vec: &[usize]) -> Vec<u32> /*@
    requires vp_ok ==> all_fit(vec@),
    ensures all_fit(vec@), res@ == vec@.map_values(|x: usize| enc(x)), // [C10]
@*/ {
    vec.iter().map(|i| /*@ invariant vp_cc0.len() == vp_itc0, forall|k: int| 0 <= k < vp_itc0 ==> fits(#[trigger] vec@[k]) && vp_cc0@[k] == enc(vec@[k]), @*/ usize_to_u32(*i)).collect()
}

fn usize_to_u32_edges(vec: &[FastGraphEdge]) -> Vec<FastGraphEdge32> /*@
    requires vp_ok ==> all_efit(vec@),
    ensures all_efit(vec@), res@ == vec@.map_values(|x: FastGraphEdge| eenc(x)), // [C10]
@*/ {
    vec.iter().map(|e| /*@ invariant vp_cc0.len() == vp_itc0, forall|k: int| 0 <= k < vp_itc0 ==> efits(#[trigger] vec@[k]) && vp_cc0@[k] == eenc(vec@[k]), @*/ usize_to_u32_edge(e)).collect()
}

fn usize_to_u32_edge(edge: &FastGraphEdge) -> FastGraphEdge32 /*@
    requires vp_ok ==> efits(*edge),
    ensures efits(*edge), res == eenc(*edge), // [C10]
@*/ {
    FastGraphEdge32 {
        base_node: usize_to_u32(edge.base_node),
        adj_node: usize_to_u32(edge.adj_node),
        weight: usize_to_u32(edge.weight),
        replaced_in_edge: usize_to_u32(edge.replaced_in_edge),
        replaced_out_edge: usize_to_u32(edge.replaced_out_edge),
    }
}

fn u32_to_usize(int: u32) -> usize /*@
    ensures res == dec(int_vp), // [C10]
@*/ {
    if int == std::u32::MAX {
        std::usize::MAX
    } else {
        int as usize
    }
}

fn u32_to_usize_vec(vec: &[u32]) -> Vec<usize> /*@
    ensures res@ == vec@.map_values(|x: u32| dec(x)), // [C10]
@*/ {
    vec.iter().map(|i| /*@ invariant vp_cc0.len() == vp_itc0, forall|k: int| 0 <= k < vp_itc0 ==> vp_cc0@[k] == dec(#[trigger] vec@[k]), @*/ u32_to_usize(*i)).collect()
}

fn u32_to_usize_edges(vec: &[FastGraphEdge32]) -> Vec<FastGraphEdge> /*@
    ensures res@ == vec@.map_values(|x: FastGraphEdge32| edec(x)), // [C10]
@*/ {
    vec.iter().map(|e| /*@ invariant vp_cc0.len() == vp_itc0, forall|k: int| 0 <= k < vp_itc0 ==> vp_cc0@[k] == edec(#[trigger] vec@[k]), @*/ u32_to_usize_edge(e)).collect()
}

fn u32_to_usize_edge(edge: &FastGraphEdge32) -> FastGraphEdge /*@
    ensures res == edec(*edge), // [C10]
@*/ {
    FastGraphEdge {
        base_node: u32_to_usize(edge.base_node),
        adj_node: u32_to_usize(edge.adj_node),
        weight: u32_to_usize(edge.weight),
        replaced_in_edge: u32_to_usize(edge.replaced_in_edge),
        replaced_out_edge: u32_to_usize(edge.replaced_out_edge),
    }
}

