use serde::Deserialize;
use serde::Serialize;

use crate::constants::Weight;
use crate::constants::{EdgeId, NodeId, INVALID_EDGE};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FastGraph {
    num_nodes: usize,
    pub(crate) ranks: Vec<usize>,
    pub(crate) edges_fwd: Vec<FastGraphEdge>,
    pub(crate) first_edge_ids_fwd: Vec<EdgeId>,

    pub(crate) edges_bwd: Vec<FastGraphEdge>,
    pub(crate) first_edge_ids_bwd: Vec<EdgeId>,
}

impl FastGraph {
    pub fn new(num_nodes: usize) -> Self /*@
        requires num_nodes < usize::MAX,
        ensures res.num_nodes == num_nodes,
            res.ranks@ == Seq::new(num_nodes as nat, |i: int| 0usize),
            res.edges_fwd.len() == 0, res.edges_bwd.len() == 0,
            res.first_edge_ids_fwd@ == Seq::new((num_nodes + 1) as nat, |i: int| 0usize),
            res.first_edge_ids_bwd@ == Seq::new((num_nodes + 1) as nat, |i: int| 0usize),
    @*/ {
        /*@ broadcast use vstd::std_specs::vec::group_vec_axioms; @*/
        FastGraph {
            ranks: vec![0; num_nodes],
            num_nodes,
            edges_fwd: vec![],
            first_edge_ids_fwd: vec![0; num_nodes + 1],
            edges_bwd: vec![],
            first_edge_ids_bwd: vec![0; num_nodes + 1],
        }
    }

    pub fn get_node_ordering(&self) -> Vec<NodeId> /*@
        requires self.ranks_ok(),
        ensures res.len() == self.num_nodes, // [C07]
            forall|i: int| 0 <= i < self.num_nodes ==> res@[#[trigger] self.ranks@[i] as int] == i, // [C07]
    @*/ {
        let mut ordering = vec![0; self.ranks.len()];
        for i in 0..self.ranks.len() /*@
            invariant
                ordering.len() == self.num_nodes,
                self.ranks_ok(), vp_end1 == self.ranks.len(), vp_st1 == 0,
                forall|j: int| 0 <= j < vp_it1 ==> ordering@[#[trigger] self.ranks@[j] as int] == j,
        @*/ {
            ordering[self.ranks[i]] = i;
        }
        ordering
    }

    pub fn get_num_nodes(&self) -> usize /*@
        ensures res == self.num_nodes,
    @*/ {
        self.num_nodes
    }

    pub fn get_num_out_edges(&self) -> usize /*@
        ensures res == self.edges_fwd.len(),
    @*/ {
        self.edges_fwd.len()
    }

    pub fn get_num_in_edges(&self) -> usize /*@
        ensures res == self.edges_bwd.len(),
    @*/ {
        self.edges_bwd.len()
    }

    pub fn begin_in_edges(&self, node: NodeId) -> usize /*@
        requires node < self.num_nodes, self.ranks_ok(), self.first_edge_ids_bwd.len() == self.num_nodes + 1,
        ensures res == self.first_edge_ids_bwd@[self.ranks@[node as int] as int],
    @*/ {
        self.first_edge_ids_bwd[self.ranks[node]]
    }

    pub fn end_in_edges(&self, node: NodeId) -> usize /*@
        requires node < self.num_nodes, self.ranks_ok(), self.first_edge_ids_bwd.len() == self.num_nodes + 1,
        ensures res == self.first_edge_ids_bwd@[self.ranks@[node as int] + 1],
    @*/ {
        self.first_edge_ids_bwd[self.ranks[node] + 1]
    }

    pub fn begin_out_edges(&self, node: NodeId) -> usize /*@
        requires node < self.num_nodes, self.ranks_ok(), self.first_edge_ids_fwd.len() == self.num_nodes + 1,
        ensures res == self.first_edge_ids_fwd@[self.ranks@[node as int] as int],
    @*/ {
        self.first_edge_ids_fwd[self.ranks[node]]
    }

    pub fn end_out_edges(&self, node: NodeId) -> usize /*@
        requires node < self.num_nodes, self.ranks_ok(), self.first_edge_ids_fwd.len() == self.num_nodes + 1,
        ensures res == self.first_edge_ids_fwd@[self.ranks@[node as int] + 1],
    @*/ {
        self.first_edge_ids_fwd[self.ranks[node] + 1]
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub struct FastGraphEdge {
    pub base_node: NodeId,
    pub adj_node: NodeId,
    pub weight: Weight,
    pub replaced_in_edge: EdgeId,
    pub replaced_out_edge: EdgeId,
}

impl FastGraphEdge {
    pub fn new(
        base_node: NodeId,
        adj_node: NodeId,
        weight: Weight,
        replaced_edge1: EdgeId,
        replaced_edge2: EdgeId,
    ) -> Self /*@
        ensures res.base_node == base_node, res.adj_node == adj_node, res.weight == weight,
            res.replaced_in_edge == replaced_edge1, res.replaced_out_edge == replaced_edge2,
    @*/ {
        FastGraphEdge {
            base_node,
            adj_node,
            weight,
            replaced_in_edge: replaced_edge1,
            replaced_out_edge: replaced_edge2,
        }
    }

    pub fn is_shortcut(&self) -> bool /*@
        requires (self.replaced_in_edge == INVALID_EDGE) == (self.replaced_out_edge == INVALID_EDGE),
        ensures res == (self.replaced_in_edge != INVALID_EDGE),
    @*/ {
        assert!(
            (self.replaced_in_edge == INVALID_EDGE && self.replaced_out_edge == INVALID_EDGE)
                || (self.replaced_in_edge != INVALID_EDGE
                    && self.replaced_out_edge != INVALID_EDGE)
        );
        self.replaced_in_edge != INVALID_EDGE
    }
}

/*@
use crate::spec_graph::*;

// the stored edges as a graph, keyed base -> adj (edges_bwd therefore appears transposed)
pub open spec fn keyed(es: Seq<FastGraphEdge>) -> Gr {
    ISet::new(|e: (usize, usize, int)| exists|k: int| 0 <= k < es.len()
        && (#[trigger] es[k]).base_node == e.0 && es[k].adj_node == e.1 && es[k].weight == e.2)
}
pub open spec fn keyed_base(es: Seq<FastGraphEdge>) -> Gr {
    ISet::new(|e: (usize, usize, int)| exists|k: int| 0 <= k < es.len()
        && (#[trigger] es[k]).base_node == e.0 && es[k].adj_node == e.1 && es[k].weight == e.2 && es[k].replaced_in_edge == INVALID_EDGE)
}

// one adjacency list: edges grouped by the rank of their base node, leading to higher ranks
pub open spec fn list_ok(es: Seq<FastGraphEdge>, first: Seq<usize>, ranks: Seq<usize>, n: int) -> bool {
    &&& first.len() == n + 1
    &&& forall|k: int| 0 <= k < es.len() ==> {
            let e = #[trigger] es[k];
            e.base_node < n && e.adj_node < n && ranks[e.base_node as int] < ranks[e.adj_node as int] && e.weight >= 1
        }
    &&& first_ok(es, first, ranks, n)
}
#[verifier::opaque]
pub open spec fn first_ok(es: Seq<FastGraphEdge>, first: Seq<usize>, ranks: Seq<usize>, n: int) -> bool {
    &&& forall|r: int| 0 <= r <= n ==> #[trigger] first[r] <= es.len()
    &&& forall|r: int, q: int| #![trigger first[r], first[q]] 0 <= r <= q <= n ==> first[r] <= first[q]
    &&& forall|k: int| 0 <= k < es.len() ==> first[ranks[(#[trigger] es[k]).base_node as int] as int] <= k < first[ranks[es[k].base_node as int] + 1]
    &&& forall|v: int, k: int| #![trigger ranks[v], es[k]] 0 <= v < n && first[ranks[v] as int] <= k < first[ranks[v] + 1] ==> es[k].base_node == v
}
// the edges of node v are exactly those between its two offsets
pub proof fn lemma_first(es: Seq<FastGraphEdge>, first: Seq<usize>, ranks: Seq<usize>, n: int, v: int)
    requires list_ok(es, first, ranks, n), 0 <= v < n, ranks[v] < n,
    ensures first[ranks[v] as int] <= first[ranks[v] + 1] <= es.len(),
        forall|k: int| first[ranks[v] as int] <= k < first[ranks[v] + 1] ==> (#[trigger] es[k]).base_node == v,
        forall|k: int| 0 <= k < es.len() && (#[trigger] es[k]).base_node == v ==> first[ranks[v] as int] <= k < first[ranks[v] + 1],
{
    reveal(first_ok);
}

// edge k of the forward list is an input edge or stands for (in-edge of the center) + (out-edge of the center)
pub open spec fn sc_fwd(g: FastGraph, k: int) -> bool {
    let e = g.edges_fwd@[k];
    ||| e.replaced_in_edge == INVALID_EDGE && e.replaced_out_edge == INVALID_EDGE
    ||| {
        let i = e.replaced_in_edge as int;
        let o = e.replaced_out_edge as int;
        &&& i < g.edges_bwd.len() && o < g.edges_fwd.len()
        &&& g.edges_bwd@[i].base_node == g.edges_fwd@[o].base_node
        &&& g.ranks@[g.edges_bwd@[i].base_node as int] < g.ranks@[e.base_node as int]
        &&& g.edges_bwd@[i].adj_node == e.base_node
        &&& g.edges_fwd@[o].adj_node == e.adj_node
        &&& e.weight == g.edges_bwd@[i].weight + g.edges_fwd@[o].weight
    }
}
pub open spec fn sc_bwd(g: FastGraph, k: int) -> bool {
    let e = g.edges_bwd@[k];
    ||| e.replaced_in_edge == INVALID_EDGE && e.replaced_out_edge == INVALID_EDGE
    ||| {
        let i = e.replaced_in_edge as int;
        let o = e.replaced_out_edge as int;
        &&& i < g.edges_bwd.len() && o < g.edges_fwd.len()
        &&& g.edges_bwd@[i].base_node == g.edges_fwd@[o].base_node
        &&& g.ranks@[g.edges_bwd@[i].base_node as int] < g.ranks@[e.base_node as int]
        &&& g.edges_bwd@[i].adj_node == e.adj_node
        &&& g.edges_fwd@[o].adj_node == e.base_node
        &&& e.weight == g.edges_bwd@[i].weight + g.edges_fwd@[o].weight
    }
}

impl FastGraph {
    pub open spec fn ranks_ok(&self) -> bool {
        &&& self.num_nodes < usize::MAX
        &&& self.ranks.len() == self.num_nodes
        &&& forall|i: int| 0 <= i < self.num_nodes ==> #[trigger] self.ranks@[i] < self.num_nodes
        &&& forall|i: int, j: int| #![trigger self.ranks@[i], self.ranks@[j]] 0 <= i < self.num_nodes && 0 <= j < self.num_nodes && self.ranks@[i] == self.ranks@[j] ==> i == j
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.ranks_ok()
        &&& list_ok(self.edges_fwd@, self.first_edge_ids_fwd@, self.ranks@, self.num_nodes as int)
        &&& list_ok(self.edges_bwd@, self.first_edge_ids_bwd@, self.ranks@, self.num_nodes as int)
        &&& forall|k: int| 0 <= k < self.edges_fwd.len() ==> #[trigger] sc_fwd(*self, k)
        &&& forall|k: int| 0 <= k < self.edges_bwd.len() ==> #[trigger] sc_bwd(*self, k)
    }
    // upward edges, and downward edges transposed
    pub open spec fn up(&self) -> Gr { keyed(self.edges_fwd@) }
    pub open spec fn down_t(&self) -> Gr { keyed(self.edges_bwd@) }
    // all stored edges in their real direction
    pub open spec fn full(&self) -> Gr { self.up().union(transpose(self.down_t())) }
    // the stored edges that are not shortcuts
    pub open spec fn base(&self) -> Gr { keyed_base(self.edges_fwd@).union(transpose(keyed_base(self.edges_bwd@))) }
    pub open spec fn updown(&self, s: usize, t: usize, w: int) -> bool {
        exists|m: usize, a: int, b: int| #[trigger] dle(self.up(), s, m, a) && #[trigger] dle(self.down_t(), t, m, b) && a + b <= w
    }
    // every distance is attained by going up and then down
    #[verifier::opaque]
    pub open spec fn closed_(&self) -> bool {
        forall|s: usize, t: usize, w: int| w < wmax() && #[trigger] dle(self.full(), s, t, w) ==> self.updown(s, t, w)
    }
    pub open spec fn ok(&self) -> bool { self.wf() && self.closed_() }
    // the prepared graph stands for the input graph g
    pub open spec fn represents(&self, g: Gr) -> bool {
        &&& self.base().subset_of(g)
        &&& forall|s: usize, t: usize, w: int| w < wmax() && #[trigger] dle(g, s, t, w) ==> dle(self.base(), s, t, w)
    }
}

// the nodes an edge stands for, without the last one
pub open spec fn exp(g: FastGraph, fwd: bool, k: int) -> Seq<usize>
    decreases (if fwd { g.ranks@[g.edges_fwd@[k].base_node as int] } else { g.ranks@[g.edges_bwd@[k].base_node as int] }),
{
    let e = if fwd { g.edges_fwd@[k] } else { g.edges_bwd@[k] };
    if e.replaced_in_edge == INVALID_EDGE {
        seq![if fwd { e.base_node } else { e.adj_node }]
    } else {
        let i = e.replaced_in_edge as int;
        let o = e.replaced_out_edge as int;
        if g.ranks@[g.edges_bwd@[i].base_node as int] < g.ranks@[e.base_node as int]
            && g.ranks@[g.edges_fwd@[o].base_node as int] < g.ranks@[e.base_node as int] {
            exp(g, false, i) + exp(g, true, o)
        } else { seq![] }
    }
}

pub open spec fn real_from(g: FastGraph, fwd: bool, k: int) -> usize { if fwd { g.edges_fwd@[k].base_node } else { g.edges_bwd@[k].adj_node } }
pub open spec fn real_to(g: FastGraph, fwd: bool, k: int) -> usize { if fwd { g.edges_fwd@[k].adj_node } else { g.edges_bwd@[k].base_node } }
pub open spec fn real_w(g: FastGraph, fwd: bool, k: int) -> int { if fwd { g.edges_fwd@[k].weight as int } else { g.edges_bwd@[k].weight as int } }

pub proof fn lemma_exp_walk(g: FastGraph, fwd: bool, k: int)
    requires g.wf(), 0 <= k, fwd ==> k < g.edges_fwd.len(), !fwd ==> k < g.edges_bwd.len(),
    ensures exp(g, fwd, k).len() >= 1,
        exp(g, fwd, k)[0] == real_from(g, fwd, k),
        walk(g.base(), exp(g, fwd, k).push(real_to(g, fwd, k)), real_w(g, fwd, k)),
    decreases (if fwd { g.ranks@[g.edges_fwd@[k].base_node as int] } else { g.ranks@[g.edges_bwd@[k].base_node as int] }),
{
    let e = if fwd { g.edges_fwd@[k] } else { g.edges_bwd@[k] };
    if fwd { assert(sc_fwd(g, k)); } else { assert(sc_bwd(g, k)); }
    let x = exp(g, fwd, k);
    if e.replaced_in_edge == INVALID_EDGE {
        assert(g.base().contains((real_from(g, fwd, k), real_to(g, fwd, k), real_w(g, fwd, k))));
        assert(walk(g.base(), x, 0));
        lemma_walk_push(g.base(), x, 0, real_to(g, fwd, k), real_w(g, fwd, k));
    } else {
        let i = e.replaced_in_edge as int;
        let o = e.replaced_out_edge as int;
        lemma_exp_walk(g, false, i);
        lemma_exp_walk(g, true, o);
        let a = exp(g, false, i).push(real_to(g, false, i));
        let b = exp(g, true, o).push(real_to(g, true, o));
        lemma_walk_concat(g.base(), a, b, real_w(g, false, i), real_w(g, true, o));
        assert(a + b.skip(1) =~= x.push(real_to(g, fwd, k)));
    }
}

// an optimal walk can be replaced by an upward one and a downward one
pub proof fn lemma_closed(g: FastGraph, s: usize, t: usize, w: int) -> (r: (Seq<usize>, int, Seq<usize>, int))
    requires g.wf(), g.closed_(), w < wmax(), dle(g.full(), s, t, w),
    ensures walk(g.up(), r.0, r.1), r.0[0] == s, walk(g.down_t(), r.2, r.3), r.2[0] == t, r.0.last() == r.2.last(), r.1 + r.3 <= w, r.1 >= 0, r.3 >= 0,
{
    assert(g.updown(s, t, w)) by { reveal(FastGraph::closed_); }
    let (m, a, b) = choose|m: usize, a: int, b: int| #[trigger] dle(g.up(), s, m, a) && #[trigger] dle(g.down_t(), t, m, b) && a + b <= w;
    let (na, x) = lemma_dle_elim(g.up(), s, m, a);
    let (nb, y) = lemma_dle_elim(g.down_t(), t, m, b);
    lemma_walk_nonneg(g.up(), na, x);
    lemma_walk_nonneg(g.down_t(), nb, y);
    (na, x, nb, y)
}

// distances over all stored edges and over the input edges among them agree
pub proof fn lemma_full_base(g: FastGraph)
    requires g.wf(),
    ensures g.base().subset_of(g.full()), positive(g.full()), positive(g.base()), positive(g.up()), positive(g.down_t()),
        forall|u: usize, v: usize, w: int| #[trigger] dle(g.base(), u, v, w) ==> dle(g.full(), u, v, w),
        forall|u: usize, v: usize, w: int| #[trigger] dle(g.up(), u, v, w) ==> dle(g.full(), u, v, w),
        forall|u: usize, v: usize, w: int| #[trigger] dle(g.down_t(), u, v, w) ==> dle(g.full(), v, u, w),
        forall|u: usize, v: usize, w: int| w < wmax() && #[trigger] dle(g.full(), u, v, w) ==> dle(g.base(), u, v, w),
{
    assert forall|u: usize, v: usize, w: int| #[trigger] dle(g.base(), u, v, w) implies dle(g.full(), u, v, w) by {
        lemma_dle_sub(g.base(), g.full(), u, v, w);
    }
    assert forall|u: usize, v: usize, w: int| #[trigger] dle(g.up(), u, v, w) implies dle(g.full(), u, v, w) by {
        lemma_dle_sub(g.up(), g.full(), u, v, w);
    }
    assert forall|u: usize, v: usize, w: int| #[trigger] dle(g.down_t(), u, v, w) implies dle(g.full(), v, u, w) by {
        lemma_dle_transpose(g.down_t(), u, v, w);
        lemma_dle_sub(transpose(g.down_t()), g.full(), v, u, w);
    }
    assert(simulated(g.full(), g.base())) by {
        assert forall|e: (usize, usize, int)| #[trigger] g.full().contains(e) && e.2 < wmax() implies dle(g.base(), e.0, e.1, e.2) by {
            if g.up().contains(e) {
                let k = choose|k: int| 0 <= k < g.edges_fwd.len() && (#[trigger] g.edges_fwd@[k]).base_node == e.0 && g.edges_fwd@[k].adj_node == e.1 && g.edges_fwd@[k].weight == e.2;
                lemma_exp_walk(g, true, k);
                lemma_dle_intro(g.base(), exp(g, true, k).push(e.1), e.2, e.2);
            } else {
                let k = choose|k: int| 0 <= k < g.edges_bwd.len() && (#[trigger] g.edges_bwd@[k]).base_node == e.1 && g.edges_bwd@[k].adj_node == e.0 && g.edges_bwd@[k].weight == e.2;
                lemma_exp_walk(g, false, k);
                lemma_dle_intro(g.base(), exp(g, false, k).push(e.1), e.2, e.2);
            }
        }
    }
    assert forall|u: usize, v: usize, w: int| w < wmax() && #[trigger] dle(g.full(), u, v, w) implies dle(g.base(), u, v, w) by {
        lemma_dle_sim(g.full(), g.base(), u, v, w);
    }
}
@*/
