use std::cmp::{max, Reverse};
use std::collections::BTreeSet;

use priority_queue::PriorityQueue;

use crate::constants::Weight;
use crate::constants::{EdgeId, NodeId, INVALID_EDGE, INVALID_NODE};
use crate::fast_graph::FastGraphEdge;

use super::fast_graph::FastGraph;
use super::input_graph::InputGraph;
use super::preparation_graph::PreparationGraph;
use crate::node_contractor;
use crate::witness_search::WitnessSearch;

/*@
use crate::spec_graph::*;
use crate::spec_prep::*;
use crate::spec_build::*;
use crate::preparation_graph::*;
use crate::fast_graph::*;
use crate::input_graph::*;

// an order without repetitions
pub open spec fn distinct(order: Seq<usize>) -> bool { order.no_duplicates() }
pub open spec fn in_range(order: Seq<usize>, n: int) -> bool { forall|k: int| 0 <= k < order.len() ==> #[trigger] order[k] < n }
// an input that can be prepared: fewer nodes than the reserved id
pub open spec fn input_ok(g: InputGraph) -> bool { g.wf() && g.num_nodes < usize::MAX }
pub open spec fn prepared(fg: FastGraph, g: InputGraph) -> bool {
    fg.ok() && fg.represents(g.gr()) && fg.num_nodes == g.num_nodes
}
@*/
pub struct FastGraphBuilder {
    fast_graph: FastGraph,
    num_nodes: usize,
}

impl FastGraphBuilder {
    fn new(input_graph: &InputGraph) -> Self /*@
        requires input_ok(*input_graph), vp_ok ==> input_graph.frozen,
        ensures input_graph.frozen, // [C09]
            fresh(res.fast_graph, input_graph.num_nodes as int), res.num_nodes == input_graph.num_nodes, // [C01][C07]
    @*/ {
        FastGraphBuilder {
            fast_graph: FastGraph::new(input_graph.get_num_nodes()),
            num_nodes: input_graph.get_num_nodes(),
        }
    }

    pub fn build(input_graph: &InputGraph) -> FastGraph /*@
        requires input_ok(*input_graph), vp_ok ==> input_graph.frozen,
        ensures input_graph.frozen, // [C09]
            prepared(res, *input_graph), // [C01][C02][C05][C07]
    @*/ {
        FastGraphBuilder::build_with_params(input_graph, &Params::default())
    }

    pub fn build_with_params(input_graph: &InputGraph, params: &Params) -> FastGraph /*@
        requires input_ok(*input_graph), vp_ok ==> input_graph.frozen,
        ensures input_graph.frozen, // [C09]
            prepared(res, *input_graph), // [C01][C02][C05][C07]
    @*/ {
        let mut builder = FastGraphBuilder::new(input_graph);
        builder.run_contraction(input_graph, params);
        builder.fast_graph
    }

    pub fn build_with_order(
        input_graph: &InputGraph,
        order: &[NodeId],
    ) -> Result<FastGraph, String> /*@
        requires input_ok(*input_graph), order.len() == input_graph.num_nodes ==> distinct(order@),
            vp_ok ==> input_graph.frozen && (order.len() == input_graph.num_nodes ==> in_range(order@, input_graph.num_nodes as int)),
        ensures input_graph.frozen, // [C09]
            res is Err <==> order.len() != input_graph.num_nodes, // [C06]
            res is Ok ==> prepared(res->Ok_0, *input_graph), // [C01][C02][C05][C06][C07]
            res is Ok ==> forall|k: int| 0 <= k < order.len() ==> res->Ok_0.ranks@[#[trigger] order@[k] as int] == k, // [C07]
    @*/ {
        FastGraphBuilder::build_with_order_with_params(
            input_graph,
            order,
            &ParamsWithOrder::default(),
        )
    }

    pub fn build_with_order_with_params(
        input_graph: &InputGraph,
        order: &[NodeId],
        params: &ParamsWithOrder,
    ) -> Result<FastGraph, String> /*@
        requires input_ok(*input_graph), order.len() == input_graph.num_nodes ==> distinct(order@),
            vp_ok ==> input_graph.frozen && (order.len() == input_graph.num_nodes ==> in_range(order@, input_graph.num_nodes as int)),
        ensures input_graph.frozen, // [C09]
            res is Err <==> order.len() != input_graph.num_nodes, // [C06]
            res is Ok ==> prepared(res->Ok_0, *input_graph), // [C01][C02][C05][C06][C07]
            res is Ok ==> forall|k: int| 0 <= k < order.len() ==> res->Ok_0.ranks@[#[trigger] order@[k] as int] == k, // [C07]
    @*/ {
        if input_graph.get_num_nodes() != order.len() {
            return Err(String::from(
                "The given order must have as many nodes as the input graph",
            ));
        }
        let mut builder = FastGraphBuilder::new(input_graph);
        builder.run_contraction_with_order(input_graph, order, params);
        Ok(builder.fast_graph)
    }

    fn run_contraction(&mut self, input_graph: &InputGraph, params: &Params) /*@
        requires input_ok(*input_graph), vp_ok ==> input_graph.frozen, fresh(old(self).fast_graph, input_graph.num_nodes as int), old(self).num_nodes == input_graph.num_nodes,
        ensures input_graph.frozen, // [C09]
            prepared(final(self).fast_graph, *input_graph), // [C01][C02][C05][C07]
    @*/ {
        /*@ broadcast use vstd::std_specs::vec::group_vec_axioms; @*/
        let mut preparation_graph = PreparationGraph::from_input_graph(input_graph);
        let mut witness_search = WitnessSearch::new(self.num_nodes);
        let mut levels = vec![0; self.num_nodes];
        /*@ let ghost g0 = input_graph.gr();
        let ghost n = self.num_nodes as int;
        proof { lemma_binv_start(self.fast_graph, preparation_graph, g0); } @*/
        let mut queue = PriorityQueue::new();
        for node in 0..self.num_nodes /*@
            invariant vp_st1 == 0, vp_end1 == n, n == self.num_nodes, n == input_graph.num_nodes, preparation_graph.num_nodes == n, witness_search.num_nodes == n,
                preparation_graph.wf(), witness_search.wf(), self.fast_graph == old(self).fast_graph,
                binv(self.fast_graph, Seq::empty(), preparation_graph, g0),
                forall|x: usize| #[trigger] queue.keys().contains(x) <==> x < vp_it1,
        @*/ {
            let priority = node_contractor::calc_relevance(
                &mut preparation_graph,
                params,
                &mut witness_search,
                node,
                0,
                params.max_settled_nodes_initial_relevance,
            ) as Weight;
            queue.push(node, Reverse(priority));
        }
        let mut rank = 0;
        /*@ let ghost mut ord: Seq<usize> = Seq::empty(); @*/
        while !queue.is_empty() /*@
            invariant n == self.num_nodes, n == input_graph.num_nodes, witness_search.num_nodes == n, witness_search.wf(), self.fast_graph.num_nodes == n,
                binv(self.fast_graph, ord, preparation_graph, g0), rank == ord.len(), g0 == input_graph.gr(), rank <= n, n < usize::MAX,
                forall|x: usize| #![trigger queue.keys().contains(x)] #![trigger ord.contains(x)] queue.keys().contains(x) <==> x < n && !ord.contains(x),
                levels.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] levels@[i] <= ord.len(),
            ensures forall|x: usize| x < n ==> #[trigger] ord.contains(x),
            decreases n - rank,
        @*/ {
            /*@ let ghost f0 = self.fast_graph;
            let ghost p0 = preparation_graph; @*/
            let node = queue.pop().unwrap().0;
            /*@ let ghost lo = p0.out_edges@[node as int]@;
            let ghost li = p0.in_edges@[node as int]@;
            proof { lemma_ord_push(ord, n, node); } @*/
            let mut neighbors = BTreeSet::new();
            /*@ let ghost fa = self.fast_graph; @*/
            for out_edge in &preparation_graph.out_edges[node] /*@
                invariant vp_st1 == 0, vp_end1 == lo.len(), lo == vp_v1@, preparation_graph == p0, p0.wf(), node < n, n == p0.num_nodes, lo == p0.out_edges@[node as int]@,
                    self.num_nodes == n, self.fast_graph.num_nodes == n, self.fast_graph.ranks == fa.ranks, self.fast_graph.edges_bwd == fa.edges_bwd,
                    self.fast_graph.first_edge_ids_fwd == fa.first_edge_ids_fwd, self.fast_graph.first_edge_ids_bwd == fa.first_edge_ids_bwd,
                    emitted(self.fast_graph.edges_fwd@, fa.edges_fwd@, node, lo, vp_it1 as int),
                    forall|x: usize| #[trigger] neighbors@.contains(x) ==> x < n && x != node,
            @*/ {
                /*@ proof { lemma_out_at(p0, node, vp_it1 - 1); } @*/
                neighbors.insert(out_edge.adj_node);
                self.fast_graph.edges_fwd.push(FastGraphEdge::new(
                    node,
                    out_edge.adj_node,
                    out_edge.weight,
                    out_edge.center_node,
                    INVALID_EDGE,
                ));
            }
            self.fast_graph.first_edge_ids_fwd[rank + 1] = self.fast_graph.get_num_out_edges();
            /*@ let ghost f1 = self.fast_graph; @*/

            for in_edge in &preparation_graph.in_edges[node] /*@
                invariant vp_st1 == 0, vp_end1 == li.len(), li == vp_v1@, preparation_graph == p0, p0.wf(), node < n, n == p0.num_nodes, li == p0.in_edges@[node as int]@,
                    self.num_nodes == n, self.fast_graph.num_nodes == n, self.fast_graph.ranks == f1.ranks, self.fast_graph.edges_fwd == f1.edges_fwd,
                    self.fast_graph.first_edge_ids_fwd == f1.first_edge_ids_fwd, self.fast_graph.first_edge_ids_bwd == f1.first_edge_ids_bwd,
                    emitted(self.fast_graph.edges_bwd@, f1.edges_bwd@, node, li, vp_it1 as int),
                    forall|x: usize| #[trigger] neighbors@.contains(x) ==> x < n && x != node,
            @*/ {
                /*@ proof { lemma_in_at(p0, node, vp_it1 - 1); } @*/
                neighbors.insert(in_edge.adj_node);
                self.fast_graph.edges_bwd.push(FastGraphEdge::new(
                    node,
                    in_edge.adj_node,
                    in_edge.weight,
                    in_edge.center_node,
                    INVALID_EDGE,
                ));
            }
            self.fast_graph.first_edge_ids_bwd[rank + 1] = self.fast_graph.get_num_in_edges();

            self.fast_graph.ranks[node] = rank;
            node_contractor::contract_node(
                &mut preparation_graph,
                &mut witness_search,
                node,
                params.max_settled_nodes_contraction,
            );
            /*@ let ghost o0 = ord;
            proof {
                ord = ord.push(node);
                lemma_binv_step(f0, self.fast_graph, o0, p0, preparation_graph, g0, node);
            }
            let ghost f2 = self.fast_graph;
            let ghost p2 = preparation_graph;
            let ghost keys0 = queue.keys(); @*/
            for neighbor in neighbors /*@
                invariant vp_st1 == 0, self.fast_graph == f2, self.num_nodes == n, preparation_graph == p2, p2.wf(), p2.num_nodes == n, witness_search.wf(), witness_search.num_nodes == n,
                    node < n, n < usize::MAX, queue.keys() == keys0, forall|k: int| 0 <= k < vp_v1.len() ==> (#[trigger] vp_v1@[k]) < n && vp_v1@[k] != node,
                    levels.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] levels@[i] <= ord.len(), levels@[node as int] < ord.len(), ord.len() <= n,
            @*/ {
                levels[neighbor] = max(levels[neighbor], levels[node] + 1);
                let priority = node_contractor::calc_relevance(
                    &mut preparation_graph,
                    params,
                    &mut witness_search,
                    neighbor,
                    levels[neighbor],
                    params.max_settled_nodes_neighbor_relevance,
                ) as Weight;
                queue.change_priority(&neighbor, Reverse(priority));
            }
            debug!(
                "contracted node {} / {}, num edges fwd: {}, num edges bwd: {}",
                rank + 1,
                self.num_nodes,
                self.fast_graph.get_num_out_edges(),
                self.fast_graph.get_num_in_edges()
            );
            rank += 1;
        }
        /*@ proof { lemma_complete_build(self.fast_graph, ord, preparation_graph, g0); } @*/
        self.finish_contraction();
    }

    fn run_contraction_with_order(
        &mut self,
        input_graph: &InputGraph,
        order: &[NodeId],
        params: &ParamsWithOrder,
    ) /*@
        requires input_ok(*input_graph), vp_ok ==> input_graph.frozen && in_range(order@, input_graph.num_nodes as int),
            fresh(old(self).fast_graph, input_graph.num_nodes as int), old(self).num_nodes == input_graph.num_nodes,
            order.len() == input_graph.num_nodes, distinct(order@),
        ensures input_graph.frozen, // [C09]
            prepared(final(self).fast_graph, *input_graph), // [C01][C02][C05][C06][C07]
            forall|k: int| 0 <= k < order.len() ==> final(self).fast_graph.ranks@[#[trigger] order@[k] as int] == k, // [C07]
    @*/ {
        let mut preparation_graph = PreparationGraph::from_input_graph(input_graph);
        let mut witness_search = WitnessSearch::new(self.num_nodes);
        /*@ let ghost g0 = input_graph.gr();
        let ghost n = self.num_nodes as int;
        proof {
            lemma_binv_start(self.fast_graph, preparation_graph, g0);
            assert(order@.take(0) =~= Seq::empty());
        } @*/
        for (rank, node) in order.iter().cloned().enumerate() /*@
            invariant vp_st1 == 0, vp_end1 == n, n == self.num_nodes, n == input_graph.num_nodes, witness_search.num_nodes == n, witness_search.wf(), self.fast_graph.num_nodes == n,
                n == order.len(), distinct(order@), g0 == input_graph.gr(), n < usize::MAX, input_graph.frozen, vp_v1@ == order@,
                binv(self.fast_graph, order@.take(vp_it1 as int), preparation_graph, g0), vp_ok ==> in_range(order@, n),
                self.fast_graph.ranks.len() == n, forall|k: int| 0 <= k < vp_it1 ==> self.fast_graph.ranks@[#[trigger] order@[k] as int] == k, // [C07]
        @*/ {
            /*@ let ghost f0 = self.fast_graph;
            let ghost p0 = preparation_graph;
            let ghost ord = order@.take(rank as int);
            proof {
                if ord.contains(node) { let k = choose|k: int| 0 <= k < ord.len() && ord[k] == node; assert(order@[k] == order@[rank as int]); }
            } @*/
            if node >= self.num_nodes {
                panic!("Order contains invalid node id: {}", node);
            }
            /*@ let ghost lo = p0.out_edges@[node as int]@;
            let ghost li = p0.in_edges@[node as int]@;
            proof { lemma_ord_push(ord, n, node); }
            let ghost fa = self.fast_graph; @*/
            for out_edge in &preparation_graph.out_edges[node] /*@
                invariant vp_st2 == 0, vp_end2 == lo.len(), lo == vp_v2@, preparation_graph == p0, p0.wf(), node < n, n == p0.num_nodes, lo == p0.out_edges@[node as int]@,
                    self.num_nodes == n, self.fast_graph.num_nodes == n, self.fast_graph.ranks == fa.ranks, self.fast_graph.edges_bwd == fa.edges_bwd,
                    self.fast_graph.first_edge_ids_fwd == fa.first_edge_ids_fwd, self.fast_graph.first_edge_ids_bwd == fa.first_edge_ids_bwd,
                    emitted(self.fast_graph.edges_fwd@, fa.edges_fwd@, node, lo, vp_it2 as int),
            @*/ {
                self.fast_graph.edges_fwd.push(FastGraphEdge::new(
                    node,
                    out_edge.adj_node,
                    out_edge.weight,
                    out_edge.center_node,
                    INVALID_EDGE,
                ));
            }
            self.fast_graph.first_edge_ids_fwd[rank + 1] = self.fast_graph.get_num_out_edges();
            /*@ let ghost f1 = self.fast_graph; @*/

            for in_edge in &preparation_graph.in_edges[node] /*@
                invariant vp_st2 == 0, vp_end2 == li.len(), li == vp_v2@, preparation_graph == p0, p0.wf(), node < n, n == p0.num_nodes, li == p0.in_edges@[node as int]@,
                    self.num_nodes == n, self.fast_graph.num_nodes == n, self.fast_graph.ranks == f1.ranks, self.fast_graph.edges_fwd == f1.edges_fwd,
                    self.fast_graph.first_edge_ids_fwd == f1.first_edge_ids_fwd, self.fast_graph.first_edge_ids_bwd == f1.first_edge_ids_bwd,
                    emitted(self.fast_graph.edges_bwd@, f1.edges_bwd@, node, li, vp_it2 as int),
            @*/ {
                self.fast_graph.edges_bwd.push(FastGraphEdge::new(
                    node,
                    in_edge.adj_node,
                    in_edge.weight,
                    in_edge.center_node,
                    INVALID_EDGE,
                ));
            }
            self.fast_graph.first_edge_ids_bwd[rank + 1] = self.fast_graph.get_num_in_edges();

            self.fast_graph.ranks[node] = rank;
            node_contractor::contract_node(
                &mut preparation_graph,
                &mut witness_search,
                node,
                params.max_settled_nodes_contraction_with_order,
            );
            /*@ proof {
                lemma_binv_step(f0, self.fast_graph, ord, p0, preparation_graph, g0, node);
                assert(order@.take(rank + 1) =~= ord.push(node));
            } @*/
            debug!(
                "contracted node {} / {}, num edges fwd: {}, num edges bwd: {}",
                rank + 1,
                self.num_nodes,
                self.fast_graph.get_num_out_edges(),
                self.fast_graph.get_num_in_edges()
            );
        }
        /*@ proof {
            assert(order@.take(n) =~= order@);
            lemma_ord_len(order@, n);
            lemma_complete_build(self.fast_graph, order@, preparation_graph, g0);
        } @*/
        self.finish_contraction();
    }

    fn finish_contraction(&mut self) /*@
        requires exists|g0: Gr| #[trigger] complete(old(self).fast_graph, g0), old(self).num_nodes == old(self).fast_graph.num_nodes,
        ensures final(self).fast_graph.ok(), forall|g0: Gr| #[trigger] complete(old(self).fast_graph, g0) ==> final(self).fast_graph.represents(g0), // [C01][C02][C05]
            final(self).fast_graph.ranks == old(self).fast_graph.ranks, final(self).fast_graph.num_nodes == old(self).fast_graph.num_nodes, // [C07]
    @*/ {
        /*@ let ghost o = self.fast_graph;
        let ghost gx = choose|g0: Gr| #[trigger] complete(o, g0); @*/
        for i in 0..self.num_nodes /*@
            invariant vp_st1 == 0, vp_end1 == o.num_nodes, o == old(self).fast_graph, complete(o, gx), self.num_nodes == o.num_nodes,
                same_core(self.fast_graph, o), self.fast_graph.edges_bwd == o.edges_bwd,
                forall|e: int| 0 <= e < o.edges_fwd.len() && o.edges_fwd@[e].base_node < vp_it1 ==> #[trigger] link_fwd(o, self.fast_graph, e),
                forall|e: int| 0 <= e < o.edges_fwd.len() && o.edges_fwd@[e].base_node >= vp_it1 ==> #[trigger] self.fast_graph.edges_fwd@[e] == o.edges_fwd@[e],
        @*/ {
            /*@ proof { lemma_first(o.edges_fwd@, o.first_edge_ids_fwd@, o.ranks@, o.num_nodes as int, i as int); } @*/
            for edge_id in self.fast_graph.begin_out_edges(i)..self.fast_graph.end_out_edges(i) /*@
                invariant o == old(self).fast_graph, complete(o, gx), self.num_nodes == o.num_nodes, i < o.num_nodes,
                    vp_st2 == o.first_edge_ids_fwd@[o.ranks@[i as int] as int], vp_end2 == o.first_edge_ids_fwd@[o.ranks@[i as int] + 1], vp_st2 <= vp_end2 <= o.edges_fwd.len(),
                    same_core(self.fast_graph, o), self.fast_graph.edges_bwd == o.edges_bwd,
                    forall|e: int| 0 <= e < o.edges_fwd.len() && (o.edges_fwd@[e].base_node < i || (o.edges_fwd@[e].base_node == i && e < vp_it2)) ==> #[trigger] link_fwd(o, self.fast_graph, e),
                    forall|e: int| 0 <= e < o.edges_fwd.len() && (o.edges_fwd@[e].base_node > i || (o.edges_fwd@[e].base_node == i && e >= vp_it2)) ==> #[trigger] self.fast_graph.edges_fwd@[e] == o.edges_fwd@[e],
            @*/ {
                /*@ let ghost a0 = self.fast_graph;
                proof {
                    assert(self.fast_graph.edges_fwd@[edge_id as int] == o.edges_fwd@[edge_id as int]);
                    assert(named_fwd(o, gx, edge_id as int));
                    lemma_first(o.edges_fwd@, o.first_edge_ids_fwd@, o.ranks@, o.num_nodes as int, i as int);
                    lemma_same_core(a0, o);
                } @*/
                let c = self.fast_graph.edges_fwd[edge_id].replaced_in_edge;
                if c == INVALID_NODE {
                    self.fast_graph.edges_fwd[edge_id].replaced_in_edge = INVALID_EDGE;
                    debug_assert_eq!(
                        INVALID_EDGE,
                        self.fast_graph.edges_fwd[edge_id].replaced_out_edge
                    );
                } else {
                    self.fast_graph.edges_fwd[edge_id].replaced_in_edge = self.get_in_edge_id(c, i);
                    self.fast_graph.edges_fwd[edge_id].replaced_out_edge =
                        self.get_out_edge_id(c, self.fast_graph.edges_fwd[edge_id].adj_node);
                }
                /*@ proof {
                    let a = self.fast_graph;
                    assert(link_fwd(o, a, edge_id as int));
                    assert forall|e: int| 0 <= e < o.edges_fwd.len() && (o.edges_fwd@[e].base_node < i || (o.edges_fwd@[e].base_node == i && e <= edge_id)) implies #[trigger] link_fwd(o, a, e) by {
                        if e != edge_id { assert(link_fwd(o, a0, e)); }
                    }
                } @*/
            }
        }

        /*@ let ghost m = self.fast_graph; @*/
        for i in 0..self.num_nodes /*@
            invariant vp_st1 == 0, vp_end1 == o.num_nodes, o == old(self).fast_graph, complete(o, gx), self.num_nodes == o.num_nodes,
                same_core(self.fast_graph, o), self.fast_graph.edges_fwd == m.edges_fwd,
                forall|e: int| 0 <= e < o.edges_fwd.len() ==> #[trigger] link_fwd(o, self.fast_graph, e),
                forall|e: int| 0 <= e < o.edges_bwd.len() && o.edges_bwd@[e].base_node < vp_it1 ==> #[trigger] link_bwd(o, self.fast_graph, e),
                forall|e: int| 0 <= e < o.edges_bwd.len() && o.edges_bwd@[e].base_node >= vp_it1 ==> #[trigger] self.fast_graph.edges_bwd@[e] == o.edges_bwd@[e],
        @*/ {
            /*@ proof { lemma_first(o.edges_bwd@, o.first_edge_ids_bwd@, o.ranks@, o.num_nodes as int, i as int); } @*/
            for edge_id in self.fast_graph.begin_in_edges(i)..self.fast_graph.end_in_edges(i) /*@
                invariant o == old(self).fast_graph, complete(o, gx), self.num_nodes == o.num_nodes, i < o.num_nodes,
                    vp_st2 == o.first_edge_ids_bwd@[o.ranks@[i as int] as int], vp_end2 == o.first_edge_ids_bwd@[o.ranks@[i as int] + 1], vp_st2 <= vp_end2 <= o.edges_bwd.len(),
                    same_core(self.fast_graph, o), self.fast_graph.edges_fwd == m.edges_fwd,
                    forall|e: int| 0 <= e < o.edges_fwd.len() ==> #[trigger] link_fwd(o, self.fast_graph, e),
                    forall|e: int| 0 <= e < o.edges_bwd.len() && (o.edges_bwd@[e].base_node < i || (o.edges_bwd@[e].base_node == i && e < vp_it2)) ==> #[trigger] link_bwd(o, self.fast_graph, e),
                    forall|e: int| 0 <= e < o.edges_bwd.len() && (o.edges_bwd@[e].base_node > i || (o.edges_bwd@[e].base_node == i && e >= vp_it2)) ==> #[trigger] self.fast_graph.edges_bwd@[e] == o.edges_bwd@[e],
            @*/ {
                /*@ let ghost a0 = self.fast_graph;
                proof {
                    assert(self.fast_graph.edges_bwd@[edge_id as int] == o.edges_bwd@[edge_id as int]);
                    assert(named_bwd(o, gx, edge_id as int));
                    lemma_first(o.edges_bwd@, o.first_edge_ids_bwd@, o.ranks@, o.num_nodes as int, i as int);
                    lemma_same_core(a0, o);
                } @*/
                let c = self.fast_graph.edges_bwd[edge_id].replaced_in_edge;
                if c == INVALID_NODE {
                    self.fast_graph.edges_bwd[edge_id].replaced_in_edge = INVALID_EDGE;
                    debug_assert_eq!(
                        INVALID_EDGE,
                        self.fast_graph.edges_bwd[edge_id].replaced_out_edge
                    );
                } else {
                    self.fast_graph.edges_bwd[edge_id].replaced_in_edge =
                        self.get_in_edge_id(c, self.fast_graph.edges_bwd[edge_id].adj_node);
                    self.fast_graph.edges_bwd[edge_id].replaced_out_edge =
                        self.get_out_edge_id(c, i);
                }
                /*@ proof {
                    let a = self.fast_graph;
                    assert(link_bwd(o, a, edge_id as int));
                    assert forall|e: int| 0 <= e < o.edges_fwd.len() implies #[trigger] link_fwd(o, a, e) by { assert(link_fwd(o, a0, e)); }
                    assert forall|e: int| 0 <= e < o.edges_bwd.len() && (o.edges_bwd@[e].base_node < i || (o.edges_bwd@[e].base_node == i && e <= edge_id)) implies #[trigger] link_bwd(o, a, e) by {
                        if e != edge_id { assert(link_bwd(o, a0, e)); }
                    }
                } @*/
            }
        }
        /*@ proof {
            assert forall|e: int| 0 <= e < o.edges_bwd.len() implies #[trigger] link_bwd(o, self.fast_graph, e) by {
                assert(named_bwd(o, gx, e));
            }
            lemma_finished(o, self.fast_graph, gx);
            assert forall|g0: Gr| #[trigger] complete(o, g0) implies self.fast_graph.represents(g0) by { lemma_finished(o, self.fast_graph, g0); }
        } @*/
    }

    fn get_out_edge_id(&self, node: NodeId, adj_node: NodeId) -> EdgeId /*@
        requires node < self.fast_graph.num_nodes, exists|o: FastGraph| #[trigger] layered(o) && same_core(self.fast_graph, o)
            && exists|k: int| 0 <= k < o.edges_fwd.len() && (#[trigger] o.edges_fwd@[k]).base_node == node && o.edges_fwd@[k].adj_node == adj_node,
        ensures res < self.fast_graph.edges_fwd.len(), self.fast_graph.edges_fwd@[res as int].base_node == node, self.fast_graph.edges_fwd@[res as int].adj_node == adj_node, // [C02]
    @*/ {
        /*@ let ghost o = choose|o: FastGraph| #[trigger] layered(o) && same_core(self.fast_graph, o)
            && exists|k: int| 0 <= k < o.edges_fwd.len() && (#[trigger] o.edges_fwd@[k]).base_node == node && o.edges_fwd@[k].adj_node == adj_node;
        let ghost w = choose|k: int| 0 <= k < o.edges_fwd.len() && (#[trigger] o.edges_fwd@[k]).base_node == node && o.edges_fwd@[k].adj_node == adj_node;
        proof {
            lemma_same_core(self.fast_graph, o);
            assert(core(self.fast_graph.edges_fwd@[w], o.edges_fwd@[w]));
            lemma_first(self.fast_graph.edges_fwd@, self.fast_graph.first_edge_ids_fwd@, self.fast_graph.ranks@, self.fast_graph.num_nodes as int, node as int);
        } @*/
        for edge_id in self.fast_graph.begin_out_edges(node)..self.fast_graph.end_out_edges(node) /*@
            invariant vp_st1 == self.fast_graph.first_edge_ids_fwd@[self.fast_graph.ranks@[node as int] as int],
                vp_end1 == self.fast_graph.first_edge_ids_fwd@[self.fast_graph.ranks@[node as int] + 1], vp_st1 <= vp_end1 <= self.fast_graph.edges_fwd.len(),
                forall|k: int| vp_st1 <= k < vp_it1 ==> (#[trigger] self.fast_graph.edges_fwd@[k]).adj_node != adj_node,
        @*/ {
            if self.fast_graph.edges_fwd[edge_id].adj_node == adj_node {
                return edge_id;
            }
        }
        panic!("could not find out-edge id")
    }

    fn get_in_edge_id(&self, node: NodeId, adj_node: NodeId) -> EdgeId /*@
        requires node < self.fast_graph.num_nodes, exists|o: FastGraph| #[trigger] layered(o) && same_core(self.fast_graph, o)
            && exists|k: int| 0 <= k < o.edges_bwd.len() && (#[trigger] o.edges_bwd@[k]).base_node == node && o.edges_bwd@[k].adj_node == adj_node,
        ensures res < self.fast_graph.edges_bwd.len(), self.fast_graph.edges_bwd@[res as int].base_node == node, self.fast_graph.edges_bwd@[res as int].adj_node == adj_node, // [C02]
    @*/ {
        /*@ let ghost o = choose|o: FastGraph| #[trigger] layered(o) && same_core(self.fast_graph, o)
            && exists|k: int| 0 <= k < o.edges_bwd.len() && (#[trigger] o.edges_bwd@[k]).base_node == node && o.edges_bwd@[k].adj_node == adj_node;
        let ghost w = choose|k: int| 0 <= k < o.edges_bwd.len() && (#[trigger] o.edges_bwd@[k]).base_node == node && o.edges_bwd@[k].adj_node == adj_node;
        proof {
            lemma_same_core(self.fast_graph, o);
            assert(core(self.fast_graph.edges_bwd@[w], o.edges_bwd@[w]));
            lemma_first(self.fast_graph.edges_bwd@, self.fast_graph.first_edge_ids_bwd@, self.fast_graph.ranks@, self.fast_graph.num_nodes as int, node as int);
        } @*/
        for edge_id in self.fast_graph.begin_in_edges(node)..self.fast_graph.end_in_edges(node) /*@
            invariant vp_st1 == self.fast_graph.first_edge_ids_bwd@[self.fast_graph.ranks@[node as int] as int],
                vp_end1 == self.fast_graph.first_edge_ids_bwd@[self.fast_graph.ranks@[node as int] + 1], vp_st1 <= vp_end1 <= self.fast_graph.edges_bwd.len(),
                forall|k: int| vp_st1 <= k < vp_it1 ==> (#[trigger] self.fast_graph.edges_bwd@[k]).adj_node != adj_node,
        @*/ {
            if self.fast_graph.edges_bwd[edge_id].adj_node == adj_node {
                return edge_id;
            }
        }
        panic!("could not find in-edge id")
    }
}

pub struct Params {
    pub hierarchy_depth_factor: f32,
    pub edge_quotient_factor: f32,
    pub max_settled_nodes_initial_relevance: usize,
    pub max_settled_nodes_neighbor_relevance: usize,
    pub max_settled_nodes_contraction: usize,
}

impl Params {
    pub fn new(
        ratio: f32,
        max_settled_nodes_initial_relevance: usize,
        max_settled_nodes_neighbor_relevance: usize,
        max_settled_nodes_contraction: usize,
    ) -> Self {
        Params {
            hierarchy_depth_factor: ratio,
            edge_quotient_factor: 1.0,
            max_settled_nodes_initial_relevance,
            max_settled_nodes_neighbor_relevance,
            max_settled_nodes_contraction,
        }
    }

    pub fn default() -> Self {
        Params::new(0.1, 500, 100, 500)
    }
}

pub struct ParamsWithOrder {
    pub max_settled_nodes_contraction_with_order: usize,
}

impl ParamsWithOrder {
    pub fn new(max_settled_nodes_contraction_with_order: usize) -> Self {
        ParamsWithOrder {
            max_settled_nodes_contraction_with_order,
        }
    }

    pub fn default() -> Self {
        ParamsWithOrder::new(100)
    }
}

