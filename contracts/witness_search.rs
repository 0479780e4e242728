use std::collections::BinaryHeap;

use crate::constants::Weight;
use crate::constants::{NodeId, INVALID_NODE, WEIGHT_MAX, WEIGHT_ZERO};
use crate::heap_item::HeapItem;
use crate::preparation_graph::PreparationGraph;
use crate::valid_flags::ValidFlags;

/*@
use vstd::multiset::*;
use crate::spec_graph::*;
use crate::spec_prep::*;
use crate::preparation_graph::*;

impl WitnessSearch {
    pub open spec fn wf(&self) -> bool {
        &&& self.data.len() == self.num_nodes
        &&& self.valid_flags.wf()
        &&& self.valid_flags.len() == self.num_nodes
    }
    // a search from start_node is under way
    pub open spec fn live(&self) -> bool {
        &&& self.wf()
        &&& self.start_node < self.num_nodes
        &&& self.start_node != self.avoid_node
    }
    pub open spec fn near(&self, g: Gr, v: usize, w: usize) -> bool {
        v < self.num_nodes && v != self.avoid_node && w < wmax() && dle(minus(g, self.avoid_node), self.start_node, v, w as int)
    }
    // labels and heap entries are weights of routes that avoid the avoided node
    #[verifier::opaque]
    pub open spec fn labels(&self, g: Gr) -> bool {
        &&& forall|v: usize| v < self.num_nodes && #[trigger] self.valid_flags.valid(v as int) ==> self.near(g, v, self.data@[v as int].weight)
        &&& forall|it: HeapItem| #[trigger] hv(&self.heap).contains(it) ==> self.near(g, it.node_id, it.weight)
    }
    pub open spec fn same(&self, o: WitnessSearch) -> bool {
        self.num_nodes == o.num_nodes && self.start_node == o.start_node && self.avoid_node == o.avoid_node
    }
}
// what has been found stays true in a graph with more and shorter edges
pub proof fn lemma_labels_keep(s: WitnessSearch, g: Gr, h: Gr)
    requires s.labels(g), dominated(g, h), positive(g),
    ensures s.labels(h),
{
    reveal(WitnessSearch::labels);
    lemma_dominated(g, h, s.avoid_node);
    let a = minus(g, s.avoid_node);
    let b = minus(h, s.avoid_node);
    assert forall|v: usize, w: usize| #[trigger] s.near(g, v, w) implies s.near(h, v, w) by {
        lemma_dle_sim(a, b, s.start_node, v, w as int);
    }
}
@*/
pub struct WitnessSearch {
    num_nodes: usize,
    data: Vec<Data>,
    valid_flags: ValidFlags,
    heap: BinaryHeap<HeapItem>,
    start_node: NodeId,
    avoid_node: NodeId,
    settled_nodes: usize,
}

impl WitnessSearch {
    pub fn new(num_nodes: usize) -> Self /*@
        ensures res.wf(), res.num_nodes == num_nodes,
    @*/ {
        let heap = BinaryHeap::new();
        WitnessSearch {
            num_nodes,
            data: (0..num_nodes).map(|_i| /*@ invariant vp_cc0.len() == vp_itc0, vp_stc0 == 0, vp_endc0 == num_nodes, @*/ Data::new()).collect(),
            valid_flags: ValidFlags::new(num_nodes),
            heap,
            start_node: INVALID_NODE,
            avoid_node: INVALID_NODE,
            settled_nodes: 0,
        }
    }
    pub fn init(&mut self, start: NodeId, avoid_node: NodeId) /*@
        requires old(self).wf(), start < old(self).num_nodes, start < INVALID_NODE, start != avoid_node,
        ensures final(self).live(), final(self).num_nodes == old(self).num_nodes, final(self).start_node == start, final(self).avoid_node == avoid_node,
            forall|g: Gr| #[trigger] final(self).labels(g), // [C05]
    @*/ {
        assert_ne!(start, INVALID_NODE, "the start node must be valid");
        assert_ne!(
            start, avoid_node,
            "path calculation must not start with avoided node"
        );
        self.start_node = start;
        self.avoid_node = avoid_node;

        self.heap.clear();
        self.valid_flags.invalidate_all();
        self.update_node(start, 0);
        self.heap.push(HeapItem::new(0, start));
        self.settled_nodes = 0;
        /*@ proof {
            reveal(WitnessSearch::labels);
            assert forall|g: Gr| #[trigger] self.labels(g) by {
                lemma_dle_refl(minus(g, avoid_node), start, 0);
            }
        } @*/
    }
    pub fn find_max_weight(
        &mut self,
        graph: &PreparationGraph,
        target: NodeId,
        weight_limit: Weight,
        settled_nodes_limit: usize,
    ) -> Weight /*@
        requires old(self).live(), graph.wf(), graph.num_nodes == old(self).num_nodes, target < graph.num_nodes, target != old(self).avoid_node,
            old(self).start_node != INVALID_NODE, old(self).labels(graph.gr()),
        ensures final(self).live(), final(self).same(*old(self)), final(self).labels(graph.gr()),
            target == old(self).start_node ==> res == 0,
            res == WEIGHT_MAX || dle(minus(graph.gr(), old(self).avoid_node), old(self).start_node, target, res as int), // [C05]
    @*/ {
        /*@ proof {
            lemma_dle_refl(minus(graph.gr(), self.avoid_node), self.start_node, 0);
            assert(self.valid_flags.valid(target as int) ==> self.near(graph.gr(), target, self.data@[target as int].weight)) by { reveal(WitnessSearch::labels); }
        } @*/
        assert_eq!(
            graph.get_num_nodes(),
            self.num_nodes,
            "given graph has invalid node count"
        );
        assert_ne!(
            self.start_node, INVALID_NODE,
            "the start node must be valid, call init() before find_max_weight()"
        );
        assert!(
            self.start_node != self.avoid_node && target != self.avoid_node,
            "path calculation must not start or end with avoided node"
        );
        if target == self.start_node {
            return WEIGHT_ZERO;
        }
        if self.valid_flags.is_valid(target)
            && (self.data[target].settled || self.data[target].weight <= weight_limit)
        {
            return self.data[target].weight;
        }
        while !self.heap.is_empty() /*@
            invariant self.live(), self.same(*old(self)), self.labels(graph.gr()),
                graph.wf(), graph.num_nodes == self.num_nodes, target < graph.num_nodes, target != self.avoid_node,
            decreases settled_nodes_limit - self.settled_nodes, hv(&self.heap).len(),
        @*/ {
            if self.settled_nodes >= settled_nodes_limit {
                break;
            }
            let curr = *self.heap.peek().unwrap();
            if curr.weight > weight_limit {
                break;
            }
            /*@ let ghost s0 = *self;
            proof { assert(self.near(graph.gr(), curr.node_id, curr.weight)) by { reveal(WitnessSearch::labels); } } @*/
            self.heap.pop();
            /*@ proof {
                assert(self.labels(graph.gr())) by {
                    reveal(WitnessSearch::labels);
                    assert forall|v: usize| v < self.num_nodes && #[trigger] self.valid_flags.valid(v as int) implies self.near(graph.gr(), v, self.data@[v as int].weight) by {
                        assert(s0.valid_flags.valid(v as int));
                        assert(s0.near(graph.gr(), v, s0.data@[v as int].weight));
                    }
                    assert forall|it: HeapItem| #[trigger] hv(&self.heap).contains(it) implies self.near(graph.gr(), it.node_id, it.weight) by {
                        assert(hv(&s0.heap).contains(it)); assert(s0.near(graph.gr(), it.node_id, it.weight));
                    }
                }
            } @*/
            if self.is_settled(curr.node_id) {
                continue;
            }
            let mut found_target = false;
            /*@ let ghost s1 = *self; @*/
            for i in 0..graph.out_edges[curr.node_id].len() /*@
                invariant self.live(), self.same(*old(self)), self.labels(graph.gr()), self.settled_nodes == s1.settled_nodes,
                    graph.wf(), graph.num_nodes == self.num_nodes, self.near(graph.gr(), curr.node_id, curr.weight),
                    vp_st1 == 0, vp_end1 == graph.out_edges@[curr.node_id as int].len(),
            @*/ {
                /*@ proof { lemma_out_at(*graph, curr.node_id, i as int); } @*/
                let adj = graph.out_edges[curr.node_id][i].adj_node;
                if adj == self.avoid_node {
                    continue;
                }
                let edge_weight = graph.out_edges[curr.node_id][i].weight;
                let weight = curr.weight.saturating_add(edge_weight);
                if weight < self.get_current_weight(adj) {
                    /*@ let ghost s2 = *self;
                    proof {
                        let m = minus(graph.gr(), self.avoid_node);
                        let a = graph.out_edges@[curr.node_id as int]@[i as int];
                        let k = lemma_has(*graph, curr.node_id, adj, a.weight, a.center_node);
                        assert(m.contains((curr.node_id, adj, edge_weight as int)));
                        lemma_dle_push(m, self.start_node, curr.node_id, adj, curr.weight as int, edge_weight as int);
                        assert(self.near(graph.gr(), adj, weight));
                    } @*/
                    self.update_node(adj, weight);
                    self.heap.push(HeapItem::new(weight, adj));
                    /*@ proof {
                        assert(self.labels(graph.gr())) by {
                            reveal(WitnessSearch::labels);
                            assert forall|it: HeapItem| #[trigger] hv(&self.heap).contains(it) implies self.near(graph.gr(), it.node_id, it.weight) by {
                                if it != (HeapItem { weight: weight, node_id: adj }) { assert(hv(&s2.heap).contains(it)); assert(s2.near(graph.gr(), it.node_id, it.weight)); }
                            }
                            assert forall|v: usize| v < self.num_nodes && #[trigger] self.valid_flags.valid(v as int) implies self.near(graph.gr(), v, self.data@[v as int].weight) by {
                                if v != adj { assert(s2.valid_flags.valid(v as int)); assert(s2.near(graph.gr(), v, s2.data@[v as int].weight)); }
                            }
                        }
                    } @*/
                    if adj == target && weight <= weight_limit {
                        found_target = true;
                    }
                }
            }
            /*@ let ghost s3 = *self; @*/
            self.data[curr.node_id].settled = true;
            self.settled_nodes += 1;
            /*@ proof {
                assert(self.labels(graph.gr())) by {
                    reveal(WitnessSearch::labels);
                    assert forall|v: usize| v < self.num_nodes && #[trigger] self.valid_flags.valid(v as int) implies self.near(graph.gr(), v, self.data@[v as int].weight) by {
                        assert(s3.valid_flags.valid(v as int));
                        assert(s3.near(graph.gr(), v, s3.data@[v as int].weight));
                    }
                    assert forall|it: HeapItem| #[trigger] hv(&self.heap).contains(it) implies self.near(graph.gr(), it.node_id, it.weight) by {
                        assert(hv(&s3.heap).contains(it)); assert(s3.near(graph.gr(), it.node_id, it.weight));
                    }
                }
            } @*/
            if found_target || curr.node_id == target {
                break;
            }
        }
        /*@ proof {
            assert(self.valid_flags.valid(target as int) ==> self.near(graph.gr(), target, self.data@[target as int].weight)) by { reveal(WitnessSearch::labels); }
        } @*/
        self.get_current_weight(target)
    }

    fn update_node(&mut self, node: NodeId, weight: Weight) /*@
        requires old(self).wf(), node < old(self).num_nodes,
        ensures final(self).wf(), final(self).same(*old(self)), hv(&final(self).heap) == hv(&old(self).heap), final(self).settled_nodes == old(self).settled_nodes,
            final(self).valid_flags.valid(node as int), final(self).data@[node as int].weight == weight, final(self).data.len() == old(self).data.len(),
            forall|i: int| 0 <= i < old(self).num_nodes && i != node ==> #[trigger] final(self).valid_flags.valid(i) == old(self).valid_flags.valid(i),
            forall|i: int| 0 <= i < old(self).num_nodes && i != node ==> #[trigger] final(self).data@[i] == old(self).data@[i],
    @*/ {
        self.valid_flags.set_valid(node);
        self.data[node].settled = false;
        self.data[node].weight = weight;
    }

    fn is_settled(&self, node: NodeId) -> bool /*@
        requires self.wf(), node < self.num_nodes,
    @*/ {
        self.valid_flags.is_valid(node) && self.data[node].settled
    }

    fn get_current_weight(&self, node: NodeId) -> Weight /*@
        requires self.wf(), node < self.num_nodes,
        ensures res == if self.valid_flags.valid(node as int) { self.data@[node as int].weight } else { WEIGHT_MAX },
    @*/ {
        if self.valid_flags.is_valid(node) {
            self.data[node].weight
        } else {
            WEIGHT_MAX
        }
    }
}

struct Data {
    settled: bool,
    weight: Weight,
}

impl Data {
    fn new() -> Self {
        Data {
            settled: false,
            weight: WEIGHT_MAX,
        }
    }
}

