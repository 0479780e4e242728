use std::collections::BinaryHeap;

use crate::constants::Weight;
use crate::constants::INVALID_EDGE;
use crate::constants::INVALID_NODE;
use crate::constants::WEIGHT_MAX;
use crate::constants::{EdgeId, NodeId};
use crate::fast_graph::FastGraph;
use crate::heap_item::HeapItem;
use crate::shortest_path::ShortestPath;
use crate::valid_flags::ValidFlags;

/*@
use crate::spec_graph::*;
use crate::spec_query::*;
use crate::fast_graph::*;
use vstd::multiset::*;

impl PathCalculator {
    pub open spec fn wf(&self) -> bool {
        &&& self.data_fwd.len() == self.num_nodes
        &&& self.data_bwd.len() == self.num_nodes
        &&& self.valid_flags_fwd.wf() && self.valid_flags_fwd.len() == self.num_nodes
        &&& self.valid_flags_bwd.wf() && self.valid_flags_bwd.len() == self.num_nodes
    }
    pub open spec fn stf(&self) -> St {
        St { d1: self.data_fwd@, f1: self.valid_flags_fwd, h1: hv(&self.heap_fwd), d2: self.data_bwd@, f2: self.valid_flags_bwd, h2: hv(&self.heap_bwd) }
    }
    pub open spec fn stb(&self) -> St { swap(self.stf()) }
    pub open spec fn same_bwd(&self, o: PathCalculator) -> bool {
        self.num_nodes == o.num_nodes && self.data_bwd == o.data_bwd && self.valid_flags_bwd == o.valid_flags_bwd && self.heap_bwd == o.heap_bwd
    }
    pub open spec fn same_fwd(&self, o: PathCalculator) -> bool {
        self.num_nodes == o.num_nodes && self.data_fwd == o.data_fwd && self.valid_flags_fwd == o.valid_flags_fwd && self.heap_fwd == o.heap_fwd
    }
}

// what an edge contributes to the node list when the list grows away from (reverse) or along the path
pub open spec fn dexp(g: FastGraph, fwd: bool, k: int, reverse: bool) -> Seq<usize> {
    if reverse { exp(g, fwd, k).reverse() } else { exp(g, fwd, k) }
}

// what the edges on the stack still contribute, top first
pub open spec fn pending(g: FastGraph, st: Seq<(usize, bool)>, reverse: bool) -> Seq<usize>
    decreases st.len(),
{
    if st.len() == 0 { seq![] } else { dexp(g, st.last().1, st.last().0 as int, reverse) + pending(g, st.drop_last(), reverse) }
}

pub open spec fn on_stack(g: FastGraph, x: (usize, bool)) -> bool {
    x.0 < (if x.1 { g.edges_fwd.len() } else { g.edges_bwd.len() })
}
pub open spec fn stack_ok(g: FastGraph, st: Seq<(usize, bool)>) -> bool {
    forall|j: int| 0 <= j < st.len() ==> on_stack(g, #[trigger] st[j])
}

pub proof fn lemma_exp_len(g: FastGraph, fwd: bool, k: int)
    requires g.wf(), 0 <= k, fwd ==> k < g.edges_fwd.len(), !fwd ==> k < g.edges_bwd.len(),
    ensures exp(g, fwd, k).len() >= 1,
    decreases (if fwd { g.ranks@[g.edges_fwd@[k].base_node as int] } else { g.ranks@[g.edges_bwd@[k].base_node as int] }),
{
    let e = if fwd { g.edges_fwd@[k] } else { g.edges_bwd@[k] };
    if fwd { assert(sc_fwd(g, k)); } else { assert(sc_bwd(g, k)); }
    if e.replaced_in_edge != INVALID_EDGE {
        lemma_exp_len(g, false, e.replaced_in_edge as int);
    }
}

pub proof fn lemma_pending_len(g: FastGraph, st: Seq<(usize, bool)>, reverse: bool)
    requires g.wf(), stack_ok(g, st),
    ensures pending(g, st, reverse).len() >= st.len(),
    decreases st.len(),
{
    if st.len() > 0 {
        let t = st.drop_last();
        assert(on_stack(g, st[st.len() - 1]));
        assert forall|j: int| 0 <= j < t.len() implies on_stack(g, #[trigger] t[j]) by { assert(t[j] == st[j]); }
        lemma_pending_len(g, t, reverse);
        lemma_exp_len(g, st.last().1, st.last().0 as int);
    }
}

pub proof fn lemma_pending_push(g: FastGraph, st: Seq<(usize, bool)>, x: (usize, bool), reverse: bool)
    ensures pending(g, st.push(x), reverse) == dexp(g, x.1, x.0 as int, reverse) + pending(g, st, reverse),
{
    assert(st.push(x).drop_last() =~= st);
}

pub proof fn lemma_pending_one(g: FastGraph, k: usize, fwd: bool, reverse: bool, st: Seq<(usize, bool)>)
    requires st == seq![(k, fwd)],
    ensures pending(g, st, reverse) == dexp(g, fwd, k as int, reverse),
{
    lemma_pending_push(g, seq![], (k, fwd), reverse);
    assert(Seq::<(usize, bool)>::empty().push((k, fwd)) =~= st);
    assert(dexp(g, fwd, k as int, reverse) + pending(g, seq![], reverse) =~= dexp(g, fwd, k as int, reverse));
}

proof fn lemma_concat_rev(a: Seq<usize>, b: Seq<usize>, p: Seq<usize>)
    ensures (a + b) + p == a + (b + p), (a + b).reverse() + p == b.reverse() + (a.reverse() + p),
{
    assert((a + b) + p =~= a + (b + p));
    assert((a + b).reverse() =~= b.reverse() + a.reverse());
    assert((b.reverse() + a.reverse()) + p =~= b.reverse() + (a.reverse() + p));
}
proof fn lemma_concat_one(ns: Seq<usize>, z: usize, p: Seq<usize>)
    ensures ns + (seq![z] + p) == ns.push(z) + p, seq![z].reverse() == seq![z],
{
    assert(ns + (seq![z] + p) =~= ns.push(z) + p);
    assert(seq![z].reverse() =~= seq![z]);
}
proof fn lemma_stack_push2(g: FastGraph, st: Seq<(usize, bool)>, x: (usize, bool), y: (usize, bool))
    requires stack_ok(g, st), on_stack(g, x), on_stack(g, y),
    ensures stack_ok(g, st.push(x).push(y)),
{
    let q = st.push(x).push(y);
    assert forall|j: int| 0 <= j < q.len() implies on_stack(g, #[trigger] q[j]) by {
        if j < st.len() { assert(q[j] == st[j]); }
    }
}

// taking one edge off the stack: a plain edge yields its node, a shortcut is replaced by its two halves
pub proof fn lemma_pending_step(g: FastGraph, st: Seq<(usize, bool)>, k: usize, fwd: bool, reverse: bool, ns: Seq<usize>)
    requires g.wf(), stack_ok(g, st), on_stack(g, (k, fwd)),
    ensures ({
        let e = if fwd { g.edges_fwd@[k as int] } else { g.edges_bwd@[k as int] };
        let i = e.replaced_in_edge;
        let o = e.replaced_out_edge;
        let z = if fwd { e.base_node } else { e.adj_node };
        let all = ns + pending(g, st.push((k, fwd)), reverse);
        &&& (i == INVALID_EDGE) == (o == INVALID_EDGE)
        &&& i == INVALID_EDGE ==> all == ns.push(z) + pending(g, st, reverse) && pending(g, st.push((k, fwd)), reverse).len() == 1 + pending(g, st, reverse).len()
        &&& i != INVALID_EDGE && reverse ==> stack_ok(g, st.push((i, false)).push((o, true)))
            && pending(g, st.push((k, fwd)), reverse) == pending(g, st.push((i, false)).push((o, true)), reverse)
        &&& i != INVALID_EDGE && !reverse ==> stack_ok(g, st.push((o, true)).push((i, false)))
            && pending(g, st.push((k, fwd)), reverse) == pending(g, st.push((o, true)).push((i, false)), reverse)
    }),
{
    hide(stack_ok);
    let e = if fwd { g.edges_fwd@[k as int] } else { g.edges_bwd@[k as int] };
    let i = e.replaced_in_edge;
    let o = e.replaced_out_edge;
    let p = pending(g, st, reverse);
    if fwd { assert(sc_fwd(g, k as int)); } else { assert(sc_bwd(g, k as int)); }
    lemma_pending_push(g, st, (k, fwd), reverse);
    if i != INVALID_EDGE {
        let a = exp(g, false, i as int);
        let b = exp(g, true, o as int);
        assert(exp(g, fwd, k as int) == a + b);
        lemma_concat_rev(a, b, p);
        if reverse {
            lemma_stack_push2(g, st, (i, false), (o, true));
            lemma_pending_push(g, st, (i, false), reverse);
            lemma_pending_push(g, st.push((i, false)), (o, true), reverse);
        } else {
            lemma_stack_push2(g, st, (o, true), (i, false));
            lemma_pending_push(g, st, (o, true), reverse);
            lemma_pending_push(g, st.push((o, true)), (i, false), reverse);
        }
    } else {
        let z = if fwd { e.base_node } else { e.adj_node };
        assert(exp(g, fwd, k as int) == seq![z]);
        lemma_concat_one(ns, z, p);
    }
}

@*/
pub struct PathCalculator {
    num_nodes: usize,
    data_fwd: Vec<Data>,
    data_bwd: Vec<Data>,
    valid_flags_fwd: ValidFlags,
    valid_flags_bwd: ValidFlags,
    heap_fwd: BinaryHeap<HeapItem>,
    heap_bwd: BinaryHeap<HeapItem>,
}

impl PathCalculator {
    pub fn new(num_nodes: usize) -> Self /*@
        ensures res.wf(), res.num_nodes == num_nodes, // [C04]
    @*/ {
        PathCalculator {
            num_nodes,
            data_fwd: (0..num_nodes).map(|_i| /*@ invariant vp_cc0.len() == vp_itc0, @*/ Data::new()).collect(),
            data_bwd: (0..num_nodes).map(|_i| /*@ invariant vp_cc1.len() == vp_itc1, @*/ Data::new()).collect(),
            valid_flags_fwd: ValidFlags::new(num_nodes),
            valid_flags_bwd: ValidFlags::new(num_nodes),
            heap_fwd: BinaryHeap::new(),
            heap_bwd: BinaryHeap::new(),
        }
    }

    pub fn calc_path(
        &mut self,
        graph: &FastGraph,
        start: NodeId,
        end: NodeId,
    ) -> Option<ShortestPath> /*@
        requires old(self).wf(), graph.ok(),
            vp_ok ==> graph.num_nodes == old(self).num_nodes && start < graph.num_nodes && end < graph.num_nodes,
        ensures
            graph.num_nodes == old(self).num_nodes, start < graph.num_nodes, end < graph.num_nodes, // [C13]
            final(self).wf(), final(self).num_nodes == old(self).num_nodes, // [C04]
            res is None ==> forall|d: int| d < wmax() ==> !#[trigger] dle(graph.base(), start, end, d), // [C01]
            res is Some ==> res->0.weight < wmax() && forall|d: int| #[trigger] dle(graph.base(), start, end, d) ==> res->0.weight <= d, // [C01]
            res is Some ==> res->0.source == start && res->0.target == end && walk(graph.base(), res->0.nodes@, res->0.weight as int)
                && res->0.nodes@[0] == start && res->0.nodes@.last() == end && res->0.nodes.len() >= 1, // [C02]
    @*/ {
        /*@ broadcast use vstd::std_specs::vec::group_vec_axioms;
        proof {
            let s = seq![(start, 0usize)];
            let t = seq![(end, 0usize)];
            assert forall|a: Vec<(usize, usize)>| a.len() == 1 && a@[0] == (start, 0usize) implies #[trigger] a@ == s by { assert(a@ =~= s); }
            assert forall|a: Vec<(usize, usize)>| a.len() == 1 && a@[0] == (end, 0usize) implies #[trigger] a@ == t by { assert(a@ =~= t); }
            assert forall|d: int| #[trigger] dle(graph.base(), start, end, d) implies total(graph.base(), s, t, d) by {
                assert(dle(graph.base(), s[0].0, t[0].0, d - s[0].1 - t[0].1));
            }
        } @*/
        self.calc_path_multiple_sources_and_targets(graph, vec![(start, 0)], vec![(end, 0)])
    }

    pub fn calc_path_multiple_sources_and_targets(
        &mut self,
        graph: &FastGraph,
        starts: Vec<(NodeId, Weight)>,
        ends: Vec<(NodeId, Weight)>,
    ) -> Option<ShortestPath> /*@
        requires old(self).wf(), graph.ok(),
            vp_ok ==> graph.num_nodes == old(self).num_nodes && starts.len() > 0 && ends.len() > 0
                && (forall|i: int| 0 <= i < starts.len() ==> (#[trigger] starts@[i]).0 < graph.num_nodes)
                && (forall|i: int| 0 <= i < ends.len() ==> (#[trigger] ends@[i]).0 < graph.num_nodes),
        ensures
            graph.num_nodes == old(self).num_nodes, starts.len() > 0, ends.len() > 0, // [C13]
            forall|i: int| 0 <= i < starts.len() ==> (#[trigger] starts@[i]).0 < graph.num_nodes, // [C13]
            forall|i: int| 0 <= i < ends.len() ==> (#[trigger] ends@[i]).0 < graph.num_nodes, // [C13]
            final(self).wf(), final(self).num_nodes == old(self).num_nodes, // [C04]
            res is None ==> forall|d: int| d < wmax() ==> !#[trigger] total(graph.base(), starts@, ends@, d), // [C03][C01][C11]
            res is Some ==> res->0.weight < wmax() && forall|d: int| #[trigger] total(graph.base(), starts@, ends@, d) ==> res->0.weight <= d, // [C03][C01][C11]
            res is Some ==> res->0.nodes.len() >= 1 && res->0.source == res->0.nodes@[0] && res->0.target == res->0.nodes@.last(), // [C02]
            res is Some ==> route(graph.base(), starts@, ends@, res->0.nodes@, res->0.weight as int), // [C02][C03]
    @*/ {
        /*@ let ghost n = graph.num_nodes as int;
            let ghost ss = starts@;
            let ghost ts = ends@;
        @*/
        assert_eq!(
            graph.get_num_nodes(),
            self.num_nodes,
            "given graph has invalid node count"
        );
        assert!(!starts.is_empty(), "there has to be at least one start");
        assert!(!ends.is_empty(), "there has to be at least one end");
        for (start_node, _) in &starts /*@
            invariant forall|i: int| 0 <= i < vp_it1 ==> (#[trigger] ss[i]).0 < self.num_nodes,
        @*/ {
            assert!(*start_node < self.num_nodes, "invalid start node");
        }
        for (end_node, _) in &ends /*@
            invariant forall|i: int| 0 <= i < vp_it1 ==> (#[trigger] ts[i]).0 < self.num_nodes,
        @*/ {
            assert!(*end_node < self.num_nodes, "invalid end node");
        }
        self.heap_fwd.clear();
        self.heap_bwd.clear();
        self.valid_flags_fwd.invalidate_all();
        self.valid_flags_bwd.invalidate_all();
        /*@ let ghost ef = env_fwd(*graph, ss);
            let ghost eb = env_bwd(*graph, ts);
            proof {
                lemma_envs(*graph, ss, ts);
                lemma_seed_init(ef, self.data_fwd@, self.valid_flags_fwd);
                lemma_seed_init(eb, self.data_bwd@, self.valid_flags_bwd);
            }
        @*/

        let mut best_weight = WEIGHT_MAX;
        let mut meeting_node = INVALID_NODE;

        for (start_node, start_weight) in &starts /*@
            invariant direct(ss, ts, n, meeting_node, best_weight),
        @*/ {
            for (end_node, end_weight) in &ends /*@
                invariant direct(ss, ts, n, meeting_node, best_weight),
            @*/ {
                if *start_node == *end_node
                    && *start_weight < WEIGHT_MAX
                    && *end_weight < WEIGHT_MAX
                    && start_weight.saturating_add(*end_weight) < best_weight
                {
                    best_weight = start_weight.saturating_add(*end_weight);
                    meeting_node = *end_node;
                    /*@ proof { assert(ss[vp_it1 - 1].0 == meeting_node && ts[vp_it2 - 1].0 == meeting_node); } @*/
                }
            }
        }

        /*@ let ghost sq_fwd = *self; @*/
        for (node, weight) in starts /*@
            invariant
                self.wf(), self.num_nodes == n, vp_v1@ == ss, self.same_bwd(sq_fwd),
                seeding(ef, self.data_fwd@, self.valid_flags_fwd, hv(&self.heap_fwd), vp_it1 as int), // [C04][C01][C02][C03][C11]
        @*/ {
            /*@ let ghost s0 = *self;
                let ghost mut upd = false;
                proof { assert(ef.srcs[vp_it1 - 1].0 == node && ef.srcs[vp_it1 - 1].1 == weight); }
            @*/
            if weight < self.get_weight_fwd(node) {
                // this is a bit of a hack, we store the start node as parent even though it is not
                // the parent. this way we can easily obtain the target node when we unpack the path
                // later
                self.update_node_fwd(node, weight, node, INVALID_EDGE);
                self.heap_fwd.push(HeapItem::new(weight, node));
                /*@ proof { upd = true; } @*/
            }
            /*@ proof {
                lemma_seed_step(ef, s0.data_fwd@, s0.valid_flags_fwd, hv(&s0.heap_fwd), vp_it1 - 1, upd, self.data_fwd@, self.valid_flags_fwd);
            } @*/
        }
        /*@ let ghost sq_bwd = *self; @*/
        for (node, weight) in ends /*@
            invariant
                self.wf(), self.num_nodes == n, vp_v1@ == ts, self.same_fwd(sq_bwd),
                seeding(eb, self.data_bwd@, self.valid_flags_bwd, hv(&self.heap_bwd), vp_it1 as int), // [C04][C01][C02][C03][C11]
        @*/ {
            /*@ let ghost s0 = *self;
                let ghost mut upd = false;
                proof { assert(eb.srcs[vp_it1 - 1].0 == node && eb.srcs[vp_it1 - 1].1 == weight); }
            @*/
            if weight < self.get_weight_bwd(node) {
                // ... same here
                self.update_node_bwd(node, weight, node, INVALID_EDGE);
                self.heap_bwd.push(HeapItem::new(weight, node));
                /*@ proof { upd = true; } @*/
            }
            /*@ proof {
                lemma_seed_step(eb, s0.data_bwd@, s0.valid_flags_bwd, hv(&s0.heap_bwd), vp_it1 - 1, upd, self.data_bwd@, self.valid_flags_bwd);
            } @*/
        }

        /*@ proof { lemma_start(self.stf(), ef, eb, best_weight, meeting_node); } @*/
        loop /*@
            invariant
                self.wf(), self.num_nodes == n, inv(self.stf(), ef, eb, best_weight as int, meeting_node, -1),
            ensures hv(&self.heap_fwd).len() == 0, hv(&self.heap_bwd).len() == 0,
            decreases sum1(self.stf()) + sum2(self.stf()), hv(&self.heap_fwd).len() + hv(&self.heap_bwd).len(),
        @*/ {
            /*@ proof { lemma_sums(self.stf()); }
                let ghost i0 = *self; @*/
            if self.heap_fwd.is_empty() && self.heap_bwd.is_empty() {
                break;
            }
            loop /*@
                invariant
                    self.wf(), self.num_nodes == n, inv(self.stf(), ef, eb, best_weight as int, meeting_node, -1), self.same_bwd(i0),
                    less1(self.stf(), i0.stf()) || *self == i0,
                ensures
                    less1(self.stf(), i0.stf()) || (*self == i0 && hv(&self.heap_fwd).len() == 0),
                decreases sum1(self.stf()), hv(&self.heap_fwd).len(),
            @*/ {
                /*@ proof { lemma_sums(self.stf()); crate::heap_item::lemma_heap_order(); }
                let ghost l0 = *self; @*/
                if self.heap_fwd.is_empty() {
                    break;
                }
                let curr = self.heap_fwd.pop().unwrap();
                /*@ proof { lemma_step_pop(l0.stf(), self.stf(), ef, eb, best_weight as int, meeting_node, curr); } @*/
                if self.is_settled_fwd(curr.node_id) {
                    continue;
                }
                if curr.weight > best_weight {
                    break;
                }
                // stall on demand optimization
                if self.is_stallable_fwd(graph, curr) {
                    /*@ proof {
                        let k = choose|k: int| #[trigger] stalls(graph.edges_bwd@, self.data_fwd@, self.valid_flags_fwd, curr, k);
                        let e = graph.edges_bwd@[k];
                        lemma_keyed(graph.edges_bwd@, k);
                        assert(ef.full.contains((e.adj_node, e.base_node, e.weight as int)));
                        lemma_step_stall(self.stf(), ef, eb, best_weight as int, meeting_node, curr, e.adj_node, e.weight as int);
                    } @*/
                    continue;
                }
                let begin = graph.begin_out_edges(curr.node_id);
                let end = graph.end_out_edges(curr.node_id);
                /*@ proof { lemma_first(ef.edges, ef.first, ef.ranks, n, curr.node_id as int); } @*/
                for edge_id in begin..end /*@
                    invariant
                        self.wf(), self.num_nodes == n, inv(self.stf(), ef, eb, best_weight as int, meeting_node, curr.node_id as int), self.same_bwd(l0),
                        relaxing(ef, self.data_fwd@, self.valid_flags_fwd, curr, vp_it1 as int),
                        less1(self.stf(), l0.stf()),
                @*/ {
                    /*@ let ghost r0 = *self;
                        let ghost mut upd = false; @*/
                    let adj = graph.edges_fwd[edge_id].adj_node;
                    let edge_weight = graph.edges_fwd[edge_id].weight;
                    let weight = curr.weight.saturating_add(edge_weight);
                    if weight < self.get_weight_fwd(adj) {
                        self.update_node_fwd(adj, weight, curr.node_id, edge_id);
                        self.heap_fwd.push(HeapItem::new(weight, adj));
                        /*@ proof { upd = true; } @*/
                    }
                    /*@ proof { lemma_step_relax(r0.stf(), self.stf(), ef, eb, best_weight as int, meeting_node, curr, vp_it1 - 1, weight, upd); } @*/
                }
                /*@ let ghost t0 = *self; let ghost b0 = best_weight; let ghost m0 = meeting_node; @*/
                self.data_fwd[curr.node_id].settled = true;
                /*@ proof {
                    assert(self.data_fwd@ =~= t0.data_fwd@.update(curr.node_id as int, Data { settled: true, weight: t0.data_fwd@[curr.node_id as int].weight,
                        parent: t0.data_fwd@[curr.node_id as int].parent, inc_edge: t0.data_fwd@[curr.node_id as int].inc_edge }));
                } @*/
                if self.valid_flags_bwd.is_valid(curr.node_id)
                    && curr
                        .weight
                        .saturating_add(self.get_weight_bwd(curr.node_id))
                        < best_weight
                {
                    best_weight = curr
                        .weight
                        .saturating_add(self.get_weight_bwd(curr.node_id));
                    meeting_node = curr.node_id;
                }
                /*@ proof { lemma_step_settle(t0.stf(), self.stf(), ef, eb, b0 as int, m0, curr, best_weight as int, meeting_node); } @*/
                break;
            }

            /*@ let ghost i1 = *self;
                proof { lemma_swap(self.stf(), ef, eb, best_weight as int, meeting_node); } @*/
            loop /*@
                invariant
                    self.wf(), self.num_nodes == n, inv(self.stb(), eb, ef, best_weight as int, meeting_node, -1), self.same_fwd(i1),
                    less1(self.stb(), i1.stb()) || *self == i1,
                ensures
                    less1(self.stb(), i1.stb()) || (*self == i1 && hv(&self.heap_bwd).len() == 0),
                decreases sum1(self.stb()), hv(&self.heap_bwd).len(),
            @*/ {
                /*@ proof { lemma_sums(self.stb()); crate::heap_item::lemma_heap_order(); }
                let ghost l0 = *self; @*/
                if self.heap_bwd.is_empty() {
                    break;
                }
                let curr = self.heap_bwd.pop().unwrap();
                /*@ proof { lemma_step_pop(l0.stb(), self.stb(), eb, ef, best_weight as int, meeting_node, curr); } @*/
                if self.is_settled_bwd(curr.node_id) {
                    continue;
                }
                if curr.weight > best_weight {
                    break;
                }
                // stall on demand optimization
                if self.is_stallable_bwd(graph, curr) {
                    /*@ proof {
                        let k = choose|k: int| #[trigger] stalls(graph.edges_fwd@, self.data_bwd@, self.valid_flags_bwd, curr, k);
                        let e = graph.edges_fwd@[k];
                        lemma_keyed(graph.edges_fwd@, k);
                        assert(eb.full.contains((e.adj_node, e.base_node, e.weight as int)));
                        lemma_step_stall(self.stb(), eb, ef, best_weight as int, meeting_node, curr, e.adj_node, e.weight as int);
                    } @*/
                    continue;
                }
                let begin = graph.begin_in_edges(curr.node_id);
                let end = graph.end_in_edges(curr.node_id);
                /*@ proof { lemma_first(eb.edges, eb.first, eb.ranks, n, curr.node_id as int); } @*/
                for edge_id in begin..end /*@
                    invariant
                        self.wf(), self.num_nodes == n, inv(self.stb(), eb, ef, best_weight as int, meeting_node, curr.node_id as int), self.same_fwd(l0),
                        relaxing(eb, self.data_bwd@, self.valid_flags_bwd, curr, vp_it1 as int),
                        less1(self.stb(), l0.stb()),
                @*/ {
                    /*@ let ghost r0 = *self;
                        let ghost mut upd = false; @*/
                    let adj = graph.edges_bwd[edge_id].adj_node;
                    let edge_weight = graph.edges_bwd[edge_id].weight;
                    let weight = curr.weight.saturating_add(edge_weight);
                    if weight < self.get_weight_bwd(adj) {
                        self.update_node_bwd(adj, weight, curr.node_id, edge_id);
                        self.heap_bwd.push(HeapItem::new(weight, adj));
                        /*@ proof { upd = true; } @*/
                    }
                    /*@ proof { lemma_step_relax(r0.stb(), self.stb(), eb, ef, best_weight as int, meeting_node, curr, vp_it1 - 1, weight, upd); } @*/
                }
                /*@ let ghost t0 = *self; let ghost b0 = best_weight; let ghost m0 = meeting_node; @*/
                self.data_bwd[curr.node_id].settled = true;
                /*@ proof {
                    assert(self.data_bwd@ =~= t0.data_bwd@.update(curr.node_id as int, Data { settled: true, weight: t0.data_bwd@[curr.node_id as int].weight,
                        parent: t0.data_bwd@[curr.node_id as int].parent, inc_edge: t0.data_bwd@[curr.node_id as int].inc_edge }));
                } @*/
                if self.valid_flags_fwd.is_valid(curr.node_id)
                    && curr
                        .weight
                        .saturating_add(self.get_weight_fwd(curr.node_id))
                        < best_weight
                {
                    best_weight = curr
                        .weight
                        .saturating_add(self.get_weight_fwd(curr.node_id));
                    meeting_node = curr.node_id;
                }
                /*@ proof { lemma_step_settle(t0.stb(), self.stb(), eb, ef, b0 as int, m0, curr, best_weight as int, meeting_node); } @*/
                break;
            }
            /*@ proof {
                lemma_swap(self.stb(), eb, ef, best_weight as int, meeting_node);
                lemma_sums(self.stf());
                assert(sum2(i1.stf()) == sum2(i0.stf()));
                assert(sum1(self.stf()) == sum1(i1.stf()));
                assert(sum2(self.stf()) == sum1(self.stb()) && sum2(i1.stf()) == sum1(i1.stb()));
            } @*/
        }

        /*@ proof { lemma_end(*graph, ss, ts, self.stf(), best_weight as int, meeting_node); } @*/
        if meeting_node == INVALID_NODE {
            None
        } else {
            assert!(best_weight < WEIGHT_MAX);
            let nodes = self.extract_nodes(graph, meeting_node);
            assert!(!nodes.is_empty());
            /*@ proof { lemma_route(*graph, ss, ts, self.stf(), best_weight as int, meeting_node, nodes@); } @*/
            Some(ShortestPath::new(
                nodes[0],
                nodes[nodes.len() - 1],
                best_weight,
                nodes,
            ))
        }
    }

    fn is_stallable_fwd(&self, graph: &FastGraph, curr: HeapItem) -> bool /*@
        requires self.wf(), graph.wf(), graph.num_nodes == self.num_nodes, curr.node_id < self.num_nodes,
        ensures res ==> exists|k: int| #[trigger] stalls(graph.edges_bwd@, self.data_fwd@, self.valid_flags_fwd, curr, k),
    @*/ {
        /*@ proof { lemma_first(graph.edges_bwd@, graph.first_edge_ids_bwd@, graph.ranks@, graph.num_nodes as int, curr.node_id as int); } @*/
        let begin = graph.begin_in_edges(curr.node_id);
        let end = graph.end_in_edges(curr.node_id);
        for edge_id in begin..end {
            /*@ proof { assert(graph.edges_bwd@[vp_it1 - 1].base_node == curr.node_id);
                let s = stalls(graph.edges_bwd@, self.data_fwd@, self.valid_flags_fwd, curr, vp_it1 - 1); } @*/
            let adj = graph.edges_bwd[edge_id].adj_node;
            let adj_weight = self.get_weight_fwd(adj);
            if adj_weight == WEIGHT_MAX {
                continue;
            }
            let edge_weight = graph.edges_bwd[edge_id].weight;
            if adj_weight.saturating_add(edge_weight) < curr.weight {
                return true;
            }
        }
        false
    }

    fn is_stallable_bwd(&self, graph: &FastGraph, curr: HeapItem) -> bool /*@
        requires self.wf(), graph.wf(), graph.num_nodes == self.num_nodes, curr.node_id < self.num_nodes,
        ensures res ==> exists|k: int| #[trigger] stalls(graph.edges_fwd@, self.data_bwd@, self.valid_flags_bwd, curr, k),
    @*/ {
        /*@ proof { lemma_first(graph.edges_fwd@, graph.first_edge_ids_fwd@, graph.ranks@, graph.num_nodes as int, curr.node_id as int); } @*/
        let begin = graph.begin_out_edges(curr.node_id);
        let end = graph.end_out_edges(curr.node_id);
        for edge_id in begin..end {
            /*@ proof { assert(graph.edges_fwd@[vp_it1 - 1].base_node == curr.node_id);
                let s = stalls(graph.edges_fwd@, self.data_bwd@, self.valid_flags_bwd, curr, vp_it1 - 1); } @*/
            let adj = graph.edges_fwd[edge_id].adj_node;
            let adj_weight = self.get_weight_bwd(adj);
            if adj_weight == WEIGHT_MAX {
                continue;
            }
            let edge_weight = graph.edges_fwd[edge_id].weight;
            if adj_weight.saturating_add(edge_weight) < curr.weight {
                return true;
            }
        }
        false
    }

    fn extract_nodes(&self, graph: &FastGraph, meeting_node: NodeId) -> Vec<NodeId> /*@
        requires self.wf(), graph.wf(), graph.num_nodes == self.num_nodes, meeting_node < self.num_nodes, 
            self.valid_flags_fwd.valid(meeting_node as int), self.valid_flags_bwd.valid(meeting_node as int),
            chains(graph.edges_fwd@, self.data_fwd@, self.valid_flags_fwd, self.num_nodes as int),
            chains(graph.edges_bwd@, self.data_bwd@, self.valid_flags_bwd, self.num_nodes as int),
        ensures res.len() >= 1, res@[0] < self.num_nodes, res@.last() < self.num_nodes, // [C02]
            self.valid_flags_fwd.valid(res@[0] as int), self.data_fwd@[res@[0] as int].inc_edge == INVALID_EDGE, // [C02]
            self.valid_flags_bwd.valid(res@.last() as int), self.data_bwd@[res@.last() as int].inc_edge == INVALID_EDGE, // [C02]
            exists|w: int| #[trigger] walk(graph.base(), res@, w) && w + self.data_fwd@[res@[0] as int].weight + self.data_bwd@[res@.last() as int].weight
                <= self.data_fwd@[meeting_node as int].weight + self.data_bwd@[meeting_node as int].weight, // [C02]
    @*/ {
        assert_ne!(meeting_node, INVALID_NODE);
        assert!(self.valid_flags_fwd.is_valid(meeting_node));
        assert!(self.valid_flags_bwd.is_valid(meeting_node));
        let mut result = Vec::new();
        let mut node = meeting_node;
        /*@ let ghost mut w: int = 0;
            proof { assert(result@.reverse().push(meeting_node) =~= seq![meeting_node]); }
        @*/
        while self.data_fwd[node].inc_edge != INVALID_EDGE /*@
            invariant
                node < self.num_nodes, self.valid_flags_fwd.valid(node as int),
                walk(graph.base(), result@.reverse().push(meeting_node), w),
                result@.reverse().push(meeting_node)[0] == node,
                w + self.data_fwd@[node as int].weight <= self.data_fwd@[meeting_node as int].weight,
            decreases self.data_fwd@[node as int].weight,
        @*/ {
            /*@ let ghost r0 = result@;
                let ghost k = self.data_fwd@[node as int].inc_edge as int;
                proof { assert(chain_e(graph.edges_fwd@, self.data_fwd@, self.valid_flags_fwd, node as int)); lemma_exp_walk(*graph, true, k); }
            @*/
            PathCalculator::unpack_fwd(graph, &mut result, self.data_fwd[node].inc_edge, true);
            node = self.data_fwd[node].parent;
            /*@ proof {
                let x = exp(*graph, true, k);
                lemma_walk_concat(graph.base(), x.push(graph.edges_fwd@[k].adj_node), r0.reverse().push(meeting_node), graph.edges_fwd@[k].weight as int, w);
                assert(x.push(graph.edges_fwd@[k].adj_node) + r0.reverse().push(meeting_node).skip(1) =~= result@.reverse().push(meeting_node));
                w = w + graph.edges_fwd@[k].weight;
            } @*/
        }
        /*@ let ghost first = node; @*/
        result.reverse();
        node = meeting_node;
        while self.data_bwd[node].inc_edge != INVALID_EDGE /*@
            invariant
                node < self.num_nodes, self.valid_flags_bwd.valid(node as int),
                walk(graph.base(), result@.push(node), w),
                result@.push(node)[0] == first,
                w + self.data_bwd@[node as int].weight + self.data_fwd@[first as int].weight <= self.data_fwd@[meeting_node as int].weight + self.data_bwd@[meeting_node as int].weight,
            decreases self.data_bwd@[node as int].weight,
        @*/ {
            /*@ let ghost r0 = result@;
                let ghost n0 = node;
                let ghost k = self.data_bwd@[node as int].inc_edge as int;
                proof { assert(chain_e(graph.edges_bwd@, self.data_bwd@, self.valid_flags_bwd, node as int)); lemma_exp_walk(*graph, false, k); }
            @*/
            PathCalculator::unpack_bwd(graph, &mut result, self.data_bwd[node].inc_edge, false);
            node = self.data_bwd[node].parent;
            /*@ proof {
                let x = exp(*graph, false, k);
                lemma_walk_concat(graph.base(), r0.push(n0), x.push(graph.edges_bwd@[k].base_node), w, graph.edges_bwd@[k].weight as int);
                assert(r0.push(n0) + x.push(graph.edges_bwd@[k].base_node).skip(1) =~= result@.push(node));
                w = w + graph.edges_bwd@[k].weight;
            } @*/
        }
        result.push(node);
        result
    }

    fn unpack_fwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) /*@
        requires graph.wf(), edge_id < graph.edges_fwd.len(),
        ensures final(nodes)@ == old(nodes)@ + dexp(*graph, true, edge_id as int, reverse), // [C02]
    @*/ {
        PathCalculator::unpack(graph, nodes, edge_id, true, reverse);
    }

    fn unpack_bwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) /*@
        requires graph.wf(), edge_id < graph.edges_bwd.len(),
        ensures final(nodes)@ == old(nodes)@ + dexp(*graph, false, edge_id as int, reverse), // [C02]
    @*/ {
        PathCalculator::unpack(graph, nodes, edge_id, false, reverse);
    }

    /// Unpacks a forward or backward edge. Shortcuts can be nested as deeply as the path is long,
    /// so we use an explicit stack instead of recursion.
    fn unpack(
        graph: &FastGraph,
        nodes: &mut Vec<NodeId>,
        edge_id: EdgeId,
        is_fwd: bool,
        reverse: bool,
    ) /*@
        requires graph.wf(), edge_id < (if is_fwd { graph.edges_fwd.len() } else { graph.edges_bwd.len() }),
        ensures final(nodes)@ == old(nodes)@ + dexp(*graph, is_fwd, edge_id as int, reverse), // [C02]
    @*/ {
        let mut stack = vec![(edge_id, is_fwd)];
        /*@ let ghost mut st0 = stack@;
            proof { assert(stack@ =~= seq![(edge_id, is_fwd)]); lemma_pending_one(*graph, edge_id, is_fwd, reverse, stack@); }
        @*/
        while let Some((id, fwd)) = stack.pop() /*@
            invariant
                graph.wf(), stack_ok(*graph, stack@), st0 == stack@,
                nodes@ + pending(*graph, stack@, reverse) == old(nodes)@ + dexp(*graph, is_fwd, edge_id as int, reverse), // [C02]
            decreases 2 * pending(*graph, stack@, reverse).len() - stack.len(),
        @*/ {
            /*@ let ghost st1 = stack@;
                let ghost n1 = nodes@;
                proof {
                    lemma_pending_len(*graph, st1, reverse);
                    assert(st0 =~= st1.push((id, fwd)));
                    lemma_pending_len(*graph, st0, reverse);
                    lemma_pending_step(*graph, st1, id, fwd, reverse, n1);
                }
            @*/
            let edge = if fwd {
                &graph.edges_fwd[id]
            } else {
                &graph.edges_bwd[id]
            };
            if !edge.is_shortcut() {
                nodes.push(if fwd { edge.base_node } else { edge.adj_node });
            } else if reverse {
                // the edge pushed last is unpacked first
                stack.push((edge.replaced_in_edge, false));
                stack.push((edge.replaced_out_edge, true));
            } else {
                stack.push((edge.replaced_out_edge, true));
                stack.push((edge.replaced_in_edge, false));
            }
            /*@ proof { st0 = stack@; } @*/
        }
        /*@ proof { assert(nodes@ + pending(*graph, stack@, reverse) =~= nodes@); } @*/
    }

    fn update_node_fwd(&mut self, node: NodeId, weight: Weight, parent: NodeId, inc_edge: EdgeId) /*@
        requires old(self).wf(), node < old(self).num_nodes,
        ensures final(self).wf(), final(self).same_bwd(*old(self)), final(self).heap_fwd == old(self).heap_fwd,
            updated(old(self).data_fwd@, old(self).valid_flags_fwd, final(self).data_fwd@, final(self).valid_flags_fwd, node, weight, parent, inc_edge),
    @*/ {
        self.valid_flags_fwd.set_valid(node);
        self.data_fwd[node].settled = false;
        self.data_fwd[node].weight = weight;
        self.data_fwd[node].parent = parent;
        self.data_fwd[node].inc_edge = inc_edge;
        /*@ proof { assert(self.data_fwd@ =~= old(self).data_fwd@.update(node as int, Data { settled: false, weight, parent, inc_edge })); } @*/
    }

    fn update_node_bwd(&mut self, node: NodeId, weight: Weight, parent: NodeId, inc_edge: EdgeId) /*@
        requires old(self).wf(), node < old(self).num_nodes,
        ensures final(self).wf(), final(self).same_fwd(*old(self)), final(self).heap_bwd == old(self).heap_bwd,
            updated(old(self).data_bwd@, old(self).valid_flags_bwd, final(self).data_bwd@, final(self).valid_flags_bwd, node, weight, parent, inc_edge),
    @*/ {
        self.valid_flags_bwd.set_valid(node);
        self.data_bwd[node].settled = false;
        self.data_bwd[node].weight = weight;
        self.data_bwd[node].parent = parent;
        self.data_bwd[node].inc_edge = inc_edge;
        /*@ proof { assert(self.data_bwd@ =~= old(self).data_bwd@.update(node as int, Data { settled: false, weight, parent, inc_edge })); } @*/
    }

    fn is_settled_fwd(&self, node: NodeId) -> bool /*@
        requires self.wf(), node < self.num_nodes,
        ensures res == (self.valid_flags_fwd.valid(node as int) && self.data_fwd@[node as int].settled),
    @*/ {
        self.valid_flags_fwd.is_valid(node) && self.data_fwd[node].settled
    }

    fn is_settled_bwd(&self, node: NodeId) -> bool /*@
        requires self.wf(), node < self.num_nodes,
        ensures res == (self.valid_flags_bwd.valid(node as int) && self.data_bwd@[node as int].settled),
    @*/ {
        self.valid_flags_bwd.is_valid(node) && self.data_bwd[node].settled
    }

    fn get_weight_fwd(&self, node: NodeId) -> Weight /*@
        requires self.wf(), node < self.num_nodes,
        ensures res == lab(self.data_fwd@, self.valid_flags_fwd, node as int),
    @*/ {
        if self.valid_flags_fwd.is_valid(node) {
            self.data_fwd[node].weight
        } else {
            WEIGHT_MAX
        }
    }

    fn get_weight_bwd(&self, node: NodeId) -> Weight /*@
        requires self.wf(), node < self.num_nodes,
        ensures res == lab(self.data_bwd@, self.valid_flags_bwd, node as int),
    @*/ {
        if self.valid_flags_bwd.is_valid(node) {
            self.data_bwd[node].weight
        } else {
            WEIGHT_MAX
        }
    }
}

struct Data {
    settled: bool,
    weight: Weight,
    parent: NodeId,
    inc_edge: usize,
}

impl Data {
    fn new() -> Self {
        Data {
            settled: false,
            weight: WEIGHT_MAX,
            parent: INVALID_NODE,
            inc_edge: INVALID_EDGE,
        }
    }
}

