use crate::constants::NodeId;
use crate::constants::Weight;
use crate::fast_graph_builder::Params;
use crate::preparation_graph::PreparationGraph;
use crate::witness_search::WitnessSearch;
/*@
use crate::constants::*;
use crate::spec_graph::*;
use crate::spec_prep::*;
use crate::preparation_graph::*;
use crate::witness_search::*;
broadcast use crate::vp::vp_floats;

// u -> x -> v of weight w in o
pub open spec fn via(o: PreparationGraph, u: usize, x: usize, v: usize, w: usize) -> bool {
    exists|w1: usize, c1: usize, w2: usize, c2: usize| #[trigger] o.has(u, x, w1, c1) && #[trigger] o.has(x, v, w2, c2) && w == w1 + w2
}
// h grew out of o by adding or shortening arcs that stand for routes through x
#[verifier::opaque]
pub open spec fn grown(o: PreparationGraph, h: PreparationGraph, x: usize) -> bool {
    &&& dominated(o.gr(), h.gr())
    &&& forall|u: usize, v: usize, w: usize, c: usize| #[trigger] h.has(u, v, w, c) ==> o.has(u, v, w, c) || (c == x && u != x && v != x && via(o, u, x, v, w))
}
pub open spec fn growing(o: PreparationGraph, h: PreparationGraph, x: usize) -> bool {
    &&& o.wf() && h.wf()
    &&& h.num_nodes == o.num_nodes
    &&& x < o.num_nodes
    &&& h.out_edges@[x as int] == o.out_edges@[x as int]
    &&& h.in_edges@[x as int] == o.in_edges@[x as int]
    &&& grown(o, h, x)
}
// in-neighbour i and out-neighbour j of x stay connected without x
pub open spec fn pair_ok(o: PreparationGraph, h: PreparationGraph, x: usize, i: int, j: int) -> bool {
    let a = o.in_edges@[x as int]@[i];
    let b = o.out_edges@[x as int]@[j];
    a.adj_node != b.adj_node && a.weight + b.weight < wmax() ==> dle(minus(h.gr(), x), a.adj_node, b.adj_node, a.weight + b.weight)
}
// all pairs before (i, j)
#[verifier::opaque]
pub open spec fn pairs_ok(o: PreparationGraph, h: PreparationGraph, x: usize, i: int, j: int) -> bool {
    forall|p: int, q: int| 0 <= p <= i && 0 <= q < o.out_edges@[x as int].len() && (p < i || q < j) ==> #[trigger] pair_ok(o, h, x, p, q)
}
pub proof fn lemma_start(o: PreparationGraph, x: usize)
    requires o.wf(), x < o.num_nodes,
    ensures growing(o, o, x), pairs_ok(o, o, x, 0, 0),
{
    reveal(grown);
    reveal(pairs_ok);
    assert(dominated(o.gr(), o.gr())) by {
        assert forall|e: (usize, usize, int)| #[trigger] o.gr().contains(e) implies exists|w: int| #[trigger] o.gr().contains((e.0, e.1, w)) && w <= e.2 by {
            assert(o.gr().contains((e.0, e.1, e.2)));
        }
    }
}
pub proof fn lemma_next(o: PreparationGraph, h: PreparationGraph, x: usize, i: int, j: int)
    requires pairs_ok(o, h, x, i, j), pair_ok(o, h, x, i, j),
    ensures pairs_ok(o, h, x, i, j + 1),
{
    reveal(pairs_ok);
}
pub proof fn lemma_row(o: PreparationGraph, h: PreparationGraph, x: usize, i: int)
    requires pairs_ok(o, h, x, i, o.out_edges@[x as int].len() as int),
    ensures pairs_ok(o, h, x, i + 1, 0),
{
    reveal(pairs_ok);
}
// the effect of one shortcut
pub proof fn lemma_grow(o: PreparationGraph, h: PreparationGraph, h2: PreparationGraph, x: usize, i: int, j: int, w: usize)
    requires growing(o, h, x), pairs_ok(o, h, x, i, j), h2.wf(),
        0 <= i < o.in_edges@[x as int].len(), 0 <= j < o.out_edges@[x as int].len(),
        ({
            let u = o.in_edges@[x as int]@[i].adj_node;
            let v = o.out_edges@[x as int]@[j].adj_node;
            &&& w == o.in_edges@[x as int]@[i].weight + o.out_edges@[x as int]@[j].weight
            &&& u != v
            &&& h2.only(h, u, v)
            &&& forall|a: usize, b: usize, w2: usize, c: usize| #[trigger] h2.has(a, b, w2, c) <==>
                if a == u && b == v && !h.low(u, v, w) { w2 == w && c == x } else { h.has(a, b, w2, c) }
        }),
    ensures growing(o, h2, x), pairs_ok(o, h2, x, i, j + 1), dominated(h.gr(), h2.gr()),
{
    let ai = o.in_edges@[x as int]@[i];
    let bj = o.out_edges@[x as int]@[j];
    let u = ai.adj_node;
    let v = bj.adj_node;
    lemma_in_at(o, x, i);
    lemma_out_at(o, x, j);
    lemma_gr_positive(h);
    assert(h2.low(u, v, w)) by {
        if h.low(u, v, w) {
            let (w0, c0) = choose|w0: usize, c0: usize| #[trigger] h.has(u, v, w0, c0) && w0 <= w;
            assert(h2.has(u, v, w0, c0));
        } else { assert(h2.has(u, v, w, x)); }
    }
    let (wl, cl) = choose|wl: usize, cl: usize| #[trigger] h2.has(u, v, wl, cl) && wl <= w;
    assert(dominated(h.gr(), h2.gr())) by {
        assert forall|e: (usize, usize, int)| #[trigger] h.gr().contains(e) implies exists|w: int| #[trigger] h2.gr().contains((e.0, e.1, w)) && w <= e.2 by {
            let (w0, c0) = choose|w0: usize, c0: usize| #[trigger] h.has(e.0, e.1, w0, c0) && e.2 == w0;
            if e.0 == u && e.1 == v && !h.low(u, v, w) {
                assert(w0 > w);
                let k = lemma_has(h2, u, v, wl, cl);
                assert(h2.gr().contains((e.0, e.1, wl as int)));
            } else {
                assert(h2.has(e.0, e.1, w0, c0));
                let k = lemma_has(h2, e.0, e.1, w0, c0);
                assert(h2.gr().contains((e.0, e.1, w0 as int)));
            }
        }
    }
    assert(grown(o, h2, x)) by {
        reveal(grown);
        lemma_dominated_trans(o.gr(), h.gr(), h2.gr());
        assert(via(o, u, x, v, w)) by {
            assert(o.has(u, x, ai.weight, ai.center_node) && o.has(x, v, bj.weight, bj.center_node));
        }
        assert forall|a: usize, b: usize, w2: usize, c: usize| #[trigger] h2.has(a, b, w2, c) implies o.has(a, b, w2, c) || (c == x && a != x && b != x && via(o, a, x, b, w2)) by {
            if a == u && b == v && !h.low(u, v, w) { } else { assert(h.has(a, b, w2, c)); }
        }
    }
    lemma_dominated(h.gr(), h2.gr(), x);
    let m = minus(h2.gr(), x);
    assert(pairs_ok(o, h2, x, i, j)) by {
        reveal(pairs_ok);
        assert forall|p: int, q: int| 0 <= p <= i && 0 <= q < o.out_edges@[x as int].len() && (p < i || q < j) implies #[trigger] pair_ok(o, h2, x, p, q) by {
            assert(pair_ok(o, h, x, p, q));
            let a = o.in_edges@[x as int]@[p];
            let b = o.out_edges@[x as int]@[q];
            if a.adj_node != b.adj_node && a.weight + b.weight < wmax() {
                lemma_dle_sim(minus(h.gr(), x), m, a.adj_node, b.adj_node, a.weight + b.weight);
            }
        }
    }
    assert(pair_ok(o, h2, x, i, j)) by {
        let k = lemma_has(h2, u, v, wl, cl);
        assert(m.contains((u, v, wl as int)));
        lemma_dle_edge(m, u, v, wl as int);
        lemma_dle_weaken(m, u, v, wl as int, w as int);
    }
    lemma_next(o, h2, x, i, j);
}
// all pairs treated: x can go
pub proof fn lemma_contracted(o: PreparationGraph, h: PreparationGraph, f: PreparationGraph, x: usize)
    requires growing(o, h, x), pairs_ok(o, h, x, o.in_edges@[x as int].len() as int, 0), f.wf(), f.num_nodes == o.num_nodes,
        forall|u: usize, v: usize, w: usize, c: usize| #[trigger] f.has(u, v, w, c) <==> h.has(u, v, w, c) && u != x && v != x,
    ensures preserved(o.gr(), f.gr(), x),
        forall|u: usize, v: usize, w: usize, c: usize| #[trigger] f.has(u, v, w, c) ==> u != x && v != x && (o.has(u, v, w, c) || (c == x && via(o, u, x, v, w))),
{
    reveal(grown);
    reveal(pairs_ok);
    let m = minus(h.gr(), x);
    assert(f.gr() =~= m) by {
        assert forall|e: (usize, usize, int)| f.gr().contains(e) <==> m.contains(e) by {
            if f.gr().contains(e) {
                let (w, c) = choose|w: usize, c: usize| #[trigger] f.has(e.0, e.1, w, c) && e.2 == w;
                assert(h.has(e.0, e.1, w, c));
            }
            if m.contains(e) {
                let (w, c) = choose|w: usize, c: usize| #[trigger] h.has(e.0, e.1, w, c) && e.2 == w;
                assert(f.has(e.0, e.1, w, c));
            }
        }
    }
    assert(bridged(o.gr(), h.gr(), x)) by {
        assert forall|p: usize, q: usize, a: int, b: int| #[trigger] o.gr().contains((p, x, a)) && #[trigger] o.gr().contains((x, q, b)) && p != q && a + b < wmax()
            implies dle(m, p, q, a + b) by {
            let e1 = (p, x, a);
            let e2 = (x, q, b);
            let (w1, c1) = choose|w: usize, c: usize| #[trigger] o.has(e1.0, e1.1, w, c) && e1.2 == w;
            let (w2, c2) = choose|w: usize, c: usize| #[trigger] o.has(e2.0, e2.1, w, c) && e2.2 == w;
            assert(o.hin(p, x, w1, c1));
            let li = o.in_edges@[x as int]@;
            let i = choose|i: int| 0 <= i < li.len() && li[i] == arc(p, w1, c1);
            let j = lemma_has(o, x, q, w2, c2);
            assert(pair_ok(o, h, x, i, j));
        }
    }
    lemma_gr_positive(o);
    lemma_preserved(o.gr(), h.gr(), x);
}
@*/
pub fn contract_node(
    graph: &mut PreparationGraph,
    witness_search: &mut WitnessSearch,
    node: NodeId,
    max_settled_nodes: usize,
) /*@
    requires old(graph).wf(), old(witness_search).wf(), old(witness_search).num_nodes == old(graph).num_nodes, node < old(graph).num_nodes,
    ensures final(graph).wf(), final(graph).num_nodes == old(graph).num_nodes, final(witness_search).wf(), final(witness_search).num_nodes == old(witness_search).num_nodes,
        final(graph).out_edges@[node as int].len() == 0, final(graph).in_edges@[node as int].len() == 0,
        forall|u: usize, v: usize, w: usize, c: usize| #[trigger] final(graph).has(u, v, w, c)
            ==> u != node && v != node && (old(graph).has(u, v, w, c) || (c == node && via(*old(graph), u, node, v, w))), // [C02]
        preserved(old(graph).gr(), final(graph).gr(), node), // [C01][C05]
@*/ {
    /*@ let ghost o = *graph;
    proof { lemma_start(o, node); } @*/
    handle_shortcuts(graph, witness_search, node, add_shortcut, max_settled_nodes);
    /*@ let ghost h = *graph; @*/
    graph.disconnect(node);
    /*@ proof { lemma_contracted(o, h, *graph, node); } @*/
}

pub fn calc_relevance(
    graph: &mut PreparationGraph,
    params: &Params,
    witness_search: &mut WitnessSearch,
    node: NodeId,
    level: NodeId,
    max_settled_nodes: usize,
) -> f32 /*@
    requires old(graph).wf(), old(witness_search).wf(), old(witness_search).num_nodes == old(graph).num_nodes, node < old(graph).num_nodes,
    ensures *final(graph) == *old(graph), // [C05]
        final(witness_search).wf(), final(witness_search).num_nodes == old(witness_search).num_nodes,
@*/ {
    let mut num_shortcuts: usize = 0;
    handle_shortcuts(
        graph,
        witness_search,
        node,
        |_graph, _shortcut| {
            num_shortcuts = num_shortcuts.saturating_add(1);
        },
        max_settled_nodes,
    );
    /*@ proof { axiom_vec_len(&graph.out_edges@[node as int]); axiom_vec_len(&graph.in_edges@[node as int]); } @*/
    let num_edges = graph.get_out_edges(node).len() + graph.get_in_edges(node).len();
    let relevance = (params.hierarchy_depth_factor * level as f32)
        + (params.edge_quotient_factor * num_shortcuts as f32 + 1.0) / (num_edges as f32 + 1.0);
    relevance * 1000.0
}

pub fn handle_shortcuts<F>(
    graph: &mut PreparationGraph,
    witness_search: &mut WitnessSearch,
    node: NodeId,
    mut handle_shortcut: F,
    max_settled_nodes: usize,
) where
    F: FnMut(&mut PreparationGraph, Shortcut),
{
    for i in 0..graph.in_edges[node].len() /*@[contract_node]
        invariant o == *old(graph), growing(o, *graph, node), pairs_ok(o, *graph, node, vp_it1 as int, 0),
            witness_search.wf(), witness_search.num_nodes == old(witness_search).num_nodes, witness_search.num_nodes == graph.num_nodes,
            vp_st1 == 0, vp_end1 == o.in_edges@[node as int].len(),
    @*/ /*@[calc_relevance]
        invariant *graph == *old(graph), graph.wf(), node < graph.num_nodes,
            witness_search.wf(), witness_search.num_nodes == old(witness_search).num_nodes, witness_search.num_nodes == graph.num_nodes,
            vp_st1 == 0, vp_end1 == graph.in_edges@[node as int].len(),
    @*/ {
        /*@ proof { lemma_in_at(*graph, node, i as int); } @*/
        let in_node = graph.in_edges[node][i].adj_node;
        witness_search.init(in_node, node);
        for j in 0..graph.out_edges[node].len() /*@[contract_node]
            invariant o == *old(graph), growing(o, *graph, node), pairs_ok(o, *graph, node, i as int, vp_it2 as int),
                0 <= i < o.in_edges@[node as int].len(), in_node == o.in_edges@[node as int]@[i as int].adj_node, in_node < graph.num_nodes, in_node != node,
                witness_search.live(), witness_search.labels(graph.gr()), witness_search.num_nodes == old(witness_search).num_nodes, witness_search.num_nodes == graph.num_nodes,
                witness_search.start_node == in_node, witness_search.avoid_node == node,
                vp_st2 == 0, vp_end2 == o.out_edges@[node as int].len(),
        @*/ /*@[calc_relevance]
            invariant *graph == *old(graph), graph.wf(), node < graph.num_nodes,
                0 <= i < graph.in_edges@[node as int].len(), in_node < graph.num_nodes, in_node != node,
                witness_search.live(), witness_search.labels(graph.gr()), witness_search.num_nodes == old(witness_search).num_nodes, witness_search.num_nodes == graph.num_nodes,
                witness_search.start_node == in_node, witness_search.avoid_node == node,
                vp_st2 == 0, vp_end2 == graph.out_edges@[node as int].len(),
        @*/ {
            /*@ proof { lemma_out_at(*graph, node, j as int); } @*/
            let weight = graph.in_edges[node][i]
                .weight
                .saturating_add(graph.out_edges[node][j].weight);
            let out_node = graph.out_edges[node][j].adj_node;
            let max_witness_weight =
                witness_search.find_max_weight(graph, out_node, weight, max_settled_nodes);
            if max_witness_weight <= weight {
                /*@[contract_node] proof {
                    if in_node != out_node && weight < WEIGHT_MAX { lemma_dle_weaken(minus(graph.gr(), node), in_node, out_node, max_witness_weight as int, weight as int); }
                    lemma_next(o, *graph, node, i as int, j as int);
                } @*/
                continue;
            }
            /*@[contract_node] let ghost h0 = *graph; @*/
            handle_shortcut(graph, Shortcut::new(in_node, out_node, node, weight))
            /*@[contract_node] ; proof {
                lemma_grow(o, h0, *graph, node, i as int, j as int, weight);
                lemma_gr_positive(h0);
                lemma_labels_keep(*witness_search, h0.gr(), graph.gr());
            } @*/
        }
        /*@[contract_node] proof { lemma_row(o, *graph, node, i as int); } @*/
    }
}

fn add_shortcut(graph: &mut PreparationGraph, shortcut: Shortcut) /*@
    requires old(graph).wf(), shortcut.from < old(graph).num_nodes, shortcut.to < old(graph).num_nodes, shortcut.from != shortcut.to, shortcut.weight >= 1,
    ensures final(graph).wf(), final(graph).only(*old(graph), shortcut.from, shortcut.to),
        forall|u: usize, v: usize, w: usize, c: usize| #[trigger] final(graph).has(u, v, w, c) <==>
            if u == shortcut.from && v == shortcut.to && !old(graph).low(shortcut.from, shortcut.to, shortcut.weight) { w == shortcut.weight && c == shortcut.center_node }
            else { old(graph).has(u, v, w, c) }, // [C01][C05]
@*/ {
    graph.add_or_reduce_edge(
        shortcut.from,
        shortcut.to,
        shortcut.weight,
        shortcut.center_node,
    );
}

#[derive(Eq, PartialEq, Debug, Copy, Clone)]
pub struct Shortcut {
    from: NodeId,
    to: NodeId,
    center_node: NodeId,
    weight: Weight,
}

impl Shortcut {
    pub fn new(from: NodeId, to: NodeId, center_node: NodeId, weight: Weight) -> Self /*@
        ensures res.from == from, res.to == to, res.center_node == center_node, res.weight == weight,
    @*/ {
        Shortcut {
            from,
            to,
            center_node,
            weight,
        }
    }
}

