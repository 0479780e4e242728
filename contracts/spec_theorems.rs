// The properties of the public interface, each as the postcondition of a client of that interface: the client is
// verified against the contracts of the entry points alone (never their bodies). Ghost(true) = the call must not panic.
use vstd::prelude::*;
use crate::constants::*;
use crate::spec_graph::*;
use crate::spec_query::*;
use crate::fast_graph::*;
use crate::fast_graph_builder::*;
use crate::input_graph::*;
use crate::path_calculator::*;
use crate::shortest_path::*;
verus! {

// res is the answer to the query s -> t on g
pub open spec fn answer(g: Gr, s: usize, t: usize, res: Option<ShortestPath>) -> bool {
    match res {
        None => forall|d: int| d < wmax() ==> !#[trigger] dle(g, s, t, d),
        Some(p) => {
            &&& p.weight < wmax() && forall|d: int| #[trigger] dle(g, s, t, d) ==> p.weight <= d
            &&& p.nodes.len() >= 1 && p.nodes@[0] == s && p.nodes@.last() == t && p.source == s && p.target == t
            &&& walk(g, p.nodes@, p.weight as int)
        },
    }
}
pub open spec fn answer_multi(g: Gr, ss: Seq<(usize, usize)>, ts: Seq<(usize, usize)>, res: Option<ShortestPath>) -> bool {
    match res {
        None => forall|d: int| d < wmax() ==> !#[trigger] total(g, ss, ts, d),
        Some(p) => {
            &&& p.weight < wmax() && forall|d: int| #[trigger] total(g, ss, ts, d) ==> p.weight <= d
            &&& p.nodes.len() >= 1 && p.source == p.nodes@[0] && p.target == p.nodes@.last()
            &&& route(g, ss, ts, p.nodes@, p.weight as int)
        },
    }
}
pub open spec fn nodes_ok(l: Seq<(usize, usize)>, n: int) -> bool {
    forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 < n
}
pub open spec fn weight_of(r: Option<ShortestPath>) -> int { match r { None => wmax(), Some(p) => p.weight as int } }

// the same route weights below wmax, the same walks: an answer for b is an answer for g
pub proof fn lemma_answer(fg: FastGraph, g: Gr, s: usize, t: usize, res: Option<ShortestPath>)
    requires fg.represents(g), answer(fg.base(), s, t, res),
    ensures answer(g, s, t, res),
{
    if let Some(p) = res {
        lemma_walk_sub(fg.base(), g, p.nodes@, p.weight as int);
        assert forall|d: int| #[trigger] dle(g, s, t, d) implies p.weight <= d by {
            if d < wmax() { assert(dle(fg.base(), s, t, d)); }
        }
    }
}
pub proof fn lemma_answer_multi(fg: FastGraph, g: Gr, ss: Seq<(usize, usize)>, ts: Seq<(usize, usize)>, res: Option<ShortestPath>)
    requires fg.represents(g), answer_multi(fg.base(), ss, ts, res),
    ensures answer_multi(g, ss, ts, res),
{
    let b = fg.base();
    assert forall|d: int| d < wmax() && #[trigger] total(g, ss, ts, d) implies total(b, ss, ts, d) by {
        let (i, j) = choose|i: int, j: int| 0 <= i < ss.len() && 0 <= j < ts.len() && #[trigger] dle(g, ss[i].0, ts[j].0, d - ss[i].1 - ts[j].1);
        assert(dle(b, ss[i].0, ts[j].0, d - ss[i].1 - ts[j].1));
    }
    if let Some(p) = res {
        let d = p.weight as int;
        let (i, j) = choose|i: int, j: int| 0 <= i < ss.len() && 0 <= j < ts.len() && #[trigger] walk(b, p.nodes@, d - ss[i].1 - ts[j].1)
            && p.nodes@[0] == ss[i].0 && p.nodes@.last() == ts[j].0;
        lemma_walk_sub(b, g, p.nodes@, d - ss[i].1 - ts[j].1);
        assert forall|d: int| #[trigger] total(g, ss, ts, d) implies p.weight <= d by {
            if d < wmax() { assert(total(b, ss, ts, d)); }
        }
    }
}
// two answers to the same query have the same weight
pub proof fn lemma_one_weight(g: Gr, ss: Seq<(usize, usize)>, ts: Seq<(usize, usize)>, a: Option<ShortestPath>, b: Option<ShortestPath>)
    requires answer_multi(g, ss, ts, a), answer_multi(g, ss, ts, b),
    ensures weight_of(a) == weight_of(b),
{
    if let Some(p) = a { lemma_route_total(g, ss, ts, p.nodes@, p.weight as int); }
    if let Some(p) = b { lemma_route_total(g, ss, ts, p.nodes@, p.weight as int); }
}
pub proof fn lemma_route_total(g: Gr, ss: Seq<(usize, usize)>, ts: Seq<(usize, usize)>, ns: Seq<usize>, d: int)
    requires route(g, ss, ts, ns, d),
    ensures total(g, ss, ts, d),
{
    let (i, j) = choose|i: int, j: int| 0 <= i < ss.len() && 0 <= j < ts.len() && #[trigger] walk(g, ns, d - ss[i].1 - ts[j].1)
        && ns[0] == ss[i].0 && ns.last() == ts[j].0;
    lemma_dle_intro(g, ns, d - ss[i].1 - ts[j].1, d - ss[i].1 - ts[j].1);
}

// C01, C02, C05, C11, C12: prepare with any parameters, query any pair of nodes
pub fn thm_query(g: &InputGraph, params: &Params, s: usize, t: usize) -> (res: Option<ShortestPath>)
    requires input_ok(*g), g.frozen, s < g.num_nodes, t < g.num_nodes,
    ensures answer(g.gr(), s, t, res), // [C01][C02][C05][C11][C12]
{
    let fg = crate::prepare_with_params(g, params, Ghost(true));
    let res = crate::calc_path(&fg, s, t, Ghost(true));
    proof { lemma_answer(fg, g.gr(), s, t, res); }
    res
}
// C01, C05: default parameters, a reusable calculator
pub fn thm_query_calculator(g: &InputGraph, s: usize, t: usize) -> (res: Option<ShortestPath>)
    requires input_ok(*g), g.frozen, s < g.num_nodes, t < g.num_nodes,
    ensures answer(g.gr(), s, t, res), // [C01][C02][C05][C11][C12]
{
    let fg = crate::prepare(g, Ghost(true));
    let mut c = crate::create_calculator(&fg);
    let res = c.calc_path(&fg, s, t, Ghost(true));
    proof { lemma_answer(fg, g.gr(), s, t, res); }
    res
}
// C03: several sources and targets
pub fn thm_query_multi(g: &InputGraph, params: &Params, ss: Vec<(usize, usize)>, ts: Vec<(usize, usize)>) -> (res: Option<ShortestPath>)
    requires input_ok(*g), g.frozen, ss.len() > 0, ts.len() > 0, nodes_ok(ss@, g.num_nodes as int), nodes_ok(ts@, g.num_nodes as int),
    ensures answer_multi(g.gr(), ss@, ts@, res), // [C03][C02][C05][C11][C12]
{
    let fg = crate::prepare_with_params(g, params, Ghost(true));
    let ghost (s0, t0) = (ss@, ts@);
    let res = crate::calc_path_multiple_sources_and_targets(&fg, ss, ts, Ghost(true));
    proof { lemma_answer_multi(fg, g.gr(), s0, t0, res); }
    res
}
// C04: a calculator with any past (all that is known of it is its invariant) answers as a fresh one
pub fn thm_reuse(fg: &FastGraph, c: &mut PathCalculator, ss: Vec<(usize, usize)>, ts: Vec<(usize, usize)>, ss2: Vec<(usize, usize)>, ts2: Vec<(usize, usize)>)
    -> (res: (Option<ShortestPath>, Option<ShortestPath>))
    requires old(c).wf(), fg.ok(), fg.num_nodes == old(c).num_nodes, ss.len() > 0, ts.len() > 0, nodes_ok(ss@, fg.num_nodes as int), nodes_ok(ts@, fg.num_nodes as int),
        ss2@ == ss@, ts2@ == ts@,
    ensures weight_of(res.0) == weight_of(res.1), final(c).wf(), final(c).num_nodes == old(c).num_nodes, // [C04]
{
    let ghost (s0, t0) = (ss@, ts@);
    let a = c.calc_path_multiple_sources_and_targets(fg, ss, ts, Ghost(true));
    let mut f = crate::create_calculator(fg);
    let b = f.calc_path_multiple_sources_and_targets(fg, ss2, ts2, Ghost(true));
    proof { lemma_one_weight(fg.base(), s0, t0, a, b); }
    (a, b)
}
// C05: two preparations of the same graph answer with the same weight
pub fn thm_params(g: &InputGraph, p1: &Params, p2: &Params, s: usize, t: usize) -> (res: (Option<ShortestPath>, Option<ShortestPath>))
    requires input_ok(*g), g.frozen, s < g.num_nodes, t < g.num_nodes,
    ensures weight_of(res.0) == weight_of(res.1), // [C05]
{
    let a = thm_query(g, p1, s, t);
    let b = thm_query(g, p2, s, t);
    proof {
        if a is Some { lemma_dle_intro(g.gr(), a->0.nodes@, a->0.weight as int, a->0.weight as int); }
        if b is Some { lemma_dle_intro(g.gr(), b->0.nodes@, b->0.weight as int, b->0.weight as int); }
    }
    (a, b)
}
// C06, C07: an order of the right length is accepted, gives a correct graph, and is reported again
pub fn thm_order(g: &InputGraph, order: &Vec<usize>, params: &ParamsWithOrder, s: usize, t: usize) -> (res: (Option<ShortestPath>, Vec<usize>))
    requires input_ok(*g), g.frozen, s < g.num_nodes, t < g.num_nodes, order.len() == g.num_nodes, distinct(order@), in_range(order@, g.num_nodes as int),
    ensures answer(g.gr(), s, t, res.0), res.1@ == order@, // [C06][C07][C12]
{
    let r = crate::prepare_with_order_with_params(g, order, params, Ghost(true));
    match r {
        Ok(fg) => {
            let res = crate::calc_path(&fg, s, t, Ghost(true));
            proof { lemma_answer(fg, g.gr(), s, t, res); }
            let o = crate::get_node_ordering(&fg);
            proof {
                assert forall|k: int| 0 <= k < order.len() implies o@[k] == #[trigger] order@[k] by {
                    assert(order@[k] < g.num_nodes);
                    assert(fg.ranks@[order@[k] as int] == k);
                }
                assert(o@ =~= order@);
            }
            (res, o)
        },
        Err(_) => { assert(false); (None, Vec::new()) },
    }
}
// C06: an order of another length is an error
pub fn thm_order_len(g: &InputGraph, order: &Vec<usize>, params: &ParamsWithOrder)
    requires input_ok(*g), g.frozen, order.len() != g.num_nodes,
{
    let r = crate::prepare_with_order_with_params(g, order, params, Ghost(true));
    assert(r is Err); // [C06]
    let r = crate::prepare_with_order(g, order, Ghost(true));
    assert(r is Err); // [C06]
}
// C07: the ordering of any prepared graph is a permutation, can be fed back and is reported again
pub fn thm_ordering_again(g: &InputGraph, params: &Params) -> (res: (Vec<usize>, Vec<usize>))
    requires input_ok(*g), g.frozen,
    ensures res.0.len() == g.num_nodes, distinct(res.0@), in_range(res.0@, g.num_nodes as int), // [C07]
        res.1@ == res.0@, // [C07]
{
    let fg = crate::prepare_with_params(g, params, Ghost(true));
    let o = crate::get_node_ordering(&fg);
    let ghost n = g.num_nodes as int;
    proof {
        assert forall|k: int| 0 <= k < n implies (#[trigger] o@[k]) < n && fg.ranks@[o@[k] as int] == k by {
            let x = lemma_onto(fg.ranks@, n, k);
            assert(o@[fg.ranks@[x] as int] == x);
        }
        assert(distinct(o@));
    }
    let r = crate::prepare_with_order(g, &o, Ghost(true));
    match r {
        Ok(f2) => {
            let o2 = crate::get_node_ordering(&f2);
            proof {
                assert forall|k: int| 0 <= k < n implies o2@[k] == #[trigger] o@[k] by { assert(f2.ranks@[o@[k] as int] == k); }
                assert(o2@ =~= o@);
            }
            (o, o2)
        },
        Err(_) => { assert(false); (o, Vec::new()) },
    }
}
// an injective map of 0..n to 0..n is onto
pub proof fn lemma_onto(ranks: Seq<usize>, n: int, k: int) -> (x: int)
    requires ranks.len() == n, 0 <= k < n, n <= usize::MAX, forall|i: int| 0 <= i < n ==> #[trigger] ranks[i] < n,
        forall|i: int, j: int| #![trigger ranks[i], ranks[j]] 0 <= i < n && 0 <= j < n && ranks[i] == ranks[j] ==> i == j,
    ensures 0 <= x < n, ranks[x] == k,
{
    crate::spec_build::lemma_ord_len(ranks, n);
    assert(ranks.contains(k as usize));
    choose|x: int| 0 <= x < n && ranks[x] == k as usize
}
}
