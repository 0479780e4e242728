// Invariants of the bidirectional upward search. One direction is described by an Env; the backward direction is the
// forward one on the transposed graph.
use vstd::prelude::*;
use vstd::multiset::*;
use crate::constants::*;
use crate::fast_graph::*;
use crate::heap_item::*;
use crate::path_calculator::*;
use crate::spec_graph::*;
use crate::valid_flags::*;
verus! {

pub struct Env {
    pub edges: Seq<FastGraphEdge>,
    pub first: Seq<usize>,
    pub ranks: Seq<usize>,
    pub full: Gr,
    pub srcs: Seq<(usize, usize)>,
    pub n: int,
}

pub open spec fn env_fwd(g: FastGraph, starts: Seq<(usize, usize)>) -> Env {
    Env { edges: g.edges_fwd@, first: g.first_edge_ids_fwd@, ranks: g.ranks@, full: g.full(), srcs: starts, n: g.num_nodes as int }
}
pub open spec fn env_bwd(g: FastGraph, ends: Seq<(usize, usize)>) -> Env {
    Env { edges: g.edges_bwd@, first: g.first_edge_ids_bwd@, ranks: g.ranks@, full: transpose(g.full()), srcs: ends, n: g.num_nodes as int }
}

// total weight of a route from some start to some end, offsets included
pub open spec fn total(g: Gr, starts: Seq<(usize, usize)>, ends: Seq<(usize, usize)>, d: int) -> bool {
    exists|i: int, j: int| 0 <= i < starts.len() && 0 <= j < ends.len() && #[trigger] dle(g, starts[i].0, ends[j].0, d - starts[i].1 - ends[j].1)
}
// nodes/weight describe a route from some start to some end
pub open spec fn route(g: Gr, starts: Seq<(usize, usize)>, ends: Seq<(usize, usize)>, ns: Seq<usize>, d: int) -> bool {
    exists|i: int, j: int| 0 <= i < starts.len() && 0 <= j < ends.len() && #[trigger] walk(g, ns, d - starts[i].1 - ends[j].1)
        && ns[0] == starts[i].0 && ns.last() == ends[j].0
}

pub open spec fn env_ok(env: Env) -> bool {
    &&& env.ranks.len() == env.n
    &&& forall|i: int| 0 <= i < env.n ==> #[trigger] env.ranks[i] < env.n
    &&& list_ok(env.edges, env.first, env.ranks, env.n)
    &&& keyed(env.edges).subset_of(env.full)
    &&& positive(env.full)
    &&& forall|i: int| 0 <= i < env.srcs.len() ==> (#[trigger] env.srcs[i]).0 < env.n
}

#[verifier::opaque]
pub open spec fn reach(env: Env, v: int, w: int) -> bool {
    exists|i: int| 0 <= i < env.srcs.len() && 0 <= v <= usize::MAX && dle(env.full, (#[trigger] env.srcs[i]).0, v as usize, w - env.srcs[i].1)
}

pub open spec fn lab(d: Seq<Data>, vf: ValidFlags, v: int) -> int {
    if vf.valid(v) { d[v].weight as int } else { wmax() }
}

// how the label of v came about
pub open spec fn chain(env: Env, d: Seq<Data>, vf: ValidFlags, v: int) -> bool {
    let e = d[v].inc_edge as int;
    if e == INVALID_EDGE {
        exists|i: int| 0 <= i < env.srcs.len() && (#[trigger] env.srcs[i]).0 == v && env.srcs[i].1 <= d[v].weight
    } else {
        &&& e < env.edges.len()
        &&& env.edges[e].adj_node == v
        &&& env.edges[e].base_node == d[v].parent
        &&& vf.valid(d[v].parent as int)
        &&& d[d[v].parent as int].weight + env.edges[e].weight <= d[v].weight
    }
}

pub open spec fn label_ok(env: Env, d: Seq<Data>, vf: ValidFlags, v: int) -> bool {
    d[v].weight < usize::MAX && reach(env, v, d[v].weight as int) && chain(env, d, vf, v)
}
pub open spec fn labs_ok(env: Env, d: Seq<Data>, vf: ValidFlags) -> bool {
    &&& d.len() == env.n
    &&& vf.len() == env.n
    &&& vf.wf()
    &&& forall|v: int| 0 <= v < env.n && #[trigger] vf.valid(v) ==> label_ok(env, d, vf, v)
}
pub open spec fn heap_ok(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>) -> bool {
    forall|it: HeapItem| #[trigger] h.contains(it) ==> it.node_id < env.n && vf.valid(it.node_id as int) && d[it.node_id as int].weight <= it.weight && it.weight < usize::MAX
}
pub open spec fn relaxed_to(env: Env, d: Seq<Data>, vf: ValidFlags, v: int, end: int) -> bool {
    forall|k: int| env.first[env.ranks[v] as int] <= k < end ==> lab(d, vf, (#[trigger] env.edges[k]).adj_node as int) <= d[v].weight + env.edges[k].weight
}
pub open spec fn relaxed(env: Env, d: Seq<Data>, vf: ValidFlags, v: int) -> bool {
    relaxed_to(env, d, vf, v, env.first[env.ranks[v] + 1] as int)
}
// the label of v is known to be too large
pub open spec fn better(env: Env, d: Seq<Data>, v: int) -> bool {
    exists|a: int| a < d[v].weight && #[trigger] reach(env, v, a)
}
pub open spec fn fine(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>, best: int, v: int) -> bool {
    ||| d[v].settled && relaxed(env, d, vf, v)
    ||| !d[v].settled && h.contains(HeapItem { weight: d[v].weight, node_id: v as usize })
    ||| d[v].weight > best
    ||| better(env, d, v)
}
// every labelled node other than ex is finished, waiting in the heap or irrelevant
pub open spec fn prog(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>, best: int, ex: int) -> bool {
    forall|v: int| 0 <= v < env.n && v != ex && #[trigger] vf.valid(v) ==> fine(env, d, vf, h, best, v)
}
pub open spec fn seeded(env: Env, d: Seq<Data>, vf: ValidFlags, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> lab(d, vf, (#[trigger] env.srcs[i]).0 as int) <= env.srcs[i].1
}
pub open spec fn side(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>) -> bool {
    &&& env_ok(env)
    &&& labs_ok(env, d, vf)
    &&& heap_ok(env, d, vf, h)
}

// nodes settled in both directions have been considered as meeting node
pub open spec fn met(ef: Env, df: Seq<Data>, vff: ValidFlags, eb: Env, db: Seq<Data>, vfb: ValidFlags, best: int) -> bool {
    forall|v: int| 0 <= v < ef.n && #[trigger] vff.valid(v) && #[trigger] vfb.valid(v) && df[v].settled && db[v].settled
        ==> best <= df[v].weight + db[v].weight || better(ef, df, v) || better(eb, db, v)
}
pub open spec fn meeting_ok(df: Seq<Data>, vff: ValidFlags, db: Seq<Data>, vfb: ValidFlags, n: int, meeting: usize, best: int) -> bool {
    if meeting == INVALID_NODE { best == wmax() } else {
        meeting < n && best < wmax() && vff.valid(meeting as int) && vfb.valid(meeting as int) && df[meeting as int].weight + db[meeting as int].weight <= best
    }
}

pub open spec fn updated(d: Seq<Data>, vf: ValidFlags, d2: Seq<Data>, vf2: ValidFlags, node: usize, weight: usize, parent: usize, inc: usize) -> bool {
    &&& d2.len() == d.len()
    &&& d2 == d.update(node as int, Data { settled: false, weight, parent, inc_edge: inc })
    &&& vf2.wf()
    &&& vf2.len() == vf.len()
    &&& vf2.valid(node as int)
    &&& forall|i: int| 0 <= i < vf.len() && i != node ==> #[trigger] vf2.valid(i) == vf.valid(i)
}

// sum of all labels: every update lowers it
pub open spec fn lsum(d: Seq<Data>, vf: ValidFlags, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { lsum(d, vf, n - 1) + lab(d, vf, n - 1) }
}
pub proof fn lemma_lsum_nonneg(d: Seq<Data>, vf: ValidFlags, n: int)
    ensures lsum(d, vf, n) >= 0,
    decreases n,
{
    if n > 0 { lemma_lsum_nonneg(d, vf, n - 1); }
}
pub proof fn lemma_lsum(d: Seq<Data>, vf: ValidFlags, d2: Seq<Data>, vf2: ValidFlags, node: int, n: int)
    requires n >= 0, n <= d.len(), n <= vf.len(), d.len() == d2.len(), vf.len() == vf2.len(), 0 <= node,
        forall|i: int| 0 <= i < n && i != node ==> #[trigger] lab(d2, vf2, i) == lab(d, vf, i),
        node < n ==> lab(d2, vf2, node) < lab(d, vf, node),
    ensures node < n ==> lsum(d2, vf2, n) < lsum(d, vf, n),
        node >= n ==> lsum(d2, vf2, n) == lsum(d, vf, n),
    decreases n,
{
    if n > 0 {
        lemma_lsum(d, vf, d2, vf2, node, n - 1);
        if node != n - 1 { assert(lab(d2, vf2, n - 1) == lab(d, vf, n - 1)); }
    }
}

pub proof fn lemma_reach_src(env: Env, i: int, w: int)
    requires 0 <= i < env.srcs.len(), env.srcs[i].1 <= w,
    ensures reach(env, env.srcs[i].0 as int, w),
{
    reveal(reach);
    lemma_dle_refl(env.full, env.srcs[i].0, w - env.srcs[i].1);
}
pub proof fn lemma_reach_step(env: Env, u: int, v: usize, w: int, x: int)
    requires reach(env, u, w), env.full.contains((u as usize, v, x)),
    ensures reach(env, v as int, w + x),
{
    reveal(reach);
    let i = choose|i: int| 0 <= i < env.srcs.len() && 0 <= u <= usize::MAX && dle(env.full, (#[trigger] env.srcs[i]).0, u as usize, w - env.srcs[i].1);
    lemma_dle_push(env.full, env.srcs[i].0, u as usize, v, w - env.srcs[i].1, x);
}
pub proof fn lemma_reach_weaken(env: Env, v: int, w: int, w2: int)
    requires reach(env, v, w), w <= w2,
    ensures reach(env, v, w2),
{
    reveal(reach);
    let i = choose|i: int| 0 <= i < env.srcs.len() && 0 <= v <= usize::MAX && dle(env.full, (#[trigger] env.srcs[i]).0, v as usize, w - env.srcs[i].1);
    lemma_dle_weaken(env.full, env.srcs[i].0, v as usize, w - env.srcs[i].1, w2 - env.srcs[i].1);
}
pub proof fn lemma_keyed(es: Seq<FastGraphEdge>, k: int)
    requires 0 <= k < es.len(),
    ensures keyed(es).contains((es[k].base_node, es[k].adj_node, es[k].weight as int)),
{}

pub proof fn lemma_envs(g: FastGraph, starts: Seq<(usize, usize)>, ends: Seq<(usize, usize)>)
    requires g.wf(), forall|i: int| 0 <= i < starts.len() ==> (#[trigger] starts[i]).0 < g.num_nodes,
        forall|i: int| 0 <= i < ends.len() ==> (#[trigger] ends[i]).0 < g.num_nodes,
    ensures env_ok(env_fwd(g, starts)), env_ok(env_bwd(g, ends)),
{
    lemma_full_base(g);
    let b = env_bwd(g, ends);
    assert forall|e: (usize, usize, int)| #[trigger] keyed(b.edges).contains(e) implies b.full.contains(e) by {
        assert(transpose(g.down_t()).contains((e.1, e.0, e.2)));
    }
    assert forall|e: (usize, usize, int)| #[trigger] b.full.contains(e) implies e.2 >= 1 by {
        assert(g.full().contains((e.1, e.0, e.2)));
    }
}

// a new, smaller label for node
pub proof fn lemma_update(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>, d2: Seq<Data>, vf2: ValidFlags, node: usize, weight: usize, parent: usize, inc: usize)
    requires side(env, d, vf, h), updated(d, vf, d2, vf2, node, weight, parent, inc),
        node < env.n, weight < lab(d, vf, node as int),
        reach(env, node as int, weight as int),
        inc == INVALID_EDGE ==> exists|i: int| 0 <= i < env.srcs.len() && (#[trigger] env.srcs[i]).0 == node && env.srcs[i].1 <= weight,
        inc != INVALID_EDGE ==> inc < env.edges.len() && env.edges[inc as int].adj_node == node && env.edges[inc as int].base_node == parent
            && parent < env.n && parent != node && vf.valid(parent as int) && d[parent as int].weight + env.edges[inc as int].weight <= weight,
    ensures side(env, d2, vf2, h.insert(HeapItem { weight, node_id: node })),
        forall|v: int| 0 <= v < env.n ==> lab(d2, vf2, v) <= #[trigger] lab(d, vf, v),
        forall|v: int| 0 <= v < env.n && v != node ==> #[trigger] d2[v] == d[v],
        forall|v: int| 0 <= v < env.n && #[trigger] vf.valid(v) ==> vf2.valid(v),
        forall|best: int, ex: int| #[trigger] prog(env, d, vf, h, best, ex) ==> prog(env, d2, vf2, h.insert(HeapItem { weight, node_id: node }), best, ex),
        forall|k: int| k <= env.srcs.len() && #[trigger] seeded(env, d, vf, k) ==> seeded(env, d2, vf2, k),
        lsum(d2, vf2, env.n) < lsum(d, vf, env.n),
{
    let it = HeapItem { weight, node_id: node };
    let h2 = h.insert(it);
    assert(vf2.valid(node as int));
    assert(d2[node as int] == Data { settled: false, weight, parent, inc_edge: inc });
    assert forall|v: int| 0 <= v < env.n implies lab(d2, vf2, v) <= #[trigger] lab(d, vf, v) by {
        if v != node { assert(vf2.valid(v) == vf.valid(v)); assert(d2[v] == d[v]); }
    }
    assert forall|v: int| 0 <= v < env.n && #[trigger] vf.valid(v) implies vf2.valid(v) by {
        if v != node { assert(vf2.valid(v) == vf.valid(v)); }
    }
    assert forall|v: int| 0 <= v < env.n && #[trigger] vf2.valid(v) implies label_ok(env, d2, vf2, v) by {
        if v != node {
            assert(vf.valid(v));
            assert(label_ok(env, d, vf, v));
            if d[v].inc_edge != INVALID_EDGE {
                let p = d[v].parent as int;
                assert(env.edges[d[v].inc_edge as int].base_node < env.n);
                assert(vf.valid(p));
                assert(vf2.valid(p));
                assert(lab(d2, vf2, p) <= lab(d, vf, p));
            }
        } else {
            if inc != INVALID_EDGE {
                assert(vf2.valid(parent as int));
            }
        }
    }
    assert forall|x: HeapItem| #[trigger] h2.contains(x) implies x.node_id < env.n && vf2.valid(x.node_id as int) && d2[x.node_id as int].weight <= x.weight && x.weight < usize::MAX by {
        if x != it {
            assert(h.contains(x));
            assert(lab(d2, vf2, x.node_id as int) <= lab(d, vf, x.node_id as int));
        }
    }
    assert forall|best: int, ex: int| #[trigger] prog(env, d, vf, h, best, ex) implies prog(env, d2, vf2, h2, best, ex) by {
        assert forall|v: int| 0 <= v < env.n && v != ex && #[trigger] vf2.valid(v) implies fine(env, d2, vf2, h2, best, v) by {
            if v != node {
                assert(vf.valid(v));
                assert(fine(env, d, vf, h, best, v));
                if d[v].settled && relaxed(env, d, vf, v) {
                    lemma_first(env.edges, env.first, env.ranks, env.n, v);
                    assert forall|k: int| env.first[env.ranks[v] as int] <= k < env.first[env.ranks[v] + 1] implies
                        lab(d2, vf2, (#[trigger] env.edges[k]).adj_node as int) <= d2[v].weight + env.edges[k].weight by {
                        assert(lab(d2, vf2, env.edges[k].adj_node as int) <= lab(d, vf, env.edges[k].adj_node as int));
                    }
                } else if !d[v].settled && h.contains(HeapItem { weight: d[v].weight, node_id: v as usize }) {
                    assert(h2.contains(HeapItem { weight: d[v].weight, node_id: v as usize }));
                } else if better(env, d, v) {
                    assert(better(env, d2, v));
                }
            } else {
                assert(h2.contains(it));
            }
        }
    }
    assert forall|k: int| k <= env.srcs.len() && #[trigger] seeded(env, d, vf, k) implies seeded(env, d2, vf2, k) by {
        assert forall|i: int| 0 <= i < k implies lab(d2, vf2, (#[trigger] env.srcs[i]).0 as int) <= env.srcs[i].1 by {
            assert(lab(d2, vf2, env.srcs[i].0 as int) <= lab(d, vf, env.srcs[i].0 as int));
        }
    }
    assert forall|i: int| 0 <= i < env.n && i != node implies #[trigger] lab(d2, vf2, i) == lab(d, vf, i) by {
        assert(vf2.valid(i) == vf.valid(i));
    }
    lemma_lsum(d, vf, d2, vf2, node as int, env.n);
}

// an item taken out of the heap: its node still has an entry, is too heavy or known to be improvable, unless the item carries its label
pub proof fn lemma_pop(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>, it: HeapItem, best: int)
    requires side(env, d, vf, h), prog(env, d, vf, h, best, -1), h.contains(it),
        forall|y: HeapItem| #[trigger] h.contains(y) ==> it.weight <= y.weight,
    ensures side(env, d, vf, h.remove(it)),
        prog(env, d, vf, h.remove(it), best, it.node_id as int),
        it.node_id < env.n, vf.valid(it.node_id as int), d[it.node_id as int].weight <= it.weight, it.weight < usize::MAX,
        h.remove(it).len() == h.len() - 1,
        d[it.node_id as int].settled ==> fine(env, d, vf, h.remove(it), best, it.node_id as int),
        it.weight > best ==> fine(env, d, vf, h.remove(it), best, it.node_id as int),
        it.weight <= best && !d[it.node_id as int].settled ==> it.weight == d[it.node_id as int].weight || better(env, d, it.node_id as int),
{
    let h2 = h.remove(it);
    let n = it.node_id as int;
    assert forall|x: HeapItem| #[trigger] h2.contains(x) implies h.contains(x) by {}
    assert forall|v: int| 0 <= v < env.n && v != n && #[trigger] vf.valid(v) implies fine(env, d, vf, h2, best, v) by {
        assert(fine(env, d, vf, h, best, v));
        let x = HeapItem { weight: d[v].weight, node_id: v as usize };
        if h.contains(x) { assert(x != it); assert(h2.contains(x)); }
    }
    assert(fine(env, d, vf, h, best, n));
    let own = HeapItem { weight: d[n].weight, node_id: n as usize };
    if own != it && h.contains(own) { assert(h2.contains(own)); }
}

pub proof fn lemma_prog_all(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>, best: int, n: int)
    requires prog(env, d, vf, h, best, n), fine(env, d, vf, h, best, n),
    ensures prog(env, d, vf, h, best, -1),
{}

// v becomes settled after relaxing all its edges
pub proof fn lemma_settle(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>, d2: Seq<Data>, best: int, best2: int, n: int)
    requires side(env, d, vf, h), prog(env, d, vf, h, best, n), 0 <= n < env.n, vf.valid(n),
        relaxed(env, d, vf, n) || better(env, d, n),
        d2.len() == d.len(),
        d2 == d.update(n, Data { settled: true, weight: d[n].weight, parent: d[n].parent, inc_edge: d[n].inc_edge }),
        best2 <= best,
    ensures side(env, d2, vf, h), prog(env, d2, vf, h, best2, -1),
        lsum(d2, vf, env.n) == lsum(d, vf, env.n),
        forall|k: int| k <= env.srcs.len() && #[trigger] seeded(env, d, vf, k) ==> seeded(env, d2, vf, k),
        forall|v: int| 0 <= v < env.n && better(env, d, v) ==> #[trigger] better(env, d2, v),
{
    assert forall|v: int| 0 <= v < env.n implies #[trigger] lab(d2, vf, v) == lab(d, vf, v) by {}
    assert forall|v: int| 0 <= v < env.n && better(env, d, v) implies #[trigger] better(env, d2, v) by {
        let a = choose|a: int| a < d[v].weight && #[trigger] reach(env, v, a);
        assert(reach(env, v, a) && a < d2[v].weight);
    }
    assert forall|v: int| 0 <= v < env.n && #[trigger] vf.valid(v) implies label_ok(env, d2, vf, v) by {
        assert(label_ok(env, d, vf, v));
        if d[v].inc_edge != INVALID_EDGE { assert(env.edges[d[v].inc_edge as int].base_node < env.n); }
    }
    assert forall|v: int| 0 <= v < env.n && #[trigger] vf.valid(v) && relaxed(env, d, vf, v) implies relaxed(env, d2, vf, v) by {
        assert forall|k: int| env.first[env.ranks[v] as int] <= k < env.first[env.ranks[v] + 1] implies
            lab(d2, vf, (#[trigger] env.edges[k]).adj_node as int) <= d2[v].weight + env.edges[k].weight by {
            lemma_first(env.edges, env.first, env.ranks, env.n, v);
            assert(lab(d2, vf, env.edges[k].adj_node as int) == lab(d, vf, env.edges[k].adj_node as int));
        }
    }
    assert forall|v: int| 0 <= v < env.n && #[trigger] vf.valid(v) implies fine(env, d2, vf, h, best2, v) by {
        if v != n { assert(fine(env, d, vf, h, best, v)); }
    }
    assert forall|k: int| k <= env.srcs.len() && #[trigger] seeded(env, d, vf, k) implies seeded(env, d2, vf, k) by {
        assert forall|i: int| 0 <= i < k implies lab(d2, vf, (#[trigger] env.srcs[i]).0 as int) <= env.srcs[i].1 by {
            assert(lab(d2, vf, env.srcs[i].0 as int) == lab(d, vf, env.srcs[i].0 as int));
        }
    }
    lemma_lsum_eq(d, vf, d2, vf, env.n);
}
pub proof fn lemma_lsum_eq(d: Seq<Data>, vf: ValidFlags, d2: Seq<Data>, vf2: ValidFlags, n: int)
    requires n <= d.len(), forall|i: int| 0 <= i < n ==> #[trigger] lab(d2, vf2, i) == lab(d, vf, i),
    ensures lsum(d2, vf2, n) == lsum(d, vf, n),
    decreases n,
{
    if n > 0 { lemma_lsum_eq(d, vf, d2, vf2, n - 1); assert(lab(d2, vf2, n - 1) == lab(d, vf, n - 1)); }
}

// ------------------------------------------------------------------------------------------------------------
// the state of the search as seen from the direction that makes the next step (1) and the other one (2)
pub struct St {
    pub d1: Seq<Data>, pub f1: ValidFlags, pub h1: Multiset<HeapItem>,
    pub d2: Seq<Data>, pub f2: ValidFlags, pub h2: Multiset<HeapItem>,
}
pub open spec fn swap(s: St) -> St { St { d1: s.d2, f1: s.f2, h1: s.h2, d2: s.d1, f2: s.f1, h2: s.h1 } }
pub open spec fn same2(s: St, o: St) -> bool { s.d2 == o.d2 && s.f2 == o.f2 && s.h2 == o.h2 }
pub open spec fn sum1(s: St) -> int { lsum(s.d1, s.f1, s.d1.len() as int) }
pub open spec fn sum2(s: St) -> int { lsum(s.d2, s.f2, s.d2.len() as int) }
// (sum of labels, number of heap entries) of direction 1 got smaller
pub open spec fn less1(s: St, o: St) -> bool { sum1(s) < sum1(o) || (sum1(s) == sum1(o) && s.h1.len() < o.h1.len()) }

// x: the node direction 1 is processing (-1: none)
#[verifier::opaque]
pub open spec fn inv(s: St, e1: Env, e2: Env, best: int, meeting: usize, x: int) -> bool {
    &&& e1.n == e2.n
    &&& side(e1, s.d1, s.f1, s.h1)
    &&& side(e2, s.d2, s.f2, s.h2)
    &&& prog(e1, s.d1, s.f1, s.h1, best, x)
    &&& prog(e2, s.d2, s.f2, s.h2, best, -1)
    &&& seeded(e1, s.d1, s.f1, e1.srcs.len() as int)
    &&& seeded(e2, s.d2, s.f2, e2.srcs.len() as int)
    &&& met(e1, s.d1, s.f1, e2, s.d2, s.f2, best)
    &&& meeting_ok(s.d1, s.f1, s.d2, s.f2, e1.n, meeting, best)
}
pub proof fn lemma_swap(s: St, e1: Env, e2: Env, best: int, meeting: usize)
    requires inv(s, e1, e2, best, meeting, -1),
    ensures inv(swap(s), e2, e1, best, meeting, -1), swap(swap(s)) == s,
{ reveal(inv); }
pub proof fn lemma_sums(s: St)
    ensures sum1(s) >= 0, sum2(s) >= 0,
{
    lemma_lsum_nonneg(s.d1, s.f1, s.d1.len() as int);
    lemma_lsum_nonneg(s.d2, s.f2, s.d2.len() as int);
}

// --- seeding
#[verifier::opaque]
pub open spec fn seeding(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>, k: int) -> bool {
    &&& side(env, d, vf, h)
    &&& prog(env, d, vf, h, wmax(), -1)
    &&& seeded(env, d, vf, k)
    &&& forall|i: int| 0 <= i < env.n && #[trigger] vf.valid(i) ==> !d[i].settled
}
pub proof fn lemma_seed_init(env: Env, d: Seq<Data>, vf: ValidFlags)
    requires env_ok(env), d.len() == env.n, vf.len() == env.n, vf.wf(), forall|i: int| 0 <= i < env.n ==> !#[trigger] vf.valid(i),
    ensures seeding(env, d, vf, Multiset::empty(), 0),
{ reveal(seeding); }
pub proof fn lemma_seed_step(env: Env, d: Seq<Data>, vf: ValidFlags, h: Multiset<HeapItem>, k: int, upd: bool, d2: Seq<Data>, vf2: ValidFlags)
    requires seeding(env, d, vf, h, k), 0 <= k < env.srcs.len(),
        upd == (env.srcs[k].1 < lab(d, vf, env.srcs[k].0 as int)),
        !upd ==> d2 == d && vf2 == vf,
        upd ==> updated(d, vf, d2, vf2, env.srcs[k].0, env.srcs[k].1, env.srcs[k].0, INVALID_EDGE),
    ensures seeding(env, d2, vf2, if upd { h.insert(HeapItem { weight: env.srcs[k].1, node_id: env.srcs[k].0 }) } else { h }, k + 1),
{
    reveal(seeding);
    if upd {
        let node = env.srcs[k].0;
        let weight = env.srcs[k].1;
        lemma_reach_src(env, k, weight as int);
        lemma_update(env, d, vf, h, d2, vf2, node, weight, node, INVALID_EDGE);
        assert(prog(env, d, vf, h, wmax(), -1));
        assert(seeded(env, d, vf, k));
        assert forall|i: int| 0 <= i < env.n && #[trigger] vf2.valid(i) implies !d2[i].settled by {
            if i != node { assert(vf.valid(i)); assert(d2[i] == d[i]); }
        }
    }
}
pub open spec fn direct(starts: Seq<(usize, usize)>, ends: Seq<(usize, usize)>, n: int, meeting: usize, best: usize) -> bool {
    if meeting == INVALID_NODE { best == usize::MAX } else {
        best < usize::MAX && meeting < n && exists|i: int, j: int| 0 <= i < starts.len() && 0 <= j < ends.len()
            && (#[trigger] starts[i]).0 == meeting && (#[trigger] ends[j]).0 == meeting && starts[i].1 + ends[j].1 <= best
    }
}
pub proof fn lemma_start(s: St, e1: Env, e2: Env, best: usize, meeting: usize)
    requires e1.n == e2.n,
        seeding(e1, s.d1, s.f1, s.h1, e1.srcs.len() as int), seeding(e2, s.d2, s.f2, s.h2, e2.srcs.len() as int),
        direct(e1.srcs, e2.srcs, e1.n, meeting, best),
    ensures inv(s, e1, e2, best as int, meeting, -1),
{
    reveal(seeding); reveal(inv);
    assert forall|v: int| 0 <= v < e1.n && #[trigger] s.f1.valid(v) implies fine(e1, s.d1, s.f1, s.h1, best as int, v) by {
        assert(fine(e1, s.d1, s.f1, s.h1, wmax(), v));
    }
    assert forall|v: int| 0 <= v < e1.n && #[trigger] s.f2.valid(v) implies fine(e2, s.d2, s.f2, s.h2, best as int, v) by {
        assert(fine(e2, s.d2, s.f2, s.h2, wmax(), v));
    }
    if meeting != INVALID_NODE {
        let (i, j) = choose|i: int, j: int| 0 <= i < e1.srcs.len() && 0 <= j < e2.srcs.len()
            && (#[trigger] e1.srcs[i]).0 == meeting && (#[trigger] e2.srcs[j]).0 == meeting && e1.srcs[i].1 + e2.srcs[j].1 <= best;
        assert(lab(s.d1, s.f1, e1.srcs[i].0 as int) <= e1.srcs[i].1);
        assert(lab(s.d2, s.f2, e2.srcs[j].0 as int) <= e2.srcs[j].1);
    }
}

// --- one step of direction 1
pub proof fn lemma_step_pop(s0: St, s1: St, e1: Env, e2: Env, best: int, meeting: usize, it: HeapItem)
    requires inv(s0, e1, e2, best, meeting, -1), s0.h1.contains(it), s1 == (St { h1: s0.h1.remove(it), ..s0 }),
        forall|y: HeapItem| #[trigger] s0.h1.contains(y) ==> it.weight <= y.weight,
    ensures inv(s1, e1, e2, best, meeting, it.node_id as int), less1(s1, s0),
        it.node_id < e1.n, s1.f1.valid(it.node_id as int), s1.d1[it.node_id as int].weight <= it.weight, it.weight < usize::MAX,
        s1.d1[it.node_id as int].settled || it.weight > best ==> inv(s1, e1, e2, best, meeting, -1),
        it.weight <= best && !s1.d1[it.node_id as int].settled ==> relaxing(e1, s1.d1, s1.f1, it, e1.first[e1.ranks[it.node_id as int] as int] as int),
{
    reveal(inv); reveal(relaxing);
    lemma_pop(e1, s0.d1, s0.f1, s0.h1, it, best);
}
// the edges of the popped node before position k are relaxed, or its label is known to be too large
#[verifier::opaque]
pub open spec fn relaxing(env: Env, d: Seq<Data>, vf: ValidFlags, it: HeapItem, k: int) -> bool {
    let v = it.node_id as int;
    &&& vf.valid(v)
    &&& d[v].weight <= it.weight
    &&& d[v].weight == it.weight || better(env, d, v)
    &&& d[v].weight == it.weight ==> relaxed_to(env, d, vf, v, k)
}
// edge k leads from a labelled node to the popped one and gives a smaller label than the popped one
pub open spec fn stalls(es: Seq<FastGraphEdge>, d: Seq<Data>, vf: ValidFlags, it: HeapItem, k: int) -> bool {
    0 <= k < es.len() && es[k].base_node == it.node_id && lab(d, vf, es[k].adj_node as int) < wmax()
        && lab(d, vf, es[k].adj_node as int) + es[k].weight < it.weight
}
pub proof fn lemma_step_stall(s: St, e1: Env, e2: Env, best: int, meeting: usize, it: HeapItem, a: usize, w: int)
    requires inv(s, e1, e2, best, meeting, it.node_id as int), it.node_id < e1.n, s.f1.valid(it.node_id as int), s.d1[it.node_id as int].weight <= it.weight,
        relaxing(e1, s.d1, s.f1, it, e1.first[e1.ranks[it.node_id as int] as int] as int),
        a < e1.n, s.f1.valid(a as int), e1.full.contains((a, it.node_id, w)), s.d1[a as int].weight + w < it.weight,
    ensures inv(s, e1, e2, best, meeting, -1),
{
    reveal(inv); reveal(relaxing);
    let c = it.node_id as int;
    assert(label_ok(e1, s.d1, s.f1, a as int));
    lemma_reach_step(e1, a as int, it.node_id, s.d1[a as int].weight as int, w);
    assert(better(e1, s.d1, c)) by {
        if it.weight == s.d1[c].weight { assert(reach(e1, c, s.d1[a as int].weight + w)); }
    }
    lemma_prog_all(e1, s.d1, s.f1, s.h1, best, c);
}
pub proof fn lemma_step_relax(s0: St, s1: St, e1: Env, e2: Env, best: int, meeting: usize, it: HeapItem, k: int, weight: usize, upd: bool)
    requires inv(s0, e1, e2, best, meeting, it.node_id as int), it.node_id < e1.n,
        relaxing(e1, s0.d1, s0.f1, it, k), e1.first[e1.ranks[it.node_id as int] as int] <= k < e1.first[e1.ranks[it.node_id as int] + 1],
        weight == if it.weight + e1.edges[k].weight > usize::MAX { usize::MAX as int } else { it.weight + e1.edges[k].weight },
        upd == (weight < lab(s0.d1, s0.f1, e1.edges[k].adj_node as int)),
        !upd ==> s1 == s0,
        upd ==> updated(s0.d1, s0.f1, s1.d1, s1.f1, e1.edges[k].adj_node, weight, it.node_id, k as usize) && same2(s1, s0)
            && s1.h1 == s0.h1.insert(HeapItem { weight, node_id: e1.edges[k].adj_node }),
    ensures inv(s1, e1, e2, best, meeting, it.node_id as int), relaxing(e1, s1.d1, s1.f1, it, k + 1),
        sum1(s1) < sum1(s0) || s1 == s0,
{
    reveal(inv); reveal(relaxing);
    let v = it.node_id as int;
    let e = e1.edges[k];
    lemma_first(e1.edges, e1.first, e1.ranks, e1.n, v);
    assert(e.base_node == v);
    lemma_keyed(e1.edges, k);
    let node = e.adj_node;
    if upd {
        assert(label_ok(e1, s0.d1, s0.f1, v));
        lemma_reach_step(e1, v, node, s0.d1[v].weight as int, e.weight as int);
        lemma_reach_weaken(e1, node as int, s0.d1[v].weight + e.weight, weight as int);
        assert(s0.f1.valid(v));
        lemma_update(e1, s0.d1, s0.f1, s0.h1, s1.d1, s1.f1, node, weight, it.node_id, k as usize);
        assert forall|u: int| 0 <= u < e1.n && #[trigger] s1.f1.valid(u) && #[trigger] s1.f2.valid(u) && s1.d1[u].settled && s1.d2[u].settled
            implies best <= s1.d1[u].weight + s1.d2[u].weight || better(e1, s1.d1, u) || better(e2, s1.d2, u) by {
            assert(u != node);
            assert(s0.f1.valid(u));
            assert(s1.d1[u] == s0.d1[u]);
            if better(e1, s0.d1, u) { assert(better(e1, s1.d1, u)); }
        }
        if meeting != INVALID_NODE {
            assert(lab(s1.d1, s1.f1, meeting as int) <= lab(s0.d1, s0.f1, meeting as int));
        }
        assert(s1.d1[v] == s0.d1[v]);
        assert(s1.f1.valid(v));
        if better(e1, s0.d1, v) { assert(better(e1, s1.d1, v)); }
    }
    if s0.d1[v].weight == it.weight {
        assert forall|q: int| e1.first[e1.ranks[v] as int] <= q < k + 1 implies
            lab(s1.d1, s1.f1, (#[trigger] e1.edges[q]).adj_node as int) <= s1.d1[v].weight + e1.edges[q].weight by {
            assert(0 <= q < e1.edges.len());
            assert(lab(s1.d1, s1.f1, e1.edges[q].adj_node as int) <= lab(s0.d1, s0.f1, e1.edges[q].adj_node as int));
        }
    }
}
// the popped node is settled and offered as a meeting node: best/meeting become best2/meeting2
pub proof fn lemma_step_settle(s0: St, s1: St, e1: Env, e2: Env, best: int, meeting: usize, it: HeapItem, best2: int, meeting2: usize)
    requires inv(s0, e1, e2, best, meeting, it.node_id as int), same2(s1, s0), s1.f1 == s0.f1, s1.h1 == s0.h1,
        it.node_id < e1.n, relaxing(e1, s0.d1, s0.f1, it, e1.first[e1.ranks[it.node_id as int] + 1] as int),
        s1.d1.len() == s0.d1.len(),
        s1.d1 == s0.d1.update(it.node_id as int, Data { settled: true, weight: s0.d1[it.node_id as int].weight,
            parent: s0.d1[it.node_id as int].parent, inc_edge: s0.d1[it.node_id as int].inc_edge }),
        (best2 == best && meeting2 == meeting && (s0.f2.valid(it.node_id as int) ==> best <= it.weight + s0.d2[it.node_id as int].weight))
        || (best2 < best && best2 < wmax() && meeting2 == it.node_id && s0.f2.valid(it.node_id as int) && best2 == it.weight + s0.d2[it.node_id as int].weight),
    ensures inv(s1, e1, e2, best2, meeting2, -1), sum1(s1) == sum1(s0),
{
    reveal(inv); reveal(relaxing);
    let c = it.node_id as int;
    lemma_settle(e1, s0.d1, s0.f1, s0.h1, s1.d1, best, best2, c);
    assert forall|v: int| 0 <= v < e2.n && v != -1 && #[trigger] s1.f2.valid(v) implies fine(e2, s1.d2, s1.f2, s1.h2, best2, v) by {
        assert(fine(e2, s0.d2, s0.f2, s0.h2, best, v));
    }
    assert forall|v: int| 0 <= v < e1.n && #[trigger] s1.f1.valid(v) && #[trigger] s1.f2.valid(v) && s1.d1[v].settled && s1.d2[v].settled
        implies best2 <= s1.d1[v].weight + s1.d2[v].weight || better(e1, s1.d1, v) || better(e2, s1.d2, v) by {
        if v != c { assert(s0.d1[v].settled); } else {
            if better(e1, s0.d1, c) { assert(better(e1, s1.d1, c)); }
        }
    }
    assert(!s0.f2.valid(c) || label_ok(e2, s0.d2, s0.f2, c));
}

// following the incoming edges of labelled nodes only needs this much
pub open spec fn chain_e(es: Seq<FastGraphEdge>, d: Seq<Data>, vf: ValidFlags, v: int) -> bool {
    let e = d[v].inc_edge as int;
    d[v].inc_edge != INVALID_EDGE ==> {
        &&& e < es.len()
        &&& es[e].adj_node == v
        &&& es[e].base_node == d[v].parent
        &&& vf.valid(d[v].parent as int)
        &&& d[d[v].parent as int].weight + es[e].weight <= d[v].weight
    }
}
pub open spec fn chains(es: Seq<FastGraphEdge>, d: Seq<Data>, vf: ValidFlags, n: int) -> bool {
    forall|v: int| 0 <= v < n && #[trigger] vf.valid(v) ==> chain_e(es, d, vf, v)
}

// --- the end of the search
pub proof fn lemma_end(g: FastGraph, starts: Seq<(usize, usize)>, ends: Seq<(usize, usize)>, s: St, best: int, meeting: usize)
    requires g.ok(), inv(s, env_fwd(g, starts), env_bwd(g, ends), best, meeting, -1), s.h1.len() == 0, s.h2.len() == 0,
    ensures forall|d: int| d < wmax() && #[trigger] total(g.base(), starts, ends, d) ==> best <= d,
        meeting == INVALID_NODE ==> best == wmax(),
        meeting != INVALID_NODE ==> meeting < g.num_nodes && best < wmax() && s.f1.valid(meeting as int) && s.f2.valid(meeting as int)
            && s.d1[meeting as int].weight + s.d2[meeting as int].weight <= best,
        chains(g.edges_fwd@, s.d1, s.f1, g.num_nodes as int), chains(g.edges_bwd@, s.d2, s.f2, g.num_nodes as int),
{
    reveal(inv);
    let ef = env_fwd(g, starts);
    let eb = env_bwd(g, ends);
    assert(s.h1 =~= Multiset::empty());
    assert(s.h2 =~= Multiset::empty());
    assert forall|d: int| d < wmax() && #[trigger] total(g.base(), starts, ends, d) implies best <= d by {
        let (i, j) = choose|i: int, j: int| 0 <= i < starts.len() && 0 <= j < ends.len() && #[trigger] dle(g.base(), starts[i].0, ends[j].0, d - starts[i].1 - ends[j].1);
        lemma_full_base(g);
        assert(dle(g.full(), starts[i].0, ends[j].0, d - starts[i].1 - ends[j].1));
        lemma_complete(g, starts, ends, s.d1, s.f1, s.d2, s.f2, best, d);
    }
    assert forall|v: int| 0 <= v < g.num_nodes && #[trigger] s.f1.valid(v) implies chain_e(g.edges_fwd@, s.d1, s.f1, v) by {
        assert(label_ok(ef, s.d1, s.f1, v));
    }
    assert forall|v: int| 0 <= v < g.num_nodes && #[trigger] s.f2.valid(v) implies chain_e(g.edges_bwd@, s.d2, s.f2, v) by {
        assert(label_ok(eb, s.d2, s.f2, v));
    }
}
// the extracted node sequence is a route of exactly the reported weight
pub proof fn lemma_route(g: FastGraph, starts: Seq<(usize, usize)>, ends: Seq<(usize, usize)>, s: St, best: int, meeting: usize, ns: Seq<usize>)
    requires g.ok(), inv(s, env_fwd(g, starts), env_bwd(g, ends), best, meeting, -1), meeting != INVALID_NODE, best < wmax(),
        forall|d: int| d < wmax() && #[trigger] total(g.base(), starts, ends, d) ==> best <= d,
        ns.len() >= 1, ns[0] < g.num_nodes, ns.last() < g.num_nodes,
        s.f1.valid(ns[0] as int), s.d1[ns[0] as int].inc_edge == INVALID_EDGE,
        s.f2.valid(ns.last() as int), s.d2[ns.last() as int].inc_edge == INVALID_EDGE,
        s.d1[meeting as int].weight + s.d2[meeting as int].weight <= best,
        exists|w: int| #[trigger] walk(g.base(), ns, w) && w + s.d1[ns[0] as int].weight + s.d2[ns.last() as int].weight
            <= s.d1[meeting as int].weight + s.d2[meeting as int].weight,
    ensures route(g.base(), starts, ends, ns, best),
{
    reveal(inv);
    let ef = env_fwd(g, starts);
    let eb = env_bwd(g, ends);
    let f = ns[0] as int;
    let l = ns.last() as int;
    assert(label_ok(ef, s.d1, s.f1, f));
    assert(label_ok(eb, s.d2, s.f2, l));
    let i = choose|i: int| 0 <= i < ef.srcs.len() && (#[trigger] ef.srcs[i]).0 == f && ef.srcs[i].1 <= s.d1[f].weight;
    let j = choose|j: int| 0 <= j < eb.srcs.len() && (#[trigger] eb.srcs[j]).0 == l && eb.srcs[j].1 <= s.d2[l].weight;
    let w = choose|w: int| #[trigger] walk(g.base(), ns, w) && w + s.d1[f].weight + s.d2[l].weight <= s.d1[meeting as int].weight + s.d2[meeting as int].weight;
    lemma_dle_intro(g.base(), ns, w, w);
    let d = w + starts[i].1 + ends[j].1;
    assert(dle(g.base(), starts[i].0, ends[j].0, d - starts[i].1 - ends[j].1));
    assert(total(g.base(), starts, ends, d));
    assert(best == d);
    assert(walk(g.base(), ns, best - starts[i].1 - ends[j].1));
}

// at the end of the search: a node reached optimally by upward edges has its exact label and is settled
pub proof fn lemma_side(env: Env, d: Seq<Data>, vf: ValidFlags, best: int, i: int, ns: Seq<usize>, a: int)
    requires side(env, d, vf, Multiset::empty()), prog(env, d, vf, Multiset::empty(), best, -1), seeded(env, d, vf, env.srcs.len() as int),
        0 <= i < env.srcs.len(), walk(keyed(env.edges), ns, a), ns[0] == env.srcs[i].0,
        forall|c: int| c < env.srcs[i].1 + a ==> !#[trigger] reach(env, ns.last() as int, c),
        env.srcs[i].1 + a <= best, env.srcs[i].1 + a < wmax(),
    ensures ns.last() < env.n, vf.valid(ns.last() as int), d[ns.last() as int].weight <= env.srcs[i].1 + a, d[ns.last() as int].settled,
        relaxed(env, d, vf, ns.last() as int), !better(env, d, ns.last() as int),
    decreases ns.len(),
{
    let x = ns.last() as int;
    let c = env.srcs[i].1 + a;
    if ns.len() == 1 {
        assert(lab(d, vf, env.srcs[i].0 as int) <= env.srcs[i].1);
    } else {
        let w = choose|w: int| #[trigger] keyed(env.edges).contains((ns[ns.len() - 2], ns[ns.len() - 1], w)) && walk(keyed(env.edges), ns.drop_last(), a - w);
        let p = ns.drop_last();
        let y = p.last() as int;
        let k = choose|k: int| 0 <= k < env.edges.len() && (#[trigger] env.edges[k]).base_node == y && env.edges[k].adj_node == x && env.edges[k].weight == w;
        assert forall|c2: int| c2 < env.srcs[i].1 + (a - w) implies !#[trigger] reach(env, p.last() as int, c2) by {
            if reach(env, y, c2) {
                assert(env.full.contains((y as usize, x as usize, w)));
                lemma_reach_step(env, y, x as usize, c2, w);
            }
        }
        lemma_side(env, d, vf, best, i, p, a - w);
        lemma_first(env.edges, env.first, env.ranks, env.n, y);
        assert(lab(d, vf, env.edges[k].adj_node as int) <= d[y].weight + env.edges[k].weight);
    }
    assert(lab(d, vf, x) <= c);
    assert(vf.valid(x));
    assert(fine(env, d, vf, Multiset::empty(), best, x));
}

pub proof fn lemma_reach_total(g: FastGraph, starts: Seq<(usize, usize)>, ends: Seq<(usize, usize)>, m: usize, cf: int, cb: int)
    requires reach(env_fwd(g, starts), m as int, cf), reach(env_bwd(g, ends), m as int, cb),
    ensures total(g.full(), starts, ends, cf + cb),
{
    reveal(reach);
    let ef = env_fwd(g, starts);
    let eb = env_bwd(g, ends);
    let i = choose|i: int| 0 <= i < ef.srcs.len() && 0 <= m <= usize::MAX && dle(ef.full, (#[trigger] ef.srcs[i]).0, m, cf - ef.srcs[i].1);
    let j = choose|j: int| 0 <= j < eb.srcs.len() && 0 <= m <= usize::MAX && dle(eb.full, (#[trigger] eb.srcs[j]).0, m, cb - eb.srcs[j].1);
    lemma_dle_transpose(g.full(), m, ends[j].0, cb - ends[j].1);
    lemma_dle_trans(g.full(), starts[i].0, m, ends[j].0, cf - starts[i].1, cb - ends[j].1);
    assert(dle(g.full(), starts[i].0, ends[j].0, cf + cb - starts[i].1 - ends[j].1));
}

pub proof fn lemma_total_weaken(g: Gr, starts: Seq<(usize, usize)>, ends: Seq<(usize, usize)>, d: int, d2: int)
    requires total(g, starts, ends, d), d <= d2,
    ensures total(g, starts, ends, d2),
{
    let (i, j) = choose|i: int, j: int| 0 <= i < starts.len() && 0 <= j < ends.len() && #[trigger] dle(g, starts[i].0, ends[j].0, d - starts[i].1 - ends[j].1);
    lemma_dle_weaken(g, starts[i].0, ends[j].0, d - starts[i].1 - ends[j].1, d2 - starts[i].1 - ends[j].1);
}

// nothing lighter than best is left when both heaps are empty
pub proof fn lemma_complete(g: FastGraph, starts: Seq<(usize, usize)>, ends: Seq<(usize, usize)>,
    df: Seq<Data>, vff: ValidFlags, db: Seq<Data>, vfb: ValidFlags, best: int, d: int)
    requires g.ok(),
        side(env_fwd(g, starts), df, vff, Multiset::empty()), side(env_bwd(g, ends), db, vfb, Multiset::empty()),
        prog(env_fwd(g, starts), df, vff, Multiset::empty(), best, -1), prog(env_bwd(g, ends), db, vfb, Multiset::empty(), best, -1),
        seeded(env_fwd(g, starts), df, vff, starts.len() as int), seeded(env_bwd(g, ends), db, vfb, ends.len() as int),
        met(env_fwd(g, starts), df, vff, env_bwd(g, ends), db, vfb, best),
        total(g.full(), starts, ends, d), d < wmax(),
    ensures best <= d,
    decreases (if d >= 0 { d + 1 } else { 0 }),
{
    lemma_full_base(g);
    let ef = env_fwd(g, starts);
    let eb = env_bwd(g, ends);
    let (i, j) = choose|i: int, j: int| 0 <= i < starts.len() && 0 <= j < ends.len() && #[trigger] dle(g.full(), starts[i].0, ends[j].0, d - starts[i].1 - ends[j].1);
    let w = d - starts[i].1 - ends[j].1;
    lemma_dle_nonneg(g.full(), starts[i].0, ends[j].0, w);
    if best > d {
        if total(g.full(), starts, ends, d - 1) {
            lemma_complete(g, starts, ends, df, vff, db, vfb, best, d - 1);
        } else {
            let (na, x, nb, y) = lemma_closed(g, starts[i].0, ends[j].0, w);
            let m = na.last();
            lemma_dle_intro(g.up(), na, x, x);
            lemma_dle_intro(g.down_t(), nb, y, y);
            assert(reach(ef, m as int, starts[i].1 + x)) by {
                reveal(reach);
                assert(dle(ef.full, ef.srcs[i].0, m, x));
            }
            assert(reach(eb, m as int, ends[j].1 + y)) by {
                reveal(reach);
                assert(dle(g.full(), m, ends[j].0, y));
                lemma_dle_transpose(g.full(), m, ends[j].0, y);
                assert(dle(eb.full, eb.srcs[j].0, m, y));
            }
            assert forall|c: int| c < ef.srcs[i].1 + x implies !#[trigger] reach(ef, na.last() as int, c) by {
                if reach(ef, na.last() as int, c) {
                    lemma_reach_total(g, starts, ends, m, c, ends[j].1 + y);
                    lemma_total_weaken(g.full(), starts, ends, c + ends[j].1 + y, d - 1);
                }
            }
            assert forall|c: int| c < eb.srcs[j].1 + y implies !#[trigger] reach(eb, nb.last() as int, c) by {
                if reach(eb, nb.last() as int, c) {
                    lemma_reach_total(g, starts, ends, m, starts[i].1 + x, c);
                    lemma_total_weaken(g.full(), starts, ends, c + starts[i].1 + x, d - 1);
                }
            }
            lemma_side(ef, df, vff, best, i, na, x);
            lemma_side(eb, db, vfb, best, j, nb, y);
            assert(best <= df[m as int].weight + db[m as int].weight);
        }
    }
}

}
