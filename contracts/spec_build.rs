// Invariant of the contraction loop: what has been emitted so far together with the remaining graph stands for the input graph.
use vstd::prelude::*;
use crate::constants::*;
use crate::fast_graph::*;
use crate::preparation_graph::*;
use crate::node_contractor::*;
use crate::spec_graph::*;
use crate::spec_prep::*;
verus! {

pub open spec fn edge_of(node: usize, a: Arc) -> FastGraphEdge {
    FastGraphEdge { base_node: node, adj_node: a.adj_node, weight: a.weight, replaced_in_edge: a.center_node, replaced_out_edge: INVALID_EDGE }
}
// es is es0 followed by the first k arcs of l
pub open spec fn emitted(es: Seq<FastGraphEdge>, es0: Seq<FastGraphEdge>, node: usize, l: Seq<Arc>, k: int) -> bool {
    &&& es.len() == es0.len() + k
    &&& forall|i: int| 0 <= i < es0.len() ==> #[trigger] es[i] == es0[i]
    &&& forall|i: int| es0.len() <= i < es.len() ==> #[trigger] es[i] == edge_of(node, l[i - es0.len()])
}

// ------------------------------------------------------------------ orders
pub open spec fn ord_ok(ord: Seq<usize>, n: int) -> bool {
    &&& ord.no_duplicates()
    &&& forall|k: int| 0 <= k < ord.len() ==> #[trigger] ord[k] < n
}
pub proof fn lemma_ord_len(ord: Seq<usize>, n: int)
    requires ord_ok(ord, n), n >= 0,
    ensures ord.len() <= n, ord.len() == n ==> forall|x: usize| x < n ==> #[trigger] ord.contains(x),
        (forall|x: usize| x < n ==> #[trigger] ord.contains(x)) && n <= usize::MAX ==> ord.len() == n,
{
    let t = Seq::new(ord.len(), |i: int| ord[i] as int);
    let r = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(t.no_duplicates());
    t.unique_seq_to_set();
    let s = t.to_set();
    assert(s.subset_of(r)) by {
        assert forall|x: int| s.contains(x) implies r.contains(x) by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
            assert(ord[i] < n);
        }
    }
    vstd::set_lib::lemma_len_subset(s, r);
    if ord.len() == n {
        vstd::set_lib::lemma_subset_equality(s, r);
        assert forall|x: usize| x < n implies #[trigger] ord.contains(x) by {
            assert(s.contains(x as int));
            let i = choose|i: int| 0 <= i < t.len() && t[i] == x as int;
            assert(ord[i] == x);
        }
    }
    if (forall|x: usize| x < n ==> #[trigger] ord.contains(x)) && n <= usize::MAX {
        assert(r.subset_of(s)) by {
            assert forall|x: int| r.contains(x) implies s.contains(x) by {
                assert(ord.contains(x as usize));
                let i = choose|i: int| 0 <= i < ord.len() && ord[i] == x as usize;
                assert(t[i] == x);
            }
        }
        vstd::set_lib::lemma_len_subset(r, s);
    }
}
pub proof fn lemma_ord_push(ord: Seq<usize>, n: int, x: usize)
    requires ord_ok(ord, n), x < n, !ord.contains(x),
    ensures ord_ok(ord.push(x), n), ord.len() < n, forall|y: usize| #[trigger] ord.push(x).contains(y) <==> ord.contains(y) || y == x,
{
    let o2 = ord.push(x);
    assert forall|y: usize| #[trigger] o2.contains(y) <==> ord.contains(y) || y == x by {
        if ord.contains(y) { let k = choose|k: int| 0 <= k < ord.len() && ord[k] == y; assert(o2[k] == y); }
        if y == x { assert(o2[ord.len() as int] == x); }
        if o2.contains(y) { let k = choose|k: int| 0 <= k < o2.len() && o2[k] == y; if k < ord.len() { assert(ord[k] == y); } }
    }
    assert(o2.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < o2.len() && 0 <= j < o2.len() && i != j implies o2[i] != o2[j] by {
            if i < ord.len() { assert(ord.contains(ord[i])); }
            if j < ord.len() { assert(ord.contains(ord[j])); }
        }
    }
    lemma_ord_len(o2, n);
}

// ------------------------------------------------------------------ the edge lists under construction
pub open spec fn bedge(e: FastGraphEdge, k: int, first: Seq<usize>, ord: Seq<usize>, ranks: Seq<usize>, n: int) -> bool {
    let r = ranks[e.base_node as int];
    &&& e.base_node < n && e.adj_node < n && e.adj_node != e.base_node && e.weight >= 1 && e.replaced_out_edge == INVALID_EDGE
    &&& r < ord.len() && ord[r as int] == e.base_node
    &&& first[r as int] <= k < first[r + 1]
    &&& forall|q: int| 0 <= q <= r ==> #[trigger] ord[q] != e.adj_node
}
pub open spec fn pairs_once(es: Seq<FastGraphEdge>) -> bool {
    forall|i: int, j: int| #![trigger es[i], es[j]] 0 <= i < j < es.len() ==> !(es[i].base_node == es[j].base_node && es[i].adj_node == es[j].adj_node)
}
#[verifier::opaque]
pub open spec fn blist(es: Seq<FastGraphEdge>, first: Seq<usize>, ord: Seq<usize>, ranks: Seq<usize>, n: int) -> bool {
    &&& first.len() == n + 1 && ranks.len() == n && ord.len() <= n
    &&& first[0] == 0 && first[ord.len() as int] == es.len()
    &&& forall|i: int, j: int| #![trigger first[i], first[j]] 0 <= i <= j <= ord.len() ==> first[i] <= first[j]
    &&& forall|k: int, e: int| #![trigger ord[k], es[e]] 0 <= k < ord.len() && first[k] <= e < first[k + 1] ==> es[e].base_node == ord[k]
    &&& forall|e: int| 0 <= e < es.len() ==> bedge(#[trigger] es[e], e, first, ord, ranks, n)
    &&& pairs_once(es)
}
pub proof fn lemma_blist_step(es0: Seq<FastGraphEdge>, first0: Seq<usize>, ord: Seq<usize>, ranks: Seq<usize>, n: int, x: usize, l: Seq<Arc>,
    es1: Seq<FastGraphEdge>, first1: Seq<usize>, ranks1: Seq<usize>)
    requires blist(es0, first0, ord, ranks, n), ord_ok(ord, n), x < n, !ord.contains(x), n < usize::MAX,
        list_at(n, x as int, l), forall|k: int| 0 <= k < l.len() ==> !ord.contains((#[trigger] l[k]).adj_node),
        emitted(es1, es0, x, l, l.len() as int), es1.len() <= usize::MAX, ranks1 == ranks.update(x as int, ord.len() as usize),
        first1 == first0.update(ord.len() as int + 1, es1.len() as usize),
    ensures blist(es1, first1, ord.push(x), ranks1, n),
{
    reveal(blist);
    lemma_ord_push(ord, n, x);
    let o2 = ord.push(x);
    let r = ord.len() as int;
    assert forall|k: int| 0 <= k < r implies #[trigger] ord[k] != x by { assert(ord.contains(ord[k])); }
    assert forall|i: int, j: int| #![trigger first1[i], first1[j]] 0 <= i <= j <= o2.len() implies first1[i] <= first1[j] by {
        if i <= r { assert(first0[i] <= first0[r]); }
        if j <= r { assert(first0[i] <= first0[j]); }
    }
    assert forall|k: int, e: int| #![trigger o2[k], es1[e]] 0 <= k < o2.len() && first1[k] <= e < first1[k + 1] implies es1[e].base_node == o2[k] by {
        if k < r {
            assert(first0[k + 1] <= first0[r]);
            assert(ord[k] == o2[k]);
            assert(es0[e].base_node == ord[k]);
        } else {
            assert(es1[e] == edge_of(x, l[e - es0.len()]));
        }
    }
    assert forall|e: int| 0 <= e < es1.len() implies bedge(#[trigger] es1[e], e, first1, o2, ranks1, n) by {
        if e < es0.len() {
            let b = es0[e];
            assert(bedge(b, e, first0, ord, ranks, n));
            let q = ranks[b.base_node as int] as int;
            assert(ord[q] == b.base_node);
            assert(b.base_node != x);
            assert forall|p: int| 0 <= p <= q implies #[trigger] o2[p] != b.adj_node by { assert(ord[p] == o2[p]); }
        } else {
            let a = l[e - es0.len()];
            assert(es1[e] == edge_of(x, a));
            assert(!ord.contains(a.adj_node));
            assert forall|p: int| 0 <= p <= r implies #[trigger] o2[p] != a.adj_node by {
                if p < r { assert(ord.contains(ord[p])); }
            }
        }
    }
    assert forall|i: int, j: int| #![trigger es1[i], es1[j]] 0 <= i < j < es1.len() implies !(es1[i].base_node == es1[j].base_node && es1[i].adj_node == es1[j].adj_node) by {
        if j < es0.len() { assert(es1[i] == es0[i] && es1[j] == es0[j]); }
        else if i < es0.len() {
            assert(bedge(es0[i], i, first0, ord, ranks, n));
            let q = ranks[es0[i].base_node as int] as int;
            assert(ord[q] != x);
        } else {
            assert(l[i - es0.len()].adj_node != l[j - es0.len()].adj_node);
        }
    }
}
pub proof fn lemma_blist_start(first: Seq<usize>, ranks: Seq<usize>, n: int)
    requires first.len() == n + 1, ranks.len() == n, n >= 0, first[0] == 0,
    ensures blist(Seq::empty(), first, Seq::empty(), ranks, n),
{
    reveal(blist);
}
pub proof fn lemma_blist_end(es: Seq<FastGraphEdge>, first: Seq<usize>, ord: Seq<usize>, ranks: Seq<usize>, n: int)
    requires blist(es, first, ord, ranks, n), ord_ok(ord, n), ord.len() == n, n <= usize::MAX,
        forall|k: int| 0 <= k < n ==> ranks[#[trigger] ord[k] as int] == k,
    ensures list_ok(es, first, ranks, n), pairs_once(es), forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]).replaced_out_edge == INVALID_EDGE,
{
    reveal(blist);
    reveal(first_ok);
    lemma_ord_len(ord, n);
    assert forall|k: int| 0 <= k < es.len() implies {
            let e = #[trigger] es[k];
            e.base_node < n && e.adj_node < n && ranks[e.base_node as int] < ranks[e.adj_node as int] && e.weight >= 1 && e.replaced_out_edge == INVALID_EDGE
        } by {
        let e = es[k];
        assert(bedge(e, k, first, ord, ranks, n));
        assert(ord.contains(e.adj_node));
        let q = choose|q: int| 0 <= q < ord.len() && ord[q] == e.adj_node;
        assert(ranks[ord[q] as int] == q);
    }
    assert forall|v: int, k: int| #![trigger ranks[v], es[k]] 0 <= v < n && first[ranks[v] as int] <= k < first[ranks[v] + 1] implies es[k].base_node == v by {
        assert(ord.contains(v as usize));
        let q = choose|q: int| 0 <= q < ord.len() && ord[q] == v as usize;
        assert(ranks[ord[q] as int] == q);
        assert(es[k].base_node == ord[q]);
    }
    assert forall|r: int| 0 <= r <= n implies #[trigger] first[r] <= es.len() by { assert(first[r] <= first[n]); }
    assert forall|k: int| 0 <= k < es.len() implies first[ranks[(#[trigger] es[k]).base_node as int] as int] <= k < first[ranks[es[k].base_node as int] + 1] by {
        assert(bedge(es[k], k, first, ord, ranks, n));
    }
}

// ------------------------------------------------------------------ where arcs come from
// u -> v of weight w is an input edge, or stands for two emitted edges at c, which was contracted before step rk
#[verifier::opaque]
pub open spec fn just(fwd: Seq<FastGraphEdge>, bwd: Seq<FastGraphEdge>, ord: Seq<usize>, g0: Gr, u: usize, v: usize, w: usize, c: usize, rk: int) -> bool {
    if c == INVALID_NODE { g0.contains((u, v, w as int)) } else {
        &&& exists|q: int| 0 <= q < rk && q < ord.len() && #[trigger] ord[q] == c
        &&& exists|i: int, o: int| 0 <= i < bwd.len() && 0 <= o < fwd.len() && #[trigger] bwd[i].base_node == c && #[trigger] fwd[o].base_node == c
                && bwd[i].adj_node == u && fwd[o].adj_node == v && w == bwd[i].weight + fwd[o].weight
    }
}
pub open spec fn prefix<T>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
}
pub proof fn lemma_just_keep(fwd: Seq<FastGraphEdge>, bwd: Seq<FastGraphEdge>, ord: Seq<usize>, fwd2: Seq<FastGraphEdge>, bwd2: Seq<FastGraphEdge>, ord2: Seq<usize>, g0: Gr,
    u: usize, v: usize, w: usize, c: usize, rk: int, rk2: int)
    requires just(fwd, bwd, ord, g0, u, v, w, c, rk), rk <= rk2, prefix(fwd, fwd2), prefix(bwd, bwd2), prefix(ord, ord2),
    ensures just(fwd2, bwd2, ord2, g0, u, v, w, c, rk2),
{
    reveal(just);
    if c != INVALID_NODE {
        let q = choose|q: int| 0 <= q < rk && q < ord.len() && #[trigger] ord[q] == c;
        assert(ord2[q] == c);
        let (i, o) = choose|i: int, o: int| 0 <= i < bwd.len() && 0 <= o < fwd.len() && #[trigger] bwd[i].base_node == c && #[trigger] fwd[o].base_node == c
                && bwd[i].adj_node == u && fwd[o].adj_node == v && w == bwd[i].weight + fwd[o].weight;
        assert(bwd2[i].base_node == c && fwd2[o].base_node == c);
    }
}
#[verifier::opaque]
pub open spec fn justs(fg: FastGraph, ord: Seq<usize>, g0: Gr, p: PreparationGraph) -> bool {
    let f = fg.edges_fwd@;
    let b = fg.edges_bwd@;
    &&& forall|e: int| 0 <= e < f.len() ==> { let x = #[trigger] f[e]; just(f, b, ord, g0, x.base_node, x.adj_node, x.weight, x.replaced_in_edge, fg.ranks@[x.base_node as int] as int) }
    &&& forall|e: int| 0 <= e < b.len() ==> { let x = #[trigger] b[e]; just(f, b, ord, g0, x.adj_node, x.base_node, x.weight, x.replaced_in_edge, fg.ranks@[x.base_node as int] as int) }
    &&& forall|u: usize, v: usize, w: usize, c: usize| #[trigger] p.has(u, v, w, c) ==> just(f, b, ord, g0, u, v, w, c, ord.len() as int)
}

// ------------------------------------------------------------------ distances
// every route of the input graph can be replaced by one that climbs emitted edges, crosses the remaining graph and descends
#[verifier::opaque]
pub open spec fn halfway(g0: Gr, up: Gr, p: Gr, dt: Gr) -> bool {
    forall|s: usize, t: usize, w: int| w < wmax() && #[trigger] dle(g0, s, t, w) ==> split(up, p, dt, s, t, w)
}
pub open spec fn split(up: Gr, p: Gr, dt: Gr, s: usize, t: usize, w: int) -> bool {
    exists|u: usize, v: usize, a: int, b: int, c: int| #[trigger] dle(up, s, u, a) && #[trigger] dle(p, u, v, b) && #[trigger] dle(dt, t, v, c) && a + b + c <= w
}
pub proof fn lemma_halfway_start(g0: Gr, up: Gr, dt: Gr)
    ensures halfway(g0, up, g0, dt),
{
    reveal(halfway);
    assert forall|s: usize, t: usize, w: int| w < wmax() && #[trigger] dle(g0, s, t, w) implies split(up, g0, dt, s, t, w) by {
        lemma_dle_refl(up, s, 0);
        lemma_dle_refl(dt, t, 0);
        assert(dle(up, s, s, 0) && dle(g0, s, t, w) && dle(dt, t, t, 0));
    }
}
pub proof fn lemma_halfway_step(g0: Gr, up: Gr, p: Gr, dt: Gr, up2: Gr, p2: Gr, dt2: Gr, x: usize)
    requires halfway(g0, up, p, dt), preserved(p, p2, x), positive(up), positive(p), positive(dt), up.subset_of(up2), dt.subset_of(dt2),
        forall|e: (usize, usize, int)| #[trigger] p.contains(e) && e.0 == x ==> up2.contains(e),
        forall|e: (usize, usize, int)| #[trigger] p.contains(e) && e.1 == x ==> dt2.contains((e.1, e.0, e.2)),
        forall|e: (usize, usize, int)| #[trigger] p.contains(e) ==> e.0 != e.1,
    ensures halfway(g0, up2, p2, dt2),
{
    reveal(halfway);
    assert forall|s: usize, t: usize, w: int| w < wmax() && #[trigger] dle(g0, s, t, w) implies split(up2, p2, dt2, s, t, w) by {
        assert(split(up, p, dt, s, t, w));
        let (u, v, a, b, c) = choose|u: usize, v: usize, a: int, b: int, c: int| #[trigger] dle(up, s, u, a) && #[trigger] dle(p, u, v, b) && #[trigger] dle(dt, t, v, c) && a + b + c <= w;
        lemma_dle_nonneg(up, s, u, a);
        lemma_dle_nonneg(p, u, v, b);
        lemma_dle_nonneg(dt, t, v, c);
        lemma_dle_sub(up, up2, s, u, a);
        lemma_dle_sub(dt, dt2, t, v, c);
        reveal(preserved);
        if u == x && v == x {
            lemma_dle_refl(p2, x, b);
            assert(dle(up2, s, u, a) && dle(p2, u, v, b) && dle(dt2, t, v, c));
        } else if u == x {
            let (m, y) = lemma_dle_first(p, u, v, b);
            let e = (x, m, y);
            assert(p.contains(e));
            assert(up2.contains(e));
            lemma_dle_push(up2, s, x, m, a, y);
            lemma_dle_nonneg(p, m, v, b - y);
            assert(dle(p2, m, v, b - y));
            assert(dle(up2, s, m, a + y) && dle(p2, m, v, b - y) && dle(dt2, t, v, c));
        } else if v == x {
            let (m, y) = lemma_dle_last(p, u, v, b);
            let e = (m, x, y);
            assert(p.contains(e));
            assert(dt2.contains((x, m, y)));
            lemma_dle_push(dt2, t, x, m, c, y);
            lemma_dle_nonneg(p, u, m, b - y);
            assert(dle(p2, u, m, b - y));
            assert(dle(up2, s, u, a) && dle(p2, u, m, b - y) && dle(dt2, t, m, c + y));
        } else {
            assert(dle(p2, u, v, b));
            assert(dle(up2, s, u, a) && dle(p2, u, v, b) && dle(dt2, t, v, c));
        }
    }
}
pub proof fn lemma_keyed_emit(es0: Seq<FastGraphEdge>, es1: Seq<FastGraphEdge>, x: usize, l: Seq<Arc>)
    requires emitted(es1, es0, x, l, l.len() as int),
    ensures keyed(es0).subset_of(keyed(es1)),
        forall|k: int| 0 <= k < l.len() ==> keyed(es1).contains((x, (#[trigger] l[k]).adj_node, l[k].weight as int)),
{
    assert forall|e: (usize, usize, int)| keyed(es0).contains(e) implies keyed(es1).contains(e) by {
        let k = choose|k: int| 0 <= k < es0.len() && (#[trigger] es0[k]).base_node == e.0 && es0[k].adj_node == e.1 && es0[k].weight == e.2;
        assert(es1[k] == es0[k]);
    }
    assert forall|k: int| 0 <= k < l.len() implies keyed(es1).contains((x, (#[trigger] l[k]).adj_node, l[k].weight as int)) by {
        assert(es1[es0.len() + k] == edge_of(x, l[k]));
    }
}

// ------------------------------------------------------------------ the whole invariant
pub open spec fn binv(fg: FastGraph, ord: Seq<usize>, p: PreparationGraph, g0: Gr) -> bool {
    let n = fg.num_nodes as int;
    &&& n < usize::MAX
    &&& p.wf() && p.num_nodes == n
    &&& ord_ok(ord, n)
    &&& blist(fg.edges_fwd@, fg.first_edge_ids_fwd@, ord, fg.ranks@, n)
    &&& blist(fg.edges_bwd@, fg.first_edge_ids_bwd@, ord, fg.ranks@, n)
    &&& fg.ranks.len() == n && fg.first_edge_ids_fwd.len() == n + 1 && fg.first_edge_ids_bwd.len() == n + 1
    &&& forall|k: int| 0 <= k < ord.len() ==> fg.ranks@[#[trigger] ord[k] as int] == k
    &&& forall|u: usize, v: usize, w: usize, c: usize| #[trigger] p.has(u, v, w, c) ==> !ord.contains(u) && !ord.contains(v)
    &&& justs(fg, ord, g0, p)
    &&& halfway(g0, keyed(fg.edges_fwd@), p.gr(), keyed(fg.edges_bwd@))
}
pub open spec fn fresh(fg: FastGraph, n: int) -> bool {
    &&& fg.num_nodes == n && n < usize::MAX
    &&& fg.edges_fwd.len() == 0 && fg.edges_bwd.len() == 0
    &&& fg.ranks.len() == n && fg.first_edge_ids_fwd.len() == n + 1 && fg.first_edge_ids_bwd.len() == n + 1
    &&& fg.first_edge_ids_fwd@[0] == 0 && fg.first_edge_ids_bwd@[0] == 0
}
pub proof fn lemma_binv_start(fg: FastGraph, p: PreparationGraph, g0: Gr)
    requires fresh(fg, p.num_nodes as int), p.wf(), p.gr() == g0, forall|u: usize, v: usize, w: usize, c: usize| #[trigger] p.has(u, v, w, c) ==> c == INVALID_NODE,
    ensures binv(fg, Seq::empty(), p, g0),
{
    let n = fg.num_nodes as int;
    lemma_blist_start(fg.first_edge_ids_fwd@, fg.ranks@, n);
    lemma_blist_start(fg.first_edge_ids_bwd@, fg.ranks@, n);
    assert(fg.edges_fwd@ =~= Seq::empty());
    assert(fg.edges_bwd@ =~= Seq::empty());
    lemma_halfway_start(g0, keyed(fg.edges_fwd@), keyed(fg.edges_bwd@));
    assert(justs(fg, Seq::empty(), g0, p)) by {
        reveal(justs);
        reveal(just);
        assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] p.has(u, v, w, c) implies just(fg.edges_fwd@, fg.edges_bwd@, Seq::empty(), g0, u, v, w, c, 0) by {
            let k = lemma_has(p, u, v, w, c);
        }
    }
}
pub open spec fn stepped(f0: FastGraph, f1: FastGraph, r: int, x: usize, p: PreparationGraph) -> bool {
    &&& f1.num_nodes == f0.num_nodes
    &&& emitted(f1.edges_fwd@, f0.edges_fwd@, x, p.out_edges@[x as int]@, p.out_edges@[x as int].len() as int)
    &&& emitted(f1.edges_bwd@, f0.edges_bwd@, x, p.in_edges@[x as int]@, p.in_edges@[x as int].len() as int)
    &&& f1.first_edge_ids_fwd@ == f0.first_edge_ids_fwd@.update(r + 1, f1.edges_fwd.len())
    &&& f1.first_edge_ids_bwd@ == f0.first_edge_ids_bwd@.update(r + 1, f1.edges_bwd.len())
    &&& f1.ranks@ == f0.ranks@.update(x as int, r as usize)
}
pub proof fn lemma_justs_step(f0: FastGraph, f1: FastGraph, ord: Seq<usize>, p: PreparationGraph, p2: PreparationGraph, g0: Gr, x: usize)
    requires binv(f0, ord, p, g0), x < f0.num_nodes, !ord.contains(x), stepped(f0, f1, ord.len() as int, x, p), p2.wf(), p2.num_nodes == p.num_nodes,
        forall|u: usize, v: usize, w: usize, c: usize| #[trigger] p2.has(u, v, w, c) ==> u != x && v != x && (p.has(u, v, w, c) || (c == x && via(p, u, x, v, w))),
    ensures justs(f1, ord.push(x), g0, p2),
{
    reveal(justs);
    let o2 = ord.push(x);
    let (fa, ba, fb, bb) = (f0.edges_fwd@, f0.edges_bwd@, f1.edges_fwd@, f1.edges_bwd@);
    let lo = p.out_edges@[x as int]@;
    let li = p.in_edges@[x as int]@;
    let r = ord.len() as int;
    lemma_ord_push(ord, f0.num_nodes as int, x);
    assert(prefix(fa, fb) && prefix(ba, bb) && prefix(ord, o2));
    assert forall|e: int| 0 <= e < fb.len() implies { let y = #[trigger] fb[e]; just(fb, bb, o2, g0, y.base_node, y.adj_node, y.weight, y.replaced_in_edge, f1.ranks@[y.base_node as int] as int) } by {
        let y = fb[e];
        if e < fa.len() {
            assert(y == fa[e]);
            assert(bedge(y, e, f0.first_edge_ids_fwd@, ord, f0.ranks@, f0.num_nodes as int)) by { reveal(blist); }
            assert(ord.contains(ord[f0.ranks@[y.base_node as int] as int]));
            lemma_just_keep(fa, ba, ord, fb, bb, o2, g0, y.base_node, y.adj_node, y.weight, y.replaced_in_edge, f0.ranks@[y.base_node as int] as int, f1.ranks@[y.base_node as int] as int);
        } else {
            let k = e - fa.len();
            assert(y == edge_of(x, lo[k]));
            lemma_out_at(p, x, k);
            lemma_just_keep(fa, ba, ord, fb, bb, o2, g0, x, y.adj_node, y.weight, y.replaced_in_edge, r, r);
        }
    }
    assert forall|e: int| 0 <= e < bb.len() implies { let y = #[trigger] bb[e]; just(fb, bb, o2, g0, y.adj_node, y.base_node, y.weight, y.replaced_in_edge, f1.ranks@[y.base_node as int] as int) } by {
        let y = bb[e];
        if e < ba.len() {
            assert(y == ba[e]);
            assert(bedge(y, e, f0.first_edge_ids_bwd@, ord, f0.ranks@, f0.num_nodes as int)) by { reveal(blist); }
            assert(ord.contains(ord[f0.ranks@[y.base_node as int] as int]));
            lemma_just_keep(fa, ba, ord, fb, bb, o2, g0, y.adj_node, y.base_node, y.weight, y.replaced_in_edge, f0.ranks@[y.base_node as int] as int, f1.ranks@[y.base_node as int] as int);
        } else {
            let k = e - ba.len();
            assert(y == edge_of(x, li[k]));
            lemma_in_at(p, x, k);
            lemma_just_keep(fa, ba, ord, fb, bb, o2, g0, y.adj_node, x, y.weight, y.replaced_in_edge, r, r);
        }
    }
    assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] p2.has(u, v, w, c) implies just(fb, bb, o2, g0, u, v, w, c, o2.len() as int) by {
        if p.has(u, v, w, c) {
            lemma_just_keep(fa, ba, ord, fb, bb, o2, g0, u, v, w, c, r, r + 1);
        } else {
            let (w1, c1, w2, c2) = choose|w1: usize, c1: usize, w2: usize, c2: usize| #[trigger] p.has(u, x, w1, c1) && #[trigger] p.has(x, v, w2, c2) && w == w1 + w2;
            assert(p.hin(u, x, w1, c1));
            let i = choose|i: int| 0 <= i < li.len() && li[i] == arc(u, w1, c1);
            let o = lemma_has(p, x, v, w2, c2);
            assert(bb[ba.len() + i] == edge_of(x, li[i]));
            assert(fb[fa.len() + o] == edge_of(x, lo[o]));
            reveal(just);
            assert(o2[r] == x);
            assert(bb[ba.len() + i].base_node == x && fb[fa.len() + o].base_node == x);
        }
    }
}
pub proof fn lemma_binv_step(f0: FastGraph, f1: FastGraph, ord: Seq<usize>, p: PreparationGraph, p2: PreparationGraph, g0: Gr, x: usize)
    requires binv(f0, ord, p, g0), x < f0.num_nodes, !ord.contains(x), stepped(f0, f1, ord.len() as int, x, p), p2.wf(), p2.num_nodes == p.num_nodes,
        forall|u: usize, v: usize, w: usize, c: usize| #[trigger] p2.has(u, v, w, c) ==> u != x && v != x && (p.has(u, v, w, c) || (c == x && via(p, u, x, v, w))),
        preserved(p.gr(), p2.gr(), x),
    ensures binv(f1, ord.push(x), p2, g0),
{
    let n = f0.num_nodes as int;
    let o2 = ord.push(x);
    let lo = p.out_edges@[x as int]@;
    let li = p.in_edges@[x as int]@;
    lemma_ord_push(ord, n, x);
    assert(list_at(n, x as int, lo) && list_at(n, x as int, li)) by {
        assert(p.out_edges@[x as int]@ == lo && p.in_edges@[x as int]@ == li);
    }
    assert forall|k: int| 0 <= k < lo.len() implies !ord.contains((#[trigger] lo[k]).adj_node) by { lemma_out_at(p, x, k); }
    assert forall|k: int| 0 <= k < li.len() implies !ord.contains((#[trigger] li[k]).adj_node) by { lemma_in_at(p, x, k); }
    lemma_blist_step(f0.edges_fwd@, f0.first_edge_ids_fwd@, ord, f0.ranks@, n, x, lo, f1.edges_fwd@, f1.first_edge_ids_fwd@, f1.ranks@);
    lemma_blist_step(f0.edges_bwd@, f0.first_edge_ids_bwd@, ord, f0.ranks@, n, x, li, f1.edges_bwd@, f1.first_edge_ids_bwd@, f1.ranks@);
    assert forall|k: int| 0 <= k < o2.len() implies f1.ranks@[#[trigger] o2[k] as int] == k by {
        if k < ord.len() { assert(ord[k] == o2[k]); assert(ord.contains(ord[k])); }
    }
    assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] p2.has(u, v, w, c) implies !o2.contains(u) && !o2.contains(v) by {
        if p.has(u, v, w, c) { } else {
            let (w1, c1, w2, c2) = choose|w1: usize, c1: usize, w2: usize, c2: usize| #[trigger] p.has(u, x, w1, c1) && #[trigger] p.has(x, v, w2, c2) && w == w1 + w2;
        }
    }
    lemma_justs_step(f0, f1, ord, p, p2, g0, x);
    lemma_keyed_emit(f0.edges_fwd@, f1.edges_fwd@, x, lo);
    lemma_keyed_emit(f0.edges_bwd@, f1.edges_bwd@, x, li);
    lemma_gr_positive(p);
    let (up, dt, up2, dt2) = (keyed(f0.edges_fwd@), keyed(f0.edges_bwd@), keyed(f1.edges_fwd@), keyed(f1.edges_bwd@));
    assert(positive(up) && positive(dt)) by { reveal(blist); lemma_keyed_positive(f0.edges_fwd@, f0.first_edge_ids_fwd@, ord, f0.ranks@, n); lemma_keyed_positive(f0.edges_bwd@, f0.first_edge_ids_bwd@, ord, f0.ranks@, n); }
    assert forall|e: (usize, usize, int)| #[trigger] p.gr().contains(e) && e.0 == x implies up2.contains(e) by {
        let (w, c) = choose|w: usize, c: usize| #[trigger] p.has(e.0, e.1, w, c) && e.2 == w;
        let k = lemma_has(p, e.0, e.1, w, c);
        assert(up2.contains((x, lo[k].adj_node, lo[k].weight as int)));
    }
    assert forall|e: (usize, usize, int)| #[trigger] p.gr().contains(e) && e.1 == x implies dt2.contains((e.1, e.0, e.2)) by {
        let (w, c) = choose|w: usize, c: usize| #[trigger] p.has(e.0, e.1, w, c) && e.2 == w;
        assert(p.hin(e.0, e.1, w, c));
        let k = choose|k: int| 0 <= k < li.len() && li[k] == arc(e.0, w, c);
        assert(dt2.contains((x, li[k].adj_node, li[k].weight as int)));
    }
    lemma_halfway_step(g0, up, p.gr(), dt, up2, p2.gr(), dt2, x);
}
pub proof fn lemma_keyed_positive(es: Seq<FastGraphEdge>, first: Seq<usize>, ord: Seq<usize>, ranks: Seq<usize>, n: int)
    requires blist(es, first, ord, ranks, n),
    ensures positive(keyed(es)),
{
    reveal(blist);
    assert forall|e: (usize, usize, int)| #[trigger] keyed(es).contains(e) implies e.2 >= 1 by {
        let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).base_node == e.0 && es[k].adj_node == e.1 && es[k].weight == e.2;
        assert(bedge(es[k], k, first, ord, ranks, n));
    }
}

// ------------------------------------------------------------------ after the last contraction: edges still name center nodes
pub open spec fn named(fg: FastGraph, g0: Gr, u: usize, v: usize, w: usize, c: usize, rk: int) -> bool {
    if c == INVALID_NODE { g0.contains((u, v, w as int)) } else {
        &&& c < fg.num_nodes && fg.ranks@[c as int] < rk
        &&& exists|i: int, o: int| 0 <= i < fg.edges_bwd.len() && 0 <= o < fg.edges_fwd.len() && #[trigger] fg.edges_bwd@[i].base_node == c && #[trigger] fg.edges_fwd@[o].base_node == c
                && fg.edges_bwd@[i].adj_node == u && fg.edges_fwd@[o].adj_node == v && w == fg.edges_bwd@[i].weight + fg.edges_fwd@[o].weight
    }
}
pub open spec fn named_fwd(fg: FastGraph, g0: Gr, e: int) -> bool {
    let x = fg.edges_fwd@[e];
    x.replaced_out_edge == INVALID_EDGE && named(fg, g0, x.base_node, x.adj_node, x.weight, x.replaced_in_edge, fg.ranks@[x.base_node as int] as int)
}
pub open spec fn named_bwd(fg: FastGraph, g0: Gr, e: int) -> bool {
    let x = fg.edges_bwd@[e];
    x.replaced_out_edge == INVALID_EDGE && named(fg, g0, x.adj_node, x.base_node, x.weight, x.replaced_in_edge, fg.ranks@[x.base_node as int] as int)
}
pub open spec fn layered(fg: FastGraph) -> bool {
    &&& fg.ranks_ok()
    &&& list_ok(fg.edges_fwd@, fg.first_edge_ids_fwd@, fg.ranks@, fg.num_nodes as int)
    &&& list_ok(fg.edges_bwd@, fg.first_edge_ids_bwd@, fg.ranks@, fg.num_nodes as int)
    &&& pairs_once(fg.edges_fwd@) && pairs_once(fg.edges_bwd@)
}
#[verifier::opaque]
pub open spec fn crossing(g0: Gr, fg: FastGraph) -> bool {
    forall|s: usize, t: usize, w: int| w < wmax() && #[trigger] dle(g0, s, t, w) ==> fg.updown(s, t, w)
}
pub open spec fn complete(fg: FastGraph, g0: Gr) -> bool {
    &&& layered(fg)
    &&& forall|e: int| 0 <= e < fg.edges_fwd.len() ==> #[trigger] named_fwd(fg, g0, e)
    &&& forall|e: int| 0 <= e < fg.edges_bwd.len() ==> #[trigger] named_bwd(fg, g0, e)
    &&& crossing(g0, fg)
}
pub proof fn lemma_just_named(fg: FastGraph, ord: Seq<usize>, p: PreparationGraph, g0: Gr, u: usize, v: usize, w: usize, c: usize, rk: int)
    requires binv(fg, ord, p, g0), just(fg.edges_fwd@, fg.edges_bwd@, ord, g0, u, v, w, c, rk),
    ensures named(fg, g0, u, v, w, c, rk),
{
    reveal(just);
    if c != INVALID_NODE {
        let q = choose|q: int| 0 <= q < rk && q < ord.len() && #[trigger] ord[q] == c;
        assert(fg.ranks@[ord[q] as int] == q);
    }
}
pub proof fn lemma_complete_build(fg: FastGraph, ord: Seq<usize>, p: PreparationGraph, g0: Gr)
    requires binv(fg, ord, p, g0), forall|x: usize| x < fg.num_nodes ==> #[trigger] ord.contains(x),
    ensures complete(fg, g0), ord.len() == fg.num_nodes,
{
    let n = fg.num_nodes as int;
    lemma_ord_len(ord, n);
    lemma_blist_end(fg.edges_fwd@, fg.first_edge_ids_fwd@, ord, fg.ranks@, n);
    lemma_blist_end(fg.edges_bwd@, fg.first_edge_ids_bwd@, ord, fg.ranks@, n);
    assert(fg.ranks_ok()) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] fg.ranks@[i] < n by {
            assert(ord.contains(i as usize));
            let q = choose|q: int| 0 <= q < ord.len() && ord[q] == i as usize;
            assert(fg.ranks@[ord[q] as int] == q);
        }
        assert forall|i: int, j: int| #![trigger fg.ranks@[i], fg.ranks@[j]] 0 <= i < n && 0 <= j < n && fg.ranks@[i] == fg.ranks@[j] implies i == j by {
            assert(ord.contains(i as usize) && ord.contains(j as usize));
            let a = choose|q: int| 0 <= q < ord.len() && ord[q] == i as usize;
            let b = choose|q: int| 0 <= q < ord.len() && ord[q] == j as usize;
            assert(fg.ranks@[ord[a] as int] == a && fg.ranks@[ord[b] as int] == b);
        }
    }
    reveal(justs);
    assert forall|e: int| 0 <= e < fg.edges_fwd.len() implies #[trigger] named_fwd(fg, g0, e) by {
        let x = fg.edges_fwd@[e];
        lemma_just_named(fg, ord, p, g0, x.base_node, x.adj_node, x.weight, x.replaced_in_edge, fg.ranks@[x.base_node as int] as int);
    }
    assert forall|e: int| 0 <= e < fg.edges_bwd.len() implies #[trigger] named_bwd(fg, g0, e) by {
        let x = fg.edges_bwd@[e];
        lemma_just_named(fg, ord, p, g0, x.adj_node, x.base_node, x.weight, x.replaced_in_edge, fg.ranks@[x.base_node as int] as int);
    }
    assert(crossing(g0, fg)) by {
        reveal(crossing);
        reveal(halfway);
        let (up, dt) = (keyed(fg.edges_fwd@), keyed(fg.edges_bwd@));
        lemma_keyed_positive(fg.edges_fwd@, fg.first_edge_ids_fwd@, ord, fg.ranks@, n);
        assert forall|s: usize, t: usize, w: int| w < wmax() && #[trigger] dle(g0, s, t, w) implies fg.updown(s, t, w) by {
            assert(split(up, p.gr(), dt, s, t, w));
            let (u, v, a, b, c) = choose|u: usize, v: usize, a: int, b: int, c: int| #[trigger] dle(up, s, u, a) && #[trigger] dle(p.gr(), u, v, b) && #[trigger] dle(dt, t, v, c) && a + b + c <= w;
            if u != v {
                let (m, y) = lemma_dle_last(p.gr(), u, v, b);
                let e = (m, v, y);
                assert(p.gr().contains(e));
                let (w2, c2) = choose|w2: usize, c2: usize| #[trigger] p.has(e.0, e.1, w2, c2) && e.2 == w2;
                let k = lemma_has(p, m, v, w2, c2);
                assert(ord.contains(v));
            }
            lemma_gr_positive(p);
            lemma_dle_nonneg(p.gr(), u, v, b);
            assert(dle(fg.up(), s, u, a) && dle(fg.down_t(), t, u, c));
        }
    }
}

// ------------------------------------------------------------------ resolving center nodes to edge ids
pub open spec fn core(a: FastGraphEdge, b: FastGraphEdge) -> bool { a.base_node == b.base_node && a.adj_node == b.adj_node && a.weight == b.weight }
pub open spec fn same_core(a: FastGraph, o: FastGraph) -> bool {
    &&& a.num_nodes == o.num_nodes && a.ranks == o.ranks && a.first_edge_ids_fwd == o.first_edge_ids_fwd && a.first_edge_ids_bwd == o.first_edge_ids_bwd
    &&& a.edges_fwd.len() == o.edges_fwd.len() && a.edges_bwd.len() == o.edges_bwd.len()
    &&& forall|e: int| 0 <= e < o.edges_fwd.len() ==> core(#[trigger] a.edges_fwd@[e], o.edges_fwd@[e])
    &&& forall|e: int| 0 <= e < o.edges_bwd.len() ==> core(#[trigger] a.edges_bwd@[e], o.edges_bwd@[e])
}
// x names the in-edge u -> c and the out-edge c -> v
pub open spec fn linked_to(o: FastGraph, x: FastGraphEdge, c: usize, u: usize, v: usize) -> bool {
    if c == INVALID_NODE { x.replaced_in_edge == INVALID_EDGE && x.replaced_out_edge == INVALID_EDGE } else {
        &&& x.replaced_in_edge < o.edges_bwd.len() && x.replaced_out_edge < o.edges_fwd.len()
        &&& o.edges_bwd@[x.replaced_in_edge as int].base_node == c && o.edges_bwd@[x.replaced_in_edge as int].adj_node == u
        &&& o.edges_fwd@[x.replaced_out_edge as int].base_node == c && o.edges_fwd@[x.replaced_out_edge as int].adj_node == v
    }
}
pub open spec fn link_fwd(o: FastGraph, a: FastGraph, e: int) -> bool {
    linked_to(o, a.edges_fwd@[e], o.edges_fwd@[e].replaced_in_edge, o.edges_fwd@[e].base_node, o.edges_fwd@[e].adj_node)
}
pub open spec fn link_bwd(o: FastGraph, a: FastGraph, e: int) -> bool {
    linked_to(o, a.edges_bwd@[e], o.edges_bwd@[e].replaced_in_edge, o.edges_bwd@[e].adj_node, o.edges_bwd@[e].base_node)
}
pub proof fn lemma_same_core(a: FastGraph, o: FastGraph)
    requires same_core(a, o), layered(o),
    ensures layered(a), a.up() == o.up(), a.down_t() == o.down_t(),
{
    reveal(first_ok);
    assert forall|k: int| 0 <= k < a.edges_fwd.len() implies {
            let e = #[trigger] a.edges_fwd@[k];
            e.base_node < a.num_nodes && e.adj_node < a.num_nodes && a.ranks@[e.base_node as int] < a.ranks@[e.adj_node as int] && e.weight >= 1
        } by { assert(core(a.edges_fwd@[k], o.edges_fwd@[k])); }
    assert forall|k: int| 0 <= k < a.edges_bwd.len() implies {
            let e = #[trigger] a.edges_bwd@[k];
            e.base_node < a.num_nodes && e.adj_node < a.num_nodes && a.ranks@[e.base_node as int] < a.ranks@[e.adj_node as int] && e.weight >= 1
        } by { assert(core(a.edges_bwd@[k], o.edges_bwd@[k])); }
    lemma_first_core(a.edges_fwd@, o.edges_fwd@, o.first_edge_ids_fwd@, o.ranks@, o.num_nodes as int);
    lemma_first_core(a.edges_bwd@, o.edges_bwd@, o.first_edge_ids_bwd@, o.ranks@, o.num_nodes as int);
}
pub open spec fn all_core(a: Seq<FastGraphEdge>, o: Seq<FastGraphEdge>) -> bool {
    a.len() == o.len() && forall|e: int| 0 <= e < o.len() ==> core(#[trigger] a[e], o[e])
}
pub proof fn lemma_first_core(a: Seq<FastGraphEdge>, o: Seq<FastGraphEdge>, first: Seq<usize>, ranks: Seq<usize>, n: int)
    requires a.len() == o.len(), forall|e: int| 0 <= e < o.len() ==> core(#[trigger] a[e], o[e]), list_ok(o, first, ranks, n), pairs_once(o),
        forall|i: int| 0 <= i < n ==> #[trigger] ranks[i] < n,
    ensures first_ok(a, first, ranks, n), pairs_once(a), keyed(a) == keyed(o),
{
    hide(list_ok); hide(pairs_once); hide(keyed);
    assert(all_core(a, o));
    lemma_core_first(a, o, first, ranks, n);
    lemma_core_once(a, o);
    lemma_core_keyed(a, o);
}
proof fn lemma_core_first(a: Seq<FastGraphEdge>, o: Seq<FastGraphEdge>, first: Seq<usize>, ranks: Seq<usize>, n: int)
    requires all_core(a, o), list_ok(o, first, ranks, n), forall|i: int| 0 <= i < n ==> #[trigger] ranks[i] < n,
    ensures first_ok(a, first, ranks, n),
{
    reveal(first_ok);
    assert forall|k: int| 0 <= k < a.len() implies first[ranks[(#[trigger] a[k]).base_node as int] as int] <= k < first[ranks[a[k].base_node as int] + 1] by {
        assert(core(a[k], o[k]));
    }
    assert forall|v: int, k: int| #![trigger ranks[v], a[k]] 0 <= v < n && first[ranks[v] as int] <= k < first[ranks[v] + 1] implies a[k].base_node == v by {
        assert(core(a[k], o[k]));
        assert(o[k].base_node == v);
    }
}
proof fn lemma_core_once(a: Seq<FastGraphEdge>, o: Seq<FastGraphEdge>)
    requires all_core(a, o), pairs_once(o),
    ensures pairs_once(a),
{
    assert forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() implies !(a[i].base_node == a[j].base_node && a[i].adj_node == a[j].adj_node) by {
        assert(core(a[i], o[i]) && core(a[j], o[j]));
    }
}
proof fn lemma_core_keyed(a: Seq<FastGraphEdge>, o: Seq<FastGraphEdge>)
    requires all_core(a, o),
    ensures keyed(a) == keyed(o),
{
    assert forall|e: (usize, usize, int)| keyed(a).contains(e) <==> keyed(o).contains(e) by {
        if keyed(a).contains(e) {
            let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).base_node == e.0 && a[k].adj_node == e.1 && a[k].weight == e.2;
            assert(core(a[k], o[k]));
        }
        if keyed(o).contains(e) {
            let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).base_node == e.0 && o[k].adj_node == e.1 && o[k].weight == e.2;
            assert(core(a[k], o[k]));
        }
    }
    assert(keyed(a) =~= keyed(o));
}
pub proof fn lemma_pair(es: Seq<FastGraphEdge>, i: int, j: int)
    requires pairs_once(es), 0 <= i < es.len(), 0 <= j < es.len(), es[i].base_node == es[j].base_node, es[i].adj_node == es[j].adj_node,
    ensures i == j,
{
    if i < j { assert(es[i].base_node == es[j].base_node); }
    if j < i { assert(es[j].base_node == es[i].base_node); }
}
// all edges resolved: the prepared graph is complete and stands for the input graph
pub proof fn lemma_finished(o: FastGraph, a: FastGraph, g0: Gr)
    requires complete(o, g0), same_core(a, o),
        forall|e: int| 0 <= e < o.edges_fwd.len() ==> #[trigger] link_fwd(o, a, e),
        forall|e: int| 0 <= e < o.edges_bwd.len() ==> #[trigger] link_bwd(o, a, e),
    ensures a.ok(), a.represents(g0),
{
    lemma_same_core(a, o);
    assert forall|k: int| 0 <= k < a.edges_fwd.len() implies #[trigger] sc_fwd(a, k) by {
        assert(link_fwd(o, a, k) && named_fwd(o, g0, k));
        let x = o.edges_fwd@[k];
        let y = a.edges_fwd@[k];
        assert(core(y, x));
        let c = x.replaced_in_edge;
        if c != INVALID_NODE {
            let (i, q) = choose|i: int, q: int| 0 <= i < o.edges_bwd.len() && 0 <= q < o.edges_fwd.len() && #[trigger] o.edges_bwd@[i].base_node == c && #[trigger] o.edges_fwd@[q].base_node == c
                && o.edges_bwd@[i].adj_node == x.base_node && o.edges_fwd@[q].adj_node == x.adj_node && x.weight == o.edges_bwd@[i].weight + o.edges_fwd@[q].weight;
            lemma_pair(o.edges_bwd@, i, y.replaced_in_edge as int);
            lemma_pair(o.edges_fwd@, q, y.replaced_out_edge as int);
            assert(core(a.edges_bwd@[i], o.edges_bwd@[i]) && core(a.edges_fwd@[q], o.edges_fwd@[q]));
        }
    }
    assert forall|k: int| 0 <= k < a.edges_bwd.len() implies #[trigger] sc_bwd(a, k) by {
        assert(link_bwd(o, a, k) && named_bwd(o, g0, k));
        let x = o.edges_bwd@[k];
        let y = a.edges_bwd@[k];
        assert(core(y, x));
        let c = x.replaced_in_edge;
        if c != INVALID_NODE {
            let (i, q) = choose|i: int, q: int| 0 <= i < o.edges_bwd.len() && 0 <= q < o.edges_fwd.len() && #[trigger] o.edges_bwd@[i].base_node == c && #[trigger] o.edges_fwd@[q].base_node == c
                && o.edges_bwd@[i].adj_node == x.adj_node && o.edges_fwd@[q].adj_node == x.base_node && x.weight == o.edges_bwd@[i].weight + o.edges_fwd@[q].weight;
            lemma_pair(o.edges_bwd@, i, y.replaced_in_edge as int);
            lemma_pair(o.edges_fwd@, q, y.replaced_out_edge as int);
            assert(core(a.edges_bwd@[i], o.edges_bwd@[i]) && core(a.edges_fwd@[q], o.edges_fwd@[q]));
        }
    }
    assert(a.wf());
    assert(a.base().subset_of(g0)) by {
        assert forall|e: (usize, usize, int)| a.base().contains(e) implies g0.contains(e) by {
            if keyed_base(a.edges_fwd@).contains(e) {
                let k = choose|k: int| 0 <= k < a.edges_fwd.len() && (#[trigger] a.edges_fwd@[k]).base_node == e.0 && a.edges_fwd@[k].adj_node == e.1 && a.edges_fwd@[k].weight == e.2 && a.edges_fwd@[k].replaced_in_edge == INVALID_EDGE;
                assert(link_fwd(o, a, k) && named_fwd(o, g0, k) && core(a.edges_fwd@[k], o.edges_fwd@[k]));
            } else {
                let k = choose|k: int| 0 <= k < a.edges_bwd.len() && (#[trigger] a.edges_bwd@[k]).base_node == e.1 && a.edges_bwd@[k].adj_node == e.0 && a.edges_bwd@[k].weight == e.2 && a.edges_bwd@[k].replaced_in_edge == INVALID_EDGE;
                assert(link_bwd(o, a, k) && named_bwd(o, g0, k) && core(a.edges_bwd@[k], o.edges_bwd@[k]));
            }
        }
    }
    lemma_full_base(a);
    reveal(crossing);
    assert(a.closed_()) by {
        reveal(FastGraph::closed_);
        assert forall|s: usize, t: usize, w: int| w < wmax() && #[trigger] dle(a.full(), s, t, w) implies a.updown(s, t, w) by {
            assert(dle(a.base(), s, t, w));
            lemma_dle_sub(a.base(), g0, s, t, w);
            lemma_updown_same(o, a, s, t, w);
        }
    }
    assert forall|s: usize, t: usize, w: int| w < wmax() && #[trigger] dle(g0, s, t, w) implies dle(a.base(), s, t, w) by {
        lemma_updown_same(o, a, s, t, w);
        let (m, x, y) = choose|m: usize, x: int, y: int| #[trigger] dle(a.up(), s, m, x) && #[trigger] dle(a.down_t(), t, m, y) && x + y <= w;
        assert(dle(a.full(), s, m, x));
        assert(dle(a.full(), m, t, y));
        lemma_dle_trans(a.full(), s, m, t, x, y);
        lemma_dle_weaken(a.full(), s, t, x + y, w);
    }
}
pub proof fn lemma_updown_same(o: FastGraph, a: FastGraph, s: usize, t: usize, w: int)
    requires o.updown(s, t, w), a.up() == o.up(), a.down_t() == o.down_t(),
    ensures a.updown(s, t, w),
{
    let (m, x, y) = choose|m: usize, x: int, y: int| #[trigger] dle(o.up(), s, m, x) && #[trigger] dle(o.down_t(), t, m, y) && x + y <= w;
    assert(dle(a.up(), s, m, x) && dle(a.down_t(), t, m, y));
}

}
