// Removing a node from a graph, and graphs dominating each other: the arithmetic behind node contraction.
use vstd::prelude::*;
use crate::spec_graph::*;
verus! {

// g without the edges touching x
pub open spec fn minus(g: Gr, x: usize) -> Gr {
    ISet::new(|e: (usize, usize, int)| g.contains(e) && e.0 != x && e.1 != x)
}

// every edge of g has a counterpart in h that is not heavier
pub open spec fn dominated(g: Gr, h: Gr) -> bool {
    forall|e: (usize, usize, int)| #[trigger] g.contains(e) ==> exists|w: int| #[trigger] h.contains((e.0, e.1, w)) && w <= e.2
}
pub proof fn lemma_dominated(g: Gr, h: Gr, x: usize)
    requires dominated(g, h),
    ensures simulated(g, h), simulated(minus(g, x), minus(h, x)),
{
    assert forall|e: (usize, usize, int)| #[trigger] g.contains(e) && e.2 < wmax() implies dle(h, e.0, e.1, e.2) by {
        let w = choose|w: int| #[trigger] h.contains((e.0, e.1, w)) && w <= e.2;
        lemma_dle_edge(h, e.0, e.1, w);
        lemma_dle_weaken(h, e.0, e.1, w, e.2);
    }
    assert forall|e: (usize, usize, int)| #[trigger] minus(g, x).contains(e) && e.2 < wmax() implies dle(minus(h, x), e.0, e.1, e.2) by {
        let w = choose|w: int| #[trigger] h.contains((e.0, e.1, w)) && w <= e.2;
        assert(minus(h, x).contains((e.0, e.1, w)));
        lemma_dle_edge(minus(h, x), e.0, e.1, w);
        lemma_dle_weaken(minus(h, x), e.0, e.1, w, e.2);
    }
}

pub proof fn lemma_dominated_trans(a: Gr, b: Gr, c: Gr)
    requires dominated(a, b), dominated(b, c),
    ensures dominated(a, c),
{
    assert forall|e: (usize, usize, int)| #[trigger] a.contains(e) implies exists|w: int| #[trigger] c.contains((e.0, e.1, w)) && w <= e.2 by {
        let w = choose|w: int| #[trigger] b.contains((e.0, e.1, w)) && w <= e.2;
        let f = (e.0, e.1, w);
        let w2 = choose|w2: int| #[trigger] c.contains((f.0, f.1, w2)) && w2 <= f.2;
        assert(c.contains((e.0, e.1, w2)));
    }
}
// every two-edge route through x is matched by a route of h that avoids x
pub open spec fn bridged(g: Gr, h: Gr, x: usize) -> bool {
    forall|p: usize, q: usize, a: int, b: int| #[trigger] g.contains((p, x, a)) && #[trigger] g.contains((x, q, b)) && p != q && a + b < wmax()
        ==> dle(minus(h, x), p, q, a + b)
}
// distances between the other nodes survive in h without x
#[verifier::opaque]
pub open spec fn preserved(g: Gr, h: Gr, x: usize) -> bool {
    forall|u: usize, v: usize, w: int| u != x && v != x && w < wmax() && #[trigger] dle(g, u, v, w) ==> dle(h, u, v, w)
}
pub proof fn lemma_bypass(g: Gr, h: Gr, x: usize, ns: Seq<usize>, w: int)
    requires walk(g, ns, w), w < wmax(), dominated(g, h), bridged(g, h, x), positive(g), ns[0] != x, ns.last() != x,
        forall|e: (usize, usize, int)| #[trigger] g.contains(e) ==> e.0 != e.1,
    ensures dle(minus(h, x), ns[0], ns.last(), w),
    decreases ns.len(),
{
    let m = minus(h, x);
    if ns.len() == 1 {
        lemma_dle_refl(m, ns[0], 0);
    } else {
        let y = choose|y: int| #[trigger] g.contains((ns[ns.len() - 2], ns[ns.len() - 1], y)) && walk(g, ns.drop_last(), w - y);
        let p = ns.drop_last();
        lemma_walk_nonneg(g, p, w - y);
        let v = ns.last();
        if p.last() != x {
            lemma_bypass(g, h, x, p, w - y);
            lemma_dominated(g, h, x);
            let e = (p.last(), v, y);
            assert(minus(g, x).contains(e));
            assert(dle(m, e.0, e.1, e.2));
            lemma_dle_trans(m, ns[0], p.last(), v, w - y, y);
        } else {
            assert(p.len() >= 2);
            let z = choose|z: int| #[trigger] g.contains((p[p.len() - 2], p[p.len() - 1], z)) && walk(g, p.drop_last(), w - y - z);
            let q = p.drop_last();
            lemma_walk_nonneg(g, q, w - y - z);
            lemma_bypass(g, h, x, q, w - y - z);
            if q.last() == v {
                lemma_dle_weaken(m, ns[0], v, w - y - z, w);
            } else {
                assert(g.contains((q.last(), x, z)) && g.contains((x, v, y)));
                assert(dle(m, q.last(), v, z + y));
                lemma_dle_trans(m, ns[0], q.last(), v, w - y - z, z + y);
            }
        }
    }
}
pub proof fn lemma_preserved(g: Gr, h: Gr, x: usize)
    requires dominated(g, h), bridged(g, h, x), positive(g), forall|e: (usize, usize, int)| #[trigger] g.contains(e) ==> e.0 != e.1,
    ensures preserved(g, minus(h, x), x),
{
    reveal(preserved);
    assert forall|u: usize, v: usize, w: int| u != x && v != x && w < wmax() && #[trigger] dle(g, u, v, w) implies dle(minus(h, x), u, v, w) by {
        let (ns, y) = lemma_dle_elim(g, u, v, w);
        lemma_bypass(g, h, x, ns, y);
        lemma_dle_weaken(minus(h, x), u, v, y, w);
    }
}

}
