// Mathematical graphs: sets of weighted directed edges, walks as node sequences, distances as "a walk of weight <= w".
use vstd::prelude::*;
verus! {

pub type Gr = ISet<(usize, usize, int)>;

pub open spec fn wmax() -> int { usize::MAX as int }

// ns is a walk of total weight w in g
pub open spec fn walk(g: Gr, ns: Seq<usize>, w: int) -> bool
    decreases ns.len(),
{
    if ns.len() == 0 { false }
    else if ns.len() == 1 { w == 0 }
    else { exists|x: int| #[trigger] g.contains((ns[ns.len() - 2], ns[ns.len() - 1], x)) && walk(g, ns.drop_last(), w - x) }
}

// there is a walk from u to v of weight at most w
#[verifier::opaque]
pub open spec fn dle(g: Gr, u: usize, v: usize, w: int) -> bool {
    exists|ns: Seq<usize>, x: int| #[trigger] walk(g, ns, x) && ns[0] == u && ns.last() == v && x <= w
}

pub open spec fn positive(g: Gr) -> bool {
    forall|e: (usize, usize, int)| #[trigger] g.contains(e) ==> e.2 >= 1
}

pub open spec fn transpose(g: Gr) -> Gr {
    ISet::new(|e: (usize, usize, int)| g.contains((e.1, e.0, e.2)))
}

// every edge of g is matched by a walk of h of at most its weight
pub open spec fn simulated(g: Gr, h: Gr) -> bool {
    forall|e: (usize, usize, int)| #[trigger] g.contains(e) && e.2 < wmax() ==> dle(h, e.0, e.1, e.2)
}

pub proof fn lemma_dle_intro(g: Gr, ns: Seq<usize>, x: int, w: int)
    requires walk(g, ns, x), x <= w,
    ensures dle(g, ns[0], ns.last(), w),
{ reveal(dle); }

pub proof fn lemma_dle_elim(g: Gr, u: usize, v: usize, w: int) -> (r: (Seq<usize>, int))
    requires dle(g, u, v, w),
    ensures walk(g, r.0, r.1), r.0.len() >= 1, r.0[0] == u, r.0.last() == v, r.1 <= w,
{
    reveal(dle);
    let (ns, x) = choose|ns: Seq<usize>, x: int| #[trigger] walk(g, ns, x) && ns[0] == u && ns.last() == v && x <= w;
    (ns, x)
}

pub proof fn lemma_dle_refl(g: Gr, u: usize, w: int)
    requires w >= 0,
    ensures dle(g, u, u, w),
{
    let ns = seq![u];
    assert(walk(g, ns, 0));
    lemma_dle_intro(g, ns, 0, w);
}

pub proof fn lemma_dle_weaken(g: Gr, u: usize, v: usize, w: int, w2: int)
    requires dle(g, u, v, w), w <= w2,
    ensures dle(g, u, v, w2),
{
    reveal(dle);
}

pub proof fn lemma_walk_push(g: Gr, ns: Seq<usize>, w: int, v: usize, x: int)
    requires walk(g, ns, w), g.contains((ns.last(), v, x)),
    ensures walk(g, ns.push(v), w + x),
{
    let n2 = ns.push(v);
    assert(n2.drop_last() =~= ns);
    assert(g.contains((n2[n2.len() - 2], n2[n2.len() - 1], x)));
    assert(walk(g, n2.drop_last(), w + x - x));
}

pub proof fn lemma_dle_push(g: Gr, u: usize, m: usize, v: usize, w: int, x: int)
    requires dle(g, u, m, w), g.contains((m, v, x)),
    ensures dle(g, u, v, w + x),
{
    let (ns, y) = lemma_dle_elim(g, u, m, w);
    lemma_walk_push(g, ns, y, v, x);
    lemma_dle_intro(g, ns.push(v), y + x, w + x);
}

pub proof fn lemma_dle_edge(g: Gr, u: usize, v: usize, x: int)
    requires g.contains((u, v, x)),
    ensures dle(g, u, v, x),
{
    lemma_dle_refl(g, u, 0);
    lemma_dle_push(g, u, u, v, 0, x);
}

pub proof fn lemma_walk_concat(g: Gr, a: Seq<usize>, b: Seq<usize>, w1: int, w2: int)
    requires walk(g, a, w1), walk(g, b, w2), a.last() == b[0],
    ensures walk(g, a + b.skip(1), w1 + w2), (a + b.skip(1))[0] == a[0], (a + b.skip(1)).last() == b.last(),
    decreases b.len(),
{
    if b.len() == 1 {
        assert(a + b.skip(1) =~= a);
    } else {
        let x = choose|x: int| #[trigger] g.contains((b[b.len() - 2], b[b.len() - 1], x)) && walk(g, b.drop_last(), w2 - x);
        let b1 = b.drop_last();
        lemma_walk_concat(g, a, b1, w1, w2 - x);
        let c = a + b1.skip(1);
        assert(c.last() == b1.last());
        lemma_walk_push(g, c, w1 + w2 - x, b.last(), x);
        assert(c.push(b.last()) =~= a + b.skip(1));
    }
}

pub proof fn lemma_dle_trans(g: Gr, u: usize, m: usize, v: usize, w1: int, w2: int)
    requires dle(g, u, m, w1), dle(g, m, v, w2),
    ensures dle(g, u, v, w1 + w2),
{
    let (a, x) = lemma_dle_elim(g, u, m, w1);
    let (b, y) = lemma_dle_elim(g, m, v, w2);
    lemma_walk_concat(g, a, b, x, y);
    lemma_dle_intro(g, a + b.skip(1), x + y, w1 + w2);
}

pub proof fn lemma_walk_nonneg(g: Gr, ns: Seq<usize>, w: int)
    requires positive(g), walk(g, ns, w),
    ensures w >= 0, w >= ns.len() - 1,
    decreases ns.len(),
{
    if ns.len() >= 2 {
        let x = choose|x: int| #[trigger] g.contains((ns[ns.len() - 2], ns[ns.len() - 1], x)) && walk(g, ns.drop_last(), w - x);
        lemma_walk_nonneg(g, ns.drop_last(), w - x);
    }
}

pub proof fn lemma_dle_nonneg(g: Gr, u: usize, v: usize, w: int)
    requires positive(g), dle(g, u, v, w),
    ensures w >= 0,
{
    let (a, x) = lemma_dle_elim(g, u, v, w);
    lemma_walk_nonneg(g, a, x);
}

// a walk is trivial or ends with an edge
pub proof fn lemma_dle_last(g: Gr, u: usize, v: usize, w: int) -> (r: (usize, int))
    requires dle(g, u, v, w), u != v,
    ensures g.contains((r.0, v, r.1)), dle(g, u, r.0, w - r.1),
{
    let (ns, y) = lemma_dle_elim(g, u, v, w);
    assert(ns.len() >= 2);
    let x = choose|x: int| #[trigger] g.contains((ns[ns.len() - 2], ns[ns.len() - 1], x)) && walk(g, ns.drop_last(), y - x);
    lemma_dle_intro(g, ns.drop_last(), y - x, w - x);
    (ns[ns.len() - 2], x)
}

pub proof fn lemma_walk_reverse(g: Gr, ns: Seq<usize>, w: int)
    requires walk(g, ns, w),
    ensures walk(transpose(g), ns.reverse(), w),
    decreases ns.len(),
{
    let t = transpose(g);
    if ns.len() == 1 {
        assert(ns.reverse().len() == 1);
    } else {
        let x = choose|x: int| #[trigger] g.contains((ns[ns.len() - 2], ns[ns.len() - 1], x)) && walk(g, ns.drop_last(), w - x);
        let p = ns.drop_last();
        lemma_walk_reverse(g, p, w - x);
        // v, then reverse(p)
        let e = seq![ns[ns.len() - 1], ns[ns.len() - 2]];
        assert(e.drop_last() =~= seq![ns[ns.len() - 1]]);
        assert(walk(t, e.drop_last(), 0));
        assert(t.contains((e[0], e[1], x)));
        lemma_walk_push(t, seq![ns[ns.len() - 1]], 0, ns[ns.len() - 2], x);
        assert(seq![ns[ns.len() - 1]].push(ns[ns.len() - 2]) =~= e);
        lemma_walk_concat(t, e, p.reverse(), x, w - x);
        assert(e + p.reverse().skip(1) =~= ns.reverse());
    }
}

pub proof fn lemma_dle_transpose(g: Gr, u: usize, v: usize, w: int)
    ensures dle(g, u, v, w) <==> dle(transpose(g), v, u, w),
{
    if dle(g, u, v, w) {
        let (ns, x) = lemma_dle_elim(g, u, v, w);
        lemma_walk_reverse(g, ns, x);
        lemma_dle_intro(transpose(g), ns.reverse(), x, w);
    }
    if dle(transpose(g), v, u, w) {
        let (ns, x) = lemma_dle_elim(transpose(g), v, u, w);
        lemma_walk_reverse(transpose(g), ns, x);
        assert(transpose(transpose(g)) =~= g);
        lemma_dle_intro(g, ns.reverse(), x, w);
    }
}

// a walk is trivial or starts with an edge
pub proof fn lemma_dle_first(g: Gr, u: usize, v: usize, w: int) -> (r: (usize, int))
    requires dle(g, u, v, w), u != v,
    ensures g.contains((u, r.0, r.1)), dle(g, r.0, v, w - r.1),
{
    lemma_dle_transpose(g, u, v, w);
    let r = lemma_dle_last(transpose(g), v, u, w);
    lemma_dle_transpose(g, r.0, v, w - r.1);
    r
}

pub proof fn lemma_walk_sim(g: Gr, h: Gr, ns: Seq<usize>, w: int)
    requires walk(g, ns, w), simulated(g, h), positive(g), w < wmax(),
    ensures dle(h, ns[0], ns.last(), w),
    decreases ns.len(),
{
    if ns.len() == 1 {
        lemma_dle_refl(h, ns[0], 0);
    } else {
        let x = choose|x: int| #[trigger] g.contains((ns[ns.len() - 2], ns[ns.len() - 1], x)) && walk(g, ns.drop_last(), w - x);
        lemma_walk_nonneg(g, ns.drop_last(), w - x);
        lemma_walk_sim(g, h, ns.drop_last(), w - x);
        assert(dle(h, ns[ns.len() - 2], ns[ns.len() - 1], x));
        lemma_dle_trans(h, ns[0], ns[ns.len() - 2], ns.last(), w - x, x);
    }
}

pub proof fn lemma_dle_sim(g: Gr, h: Gr, u: usize, v: usize, w: int)
    requires dle(g, u, v, w), simulated(g, h), positive(g), w < wmax(),
    ensures dle(h, u, v, w),
{
    let (ns, x) = lemma_dle_elim(g, u, v, w);
    lemma_walk_sim(g, h, ns, x);
    lemma_dle_weaken(h, u, v, x, w);
}

pub proof fn lemma_walk_sub(g: Gr, h: Gr, ns: Seq<usize>, w: int)
    requires walk(g, ns, w), g.subset_of(h),
    ensures walk(h, ns, w),
    decreases ns.len(),
{
    if ns.len() > 1 {
        let x = choose|x: int| #[trigger] g.contains((ns[ns.len() - 2], ns[ns.len() - 1], x)) && walk(g, ns.drop_last(), w - x);
        lemma_walk_sub(g, h, ns.drop_last(), w - x);
        assert(h.contains((ns[ns.len() - 2], ns[ns.len() - 1], x)));
    }
}

pub proof fn lemma_dle_sub(g: Gr, h: Gr, u: usize, v: usize, w: int)
    requires dle(g, u, v, w), g.subset_of(h),
    ensures dle(h, u, v, w),
{
    let (ns, x) = lemma_dle_elim(g, u, v, w);
    lemma_walk_sub(g, h, ns, x);
    lemma_dle_intro(h, ns, x, w);
}

}
