use crate::constants::Weight;
use crate::constants::{NodeId, INVALID_NODE};
use crate::input_graph::InputGraph;

/*@
use crate::spec_graph::*;
use crate::input_graph::*;

pub open spec fn listed(es: Seq<Edge>, m: int, u: usize, v: usize, w: usize) -> bool {
    exists|k: int| 0 <= k < m && (#[trigger] es[k]).from == u && es[k].to == v && es[k].weight == w
}

pub open spec fn empties(s: Seq<Vec<Arc>>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k])@ == Seq::<Arc>::empty() }
pub open spec fn uniq(l: Seq<Arc>) -> bool {
    forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> l[i].adj_node != l[j].adj_node
}
pub open spec fn leads(l: Seq<Arc>, adj: usize) -> bool { exists|k: int| 0 <= k < l.len() && (#[trigger] l[k]).adj_node == adj }
pub open spec fn arc(adj: usize, w: usize, c: usize) -> Arc { Arc { adj_node: adj, weight: w, center_node: c } }

pub open spec fn apart(adj: usize) -> spec_fn(Arc) -> bool { |e: Arc| e.adj_node != adj }
pub open spec fn list_at(n: int, owner: int, l: Seq<Arc>) -> bool {
    &&& uniq(l)
    &&& forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).adj_node < n && l[k].adj_node != owner && l[k].weight >= 1
}

pub proof fn lemma_arc(a: Arc)
    ensures a == arc(a.adj_node, a.weight, a.center_node),
{}
pub proof fn lemma_list_push(l: Seq<Arc>, a: Arc)
    ensures forall|x: Arc| #[trigger] l.push(a).contains(x) <==> l.contains(x) || x == a,
        uniq(l) && !leads(l, a.adj_node) ==> uniq(l.push(a)),
{
    let p = l.push(a);
    assert forall|x: Arc| #[trigger] p.contains(x) <==> l.contains(x) || x == a by {
        if l.contains(x) { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; assert(p[k] == x); }
        if x == a { assert(p[l.len() as int] == x); }
        if p.contains(x) { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; if k < l.len() { assert(l[k] == x); } }
    }
}
pub proof fn lemma_list_update(l: Seq<Arc>, ix: int, a: Arc)
    requires uniq(l), 0 <= ix < l.len(), l[ix].adj_node == a.adj_node,
    ensures forall|x: Arc| #[trigger] l.update(ix, a).contains(x) <==> x == a || (l.contains(x) && x.adj_node != a.adj_node),
        uniq(l.update(ix, a)),
{
    let p = l.update(ix, a);
    assert forall|x: Arc| #[trigger] p.contains(x) <==> x == a || (l.contains(x) && x.adj_node != a.adj_node) by {
        if l.contains(x) && x.adj_node != a.adj_node { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; assert(p[k] == x); }
        if x == a { assert(p[ix] == x); }
        if p.contains(x) && x != a { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(l[k] == x); assert(l[ix].adj_node == a.adj_node); }
    }
    assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() implies p[i].adj_node != p[j].adj_node by {
        assert(l[i].adj_node != l[j].adj_node);
    }
}
pub proof fn lemma_list_filter(l: Seq<Arc>, adj: usize)
    requires uniq(l),
    ensures ({
        let r = l.filter(apart(adj));
        &&& uniq(r)
        &&& forall|x: Arc| #[trigger] r.contains(x) <==> l.contains(x) && x.adj_node != adj
        &&& r.len() == l.len() - (if leads(l, adj) { 1int } else { 0 })
    }),
    decreases l.len(),
{
    reveal(Seq::filter);
    let r = l.filter(apart(adj));
    if l.len() > 0 {
        let q = l.drop_last();
        let a = l.last();
        lemma_list_filter(q, adj);
        let rq = q.filter(apart(adj));
        assert(q.push(a) =~= l);
        lemma_list_push(q, a);
        lemma_list_push(rq, a);
        if leads(q, adj) {
            let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).adj_node == adj;
            assert(l[k].adj_node != l[l.len() - 1].adj_node);
            assert(leads(l, adj));
        }
        if leads(l, adj) && a.adj_node != adj {
            let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).adj_node == adj;
            assert(q[k].adj_node == adj);
        }
        if a.adj_node == adj { assert(l[l.len() - 1].adj_node == adj); assert(leads(l, adj)); }
        if a.adj_node != adj {
            assert(r == rq.push(a));
            if leads(rq, a.adj_node) {
                let k = choose|k: int| 0 <= k < rq.len() && (#[trigger] rq[k]).adj_node == a.adj_node;
                assert(rq.contains(rq[k]));
                let m = choose|m: int| 0 <= m < q.len() && q[m] == rq[k];
                assert(l[m].adj_node != l[l.len() - 1].adj_node);
            }
        } else {
            assert(r == rq);
        }
    }
}
pub proof fn lemma_list_at(n: int, owner: int, l: Seq<Arc>)
    requires uniq(l), forall|x: Arc| #[trigger] l.contains(x) ==> x.adj_node < n && x.adj_node != owner && x.weight >= 1,
    ensures list_at(n, owner, l),
{
    assert forall|k: int| 0 <= k < l.len() implies (#[trigger] l[k]).adj_node < n && l[k].adj_node != owner && l[k].weight >= 1 by {
        assert(l.contains(l[k]));
    }
}

impl PreparationGraph {
    // there is an arc u -> v of weight w standing for a route through c (INVALID_NODE: an input edge)
    pub open spec fn has(&self, u: usize, v: usize, w: usize, c: usize) -> bool {
        u < self.num_nodes && self.out_edges@[u as int]@.contains(arc(v, w, c))
    }
    pub open spec fn hin(&self, u: usize, v: usize, w: usize, c: usize) -> bool {
        v < self.num_nodes && self.in_edges@[v as int]@.contains(arc(u, w, c))
    }
    pub open spec fn shape(&self) -> bool {
        &&& self.num_nodes < usize::MAX
        &&& self.out_edges.len() == self.num_nodes
        &&& self.in_edges.len() == self.num_nodes
        &&& forall|u: int| 0 <= u < self.num_nodes ==> list_at(self.num_nodes as int, u, (#[trigger] self.out_edges@[u])@)
        &&& forall|u: int| 0 <= u < self.num_nodes ==> list_at(self.num_nodes as int, u, (#[trigger] self.in_edges@[u])@)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.shape()
        &&& forall|u: usize, v: usize, w: usize, c: usize| #[trigger] self.has(u, v, w, c) ==> self.hin(u, v, w, c)
        &&& forall|u: usize, v: usize, w: usize, c: usize| #[trigger] self.hin(u, v, w, c) ==> self.has(u, v, w, c)
    }
    pub open spec fn gr(&self) -> Gr {
        ISet::new(|e: (usize, usize, int)| exists|w: usize, c: usize| #[trigger] self.has(e.0, e.1, w, c) && e.2 == w)
    }
    pub open spec fn linked(&self, u: usize, v: usize) -> bool { exists|w: usize, c: usize| #[trigger] self.has(u, v, w, c) }
    pub open spec fn low(&self, u: usize, v: usize, w: usize) -> bool { exists|w0: usize, c: usize| #[trigger] self.has(u, v, w0, c) && w0 <= w }
    // the lists of other nodes are untouched
    pub open spec fn only(&self, o: PreparationGraph, u: usize, v: usize) -> bool {
        &&& self.num_nodes == o.num_nodes
        &&& self.out_edges.len() == o.out_edges.len()
        &&& self.in_edges.len() == o.in_edges.len()
        &&& forall|x: int| 0 <= x < self.num_nodes && x != u ==> #[trigger] self.out_edges@[x] == o.out_edges@[x]
        &&& forall|x: int| 0 <= x < self.num_nodes && x != v ==> #[trigger] self.in_edges@[x] == o.in_edges@[x]
    }
}
pub proof fn lemma_gr_positive(g: PreparationGraph)
    requires g.wf(),
    ensures positive(g.gr()), forall|e: (usize, usize, int)| #[trigger] g.gr().contains(e) ==> e.0 < g.num_nodes && e.1 < g.num_nodes && e.0 != e.1 && e.2 <= usize::MAX,
{
    assert forall|e: (usize, usize, int)| #[trigger] g.gr().contains(e) implies e.2 >= 1 && e.0 < g.num_nodes && e.1 < g.num_nodes && e.0 != e.1 && e.2 <= usize::MAX by {
        let (w, c) = choose|w: usize, c: usize| #[trigger] g.has(e.0, e.1, w, c) && e.2 == w;
        let k = lemma_has(g, e.0, e.1, w, c);
    }
}
// progress of reduce_edge through the in-edges of `to`: both copies of the arc are changed once its in-edge is met
pub open spec fn reducing(o: PreparationGraph, g: PreparationGraph, from: usize, to: usize, ox: int, k: int, weight: usize, c: usize) -> bool {
    let li = o.in_edges@[to as int]@;
    let lo = o.out_edges@[from as int]@;
    ||| g == o && forall|q: int| 0 <= q < k ==> (#[trigger] li[q]).adj_node != from
    ||| exists|q: int| 0 <= q < k && (#[trigger] li[q]).adj_node == from
            && g.out_edges@[from as int]@ == lo.update(ox, arc(to, weight, c)) && g.in_edges@[to as int]@ == li.update(q, arc(from, weight, c))
}
pub proof fn lemma_reduce_step(o: PreparationGraph, g0: PreparationGraph, g: PreparationGraph, from: usize, to: usize, ox: int, k: int, weight: usize, c: usize)
    requires o.wf(), from < o.num_nodes, to < o.num_nodes, 0 <= ox < o.out_edges@[from as int].len(), o.out_edges@[from as int]@[ox].adj_node == to,
        g0.only(o, from, to), reducing(o, g0, from, to, ox, k, weight, c), 0 <= k < o.in_edges@[to as int].len(),
        g0.in_edges@[to as int]@[k].adj_node != from ==> g == g0,
        g0.in_edges@[to as int]@[k].adj_node == from ==> g.out_edges@[from as int]@ == g0.out_edges@[from as int]@.update(ox, arc(to, weight, c))
            && g.in_edges@[to as int]@ == g0.in_edges@[to as int]@.update(k, arc(from, weight, c)),
    ensures reducing(o, g, from, to, ox, k + 1, weight, c),
{
    let li = o.in_edges@[to as int]@;
    let lo = o.out_edges@[from as int]@;
    if g0 == o && forall|q: int| 0 <= q < k ==> (#[trigger] li[q]).adj_node != from {
        if li[k].adj_node == from { assert(reducing(o, g, from, to, ox, k + 1, weight, c)); }
    } else {
        let q = choose|q: int| 0 <= q < k && (#[trigger] li[q]).adj_node == from
            && g0.out_edges@[from as int]@ == lo.update(ox, arc(to, weight, c)) && g0.in_edges@[to as int]@ == li.update(q, arc(from, weight, c));
        assert(li[q].adj_node != li[k].adj_node);
        assert(g == g0);
        assert(q < k + 1);
    }
}
pub proof fn lemma_reduced(o: PreparationGraph, g: PreparationGraph, from: usize, to: usize, ox: int, k: int, weight: usize, c: usize)
    requires o.wf(), from < o.num_nodes, to < o.num_nodes, from != to, weight >= 1, 0 <= ox < o.out_edges@[from as int].len(),
        o.out_edges@[from as int]@[ox].adj_node == to, o.out_edges@[from as int]@[ox].weight > weight, g.only(o, from, to), k == o.in_edges@[to as int].len(), reducing(o, g, from, to, ox, k, weight, c),
    ensures g.wf(), o.linked(from, to),
        forall|u: usize, v: usize, w: usize, c2: usize| #[trigger] g.has(u, v, w, c2) <==>
            if u == from && v == to && !o.low(from, to, weight) { w == weight && c2 == c } else { o.has(u, v, w, c2) },
{
    let li = o.in_edges@[to as int]@;
    let lo = o.out_edges@[from as int]@;
    lemma_out_at(o, from, ox);
    let x = lo[ox];
    assert(o.hin(from, to, x.weight, x.center_node));
    let j = choose|j: int| 0 <= j < li.len() && li[j] == arc(from, x.weight, x.center_node);
    assert(li[j].adj_node == from);
    let q = choose|q: int| 0 <= q < k && (#[trigger] li[q]).adj_node == from
            && g.out_edges@[from as int]@ == lo.update(ox, arc(to, weight, c)) && g.in_edges@[to as int]@ == li.update(q, arc(from, weight, c));
    let a = arc(to, weight, c);
    let b = arc(from, weight, c);
    lemma_list_update(lo, ox, a);
    lemma_list_update(li, q, b);
    if o.low(from, to, weight) {
        let (w0, c0) = choose|w0: usize, c0: usize| #[trigger] o.has(from, to, w0, c0) && w0 <= weight;
        lemma_same(o, from, to, w0, c0, x.weight, x.center_node);
    }
    assert forall|y: usize, w: usize, c2: usize| arc(y, w, c2) == a <==> (y == to && w == weight && c2 == c) by {}
    assert forall|u: usize, v: usize, w: usize, c2: usize| #[trigger] g.has(u, v, w, c2) <==>
        if u == from && v == to { w == weight && c2 == c } else { o.has(u, v, w, c2) } by {}
    assert forall|u: usize, v: usize, w: usize, c2: usize| #[trigger] g.hin(u, v, w, c2) <==>
        if u == from && v == to { w == weight && c2 == c } else { o.hin(u, v, w, c2) } by {}
    assert forall|u: usize, v: usize, w: usize, c2: usize| #[trigger] g.has(u, v, w, c2) implies g.hin(u, v, w, c2) by {
        assert(o.has(u, v, w, c2) ==> o.hin(u, v, w, c2));
    }
    assert forall|u: usize, v: usize, w: usize, c2: usize| #[trigger] g.hin(u, v, w, c2) implies g.has(u, v, w, c2) by {
        assert(o.hin(u, v, w, c2) ==> o.has(u, v, w, c2));
    }
}
pub open spec fn led(l: Seq<Arc>, k: int, y: int) -> bool { exists|q: int| 0 <= q < k && (#[trigger] l[q]).adj_node == y }
// progress of disconnect: the arcs to node are gone from the lists of the first k neighbours
#[verifier::opaque]
pub open spec fn pruned(a: Seq<Vec<Arc>>, b: Seq<Vec<Arc>>, l: Seq<Arc>, k: int, node: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|y: int| 0 <= y < b.len() ==> uniq((#[trigger] b[y])@)
    &&& 0 <= node < b.len() && b[node] == a[node]
    &&& forall|y: int, x: Arc| 0 <= y < b.len() && y != node ==> (#[trigger] b[y]@.contains(x) <==> a[y]@.contains(x) && !(x.adj_node == node && led(l, k, y)))
}
pub proof fn lemma_prune_init(a: Seq<Vec<Arc>>, l: Seq<Arc>, node: int)
    requires 0 <= node < a.len(), forall|y: int| 0 <= y < a.len() ==> uniq((#[trigger] a[y])@),
    ensures pruned(a, a, l, 0, node),
{
    reveal(pruned);
}
pub proof fn lemma_prune_leads(a: Seq<Vec<Arc>>, b: Seq<Vec<Arc>>, l: Seq<Arc>, k: int, node: int, x: Arc)
    requires pruned(a, b, l, k, node), uniq(l), 0 <= k < l.len(), l[k].adj_node < a.len(), l[k].adj_node != node, x.adj_node == node, a[l[k].adj_node as int]@.contains(x),
    ensures uniq(b[l[k].adj_node as int]@), leads(b[l[k].adj_node as int]@, x.adj_node), a.len() == b.len(),
{
    reveal(pruned);
    let y = l[k].adj_node as int;
    if led(l, k, y) {
        let q = choose|q: int| 0 <= q < k && (#[trigger] l[q]).adj_node == y;
        assert(l[q].adj_node != l[k].adj_node);
    }
    assert(b[y]@.contains(x));
    let j = choose|j: int| 0 <= j < b[y].len() && b[y]@[j] == x;
    assert(b[y]@[j].adj_node == node);
}
pub proof fn lemma_prune(a: Seq<Vec<Arc>>, b: Seq<Vec<Arc>>, b2: Seq<Vec<Arc>>, l: Seq<Arc>, k: int, node: int)
    requires pruned(a, b, l, k, node), 0 <= k < l.len(), 0 <= node <= usize::MAX, l[k].adj_node < a.len(), l[k].adj_node != node, b2.len() == b.len(),
        forall|x: int| 0 <= x < b2.len() && x != l[k].adj_node ==> #[trigger] b2[x] == b[x],
        b2[l[k].adj_node as int]@ == b[l[k].adj_node as int]@.filter(apart(node as usize)),
    ensures pruned(a, b2, l, k + 1, node),
{
    reveal(pruned);
    let z = l[k].adj_node as int;
    lemma_list_filter(b[z]@, node as usize);
    assert forall|y: int| 0 <= y < b2.len() implies uniq((#[trigger] b2[y])@) by {
        if y != z { assert(b2[y] == b[y]); }
    }
    assert(b2[node] == b[node]);
    assert forall|y: int, x: Arc| 0 <= y < b2.len() && y != node implies (#[trigger] b2[y]@.contains(x) <==> a[y]@.contains(x) && !(x.adj_node == node && led(l, k + 1, y))) by {
        assert(b[y]@.contains(x) <==> a[y]@.contains(x) && !(x.adj_node == node && led(l, k, y)));
        if led(l, k, y) { let q = choose|q: int| 0 <= q < k && (#[trigger] l[q]).adj_node == y; assert(led(l, k + 1, y)); }
        if y == z { assert(led(l, k + 1, y)); } else {
            if led(l, k + 1, y) { let q = choose|q: int| 0 <= q < k + 1 && (#[trigger] l[q]).adj_node == y; assert(q < k); }
            assert(b2[y] == b[y]);
        }
    }
}
pub proof fn lemma_disconnected(o: PreparationGraph, m: PreparationGraph, g: PreparationGraph, node: usize)
    requires o.wf(), node < o.num_nodes, g.num_nodes == o.num_nodes, m.num_nodes == o.num_nodes,
        pruned(o.in_edges@, m.in_edges@, o.out_edges@[node as int]@, o.out_edges@[node as int].len() as int, node as int),
        pruned(o.out_edges@, m.out_edges@, o.in_edges@[node as int]@, o.in_edges@[node as int].len() as int, node as int),
        g.in_edges.len() == m.in_edges.len(), g.out_edges.len() == m.out_edges.len(),
        forall|x: int| 0 <= x < o.num_nodes && x != node ==> #[trigger] g.in_edges@[x] == m.in_edges@[x],
        forall|x: int| 0 <= x < o.num_nodes && x != node ==> #[trigger] g.out_edges@[x] == m.out_edges@[x],
        g.in_edges@[node as int].len() == 0, g.out_edges@[node as int].len() == 0,
    ensures g.wf(),
        forall|u: usize, v: usize, w: usize, c: usize| #[trigger] g.has(u, v, w, c) <==> o.has(u, v, w, c) && u != node && v != node,
{
    reveal(pruned);
    let ln = o.out_edges@[node as int]@;
    let li = o.in_edges@[node as int]@;
    assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] g.has(u, v, w, c) <==> o.has(u, v, w, c) && u != node && v != node by {
        if u != node && u < o.num_nodes {
            assert(m.out_edges@[u as int]@.contains(arc(v, w, c)) <==> o.out_edges@[u as int]@.contains(arc(v, w, c)) && !(v == node && led(li, li.len() as int, u as int)));
            if v == node && o.has(u, v, w, c) {
                assert(o.hin(u, v, w, c));
                let q = choose|q: int| 0 <= q < li.len() && li[q] == arc(u, w, c);
                assert(li[q].adj_node == u);
            }
        }
    }
    assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] g.hin(u, v, w, c) <==> o.hin(u, v, w, c) && u != node && v != node by {
        if v != node && v < o.num_nodes {
            assert(m.in_edges@[v as int]@.contains(arc(u, w, c)) <==> o.in_edges@[v as int]@.contains(arc(u, w, c)) && !(u == node && led(ln, ln.len() as int, v as int)));
            if u == node && o.hin(u, v, w, c) {
                assert(o.has(u, v, w, c));
                let q = choose|q: int| 0 <= q < ln.len() && ln[q] == arc(v, w, c);
                assert(ln[q].adj_node == v);
            }
        }
    }
    assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] g.has(u, v, w, c) implies g.hin(u, v, w, c) by {
        assert(o.has(u, v, w, c) ==> o.hin(u, v, w, c));
    }
    assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] g.hin(u, v, w, c) implies g.has(u, v, w, c) by {
        assert(o.hin(u, v, w, c) ==> o.has(u, v, w, c));
    }
    assert forall|u: int| 0 <= u < g.num_nodes implies list_at(g.num_nodes as int, u, (#[trigger] g.out_edges@[u])@) by {
        let l = g.out_edges@[u]@;
        assert(uniq(l));
        assert forall|x: Arc| #[trigger] l.contains(x) implies x.adj_node < g.num_nodes && x.adj_node != u && x.weight >= 1 by {
            lemma_arc(x);
            assert(g.has(u as usize, x.adj_node, x.weight, x.center_node));
            let k = lemma_has(o, u as usize, x.adj_node, x.weight, x.center_node);
        }
        lemma_list_at(g.num_nodes as int, u, l);
    }
    assert forall|u: int| 0 <= u < g.num_nodes implies list_at(g.num_nodes as int, u, (#[trigger] g.in_edges@[u])@) by {
        let l = g.in_edges@[u]@;
        assert(uniq(l));
        assert forall|x: Arc| #[trigger] l.contains(x) implies x.adj_node < g.num_nodes && x.adj_node != u && x.weight >= 1 by {
            lemma_arc(x);
            assert(g.hin(x.adj_node, u as usize, x.weight, x.center_node));
            assert(o.has(x.adj_node, u as usize, x.weight, x.center_node));
            let k = lemma_has(o, x.adj_node, u as usize, x.weight, x.center_node);
        }
        lemma_list_at(g.num_nodes as int, u, l);
    }
}
// the arc at a position of a list, as has/hin
pub proof fn lemma_out_at(g: PreparationGraph, u: usize, k: int)
    requires g.wf(), u < g.num_nodes, 0 <= k < g.out_edges@[u as int].len(),
    ensures ({ let a = g.out_edges@[u as int]@[k]; g.has(u, a.adj_node, a.weight, a.center_node) && g.hin(u, a.adj_node, a.weight, a.center_node)
        && a.adj_node < g.num_nodes && a.adj_node != u && a.weight >= 1 }),
{
    let a = g.out_edges@[u as int]@[k];
    assert(g.out_edges@[u as int]@.contains(a));
    lemma_arc(a);
    assert(g.has(u, a.adj_node, a.weight, a.center_node));
}
pub proof fn lemma_in_at(g: PreparationGraph, v: usize, k: int)
    requires g.wf(), v < g.num_nodes, 0 <= k < g.in_edges@[v as int].len(),
    ensures ({ let a = g.in_edges@[v as int]@[k]; g.has(a.adj_node, v, a.weight, a.center_node) && g.hin(a.adj_node, v, a.weight, a.center_node)
        && a.adj_node < g.num_nodes && a.adj_node != v && a.weight >= 1 }),
{
    let a = g.in_edges@[v as int]@[k];
    assert(g.in_edges@[v as int]@.contains(a));
    lemma_arc(a);
    assert(g.hin(a.adj_node, v, a.weight, a.center_node));
}
pub proof fn lemma_has(g: PreparationGraph, u: usize, v: usize, w: usize, c: usize) -> (k: int)
    requires g.wf(), g.has(u, v, w, c),
    ensures 0 <= k < g.out_edges@[u as int].len(), g.out_edges@[u as int]@[k] == arc(v, w, c), u < g.num_nodes, v < g.num_nodes, u != v, w >= 1,
        g.gr().contains((u, v, w as int)),
{
    let l = g.out_edges@[u as int]@;
    let k = choose|k: int| 0 <= k < l.len() && l[k] == arc(v, w, c);
    assert(l[k].adj_node == v);
    let e = (u, v, w as int);
    assert(g.has(e.0, e.1, w, c) && e.2 == w);
    k
}
// at most one arc per pair of nodes
pub proof fn lemma_same(g: PreparationGraph, u: usize, v: usize, w: usize, c: usize, w2: usize, c2: usize)
    requires g.wf(), g.has(u, v, w, c), g.has(u, v, w2, c2),
    ensures w == w2, c == c2,
{
    let i = lemma_has(g, u, v, w, c);
    let j = lemma_has(g, u, v, w2, c2);
    let l = g.out_edges@[u as int]@;
    if i < j { assert(l[i].adj_node != l[j].adj_node); }
    if j < i { assert(l[j].adj_node != l[i].adj_node); }
}
@*/
pub struct PreparationGraph {
    pub out_edges: Vec<Vec<Arc>>,
    pub in_edges: Vec<Vec<Arc>>,
    num_nodes: usize,
}

impl PreparationGraph {
    pub fn new(num_nodes: usize) -> Self /*@
        requires num_nodes < usize::MAX,
        ensures res.wf(), res.num_nodes == num_nodes, forall|u: usize, v: usize, w: usize, c: usize| !#[trigger] res.has(u, v, w, c),
    @*/ {
        let out_edges: Vec<Vec<Arc>> = (0..num_nodes).map(|_| /*@
            invariant vp_cc0.len() == vp_itc0, vp_stc0 == 0, vp_endc0 == num_nodes,
                empties(vp_cc0@),
        @*/ Vec::with_capacity(3)).collect();
        let in_edges = out_edges.clone();
        /*@ proof {
            assert forall|k: int| 0 <= k < in_edges.len() implies (#[trigger] in_edges@[k])@ =~= Seq::<Arc>::empty() by {
                assert(cloned(out_edges@[k], in_edges@[k]));
            }
        } @*/
        PreparationGraph {
            out_edges,
            in_edges,
            num_nodes,
        }
    }

    pub fn from_input_graph(input_graph: &InputGraph) -> Self /*@
        requires input_graph.wf(), input_graph.num_nodes < usize::MAX, vp_ok ==> input_graph.frozen,
        ensures input_graph.frozen, // [C09]
            res.wf(), res.num_nodes == input_graph.num_nodes, res.gr() == input_graph.gr(), // [C01]
            forall|u: usize, v: usize, w: usize, c: usize| #[trigger] res.has(u, v, w, c) ==> c == INVALID_NODE, // [C01]
    @*/ {
        let mut graph = PreparationGraph::new(input_graph.get_num_nodes());
        for e in input_graph.get_edges() /*@
            invariant graph.wf(), graph.num_nodes == input_graph.num_nodes, input_graph.wf(), input_graph.frozen,
                *vp_v1 == input_graph.edges, vp_st1 == 0,
                forall|u: usize, v: usize, w: usize, c: usize| #[trigger] graph.has(u, v, w, c) ==> c == INVALID_NODE,
                forall|k: int| 0 <= k < vp_it1 ==> { let e = #[trigger] input_graph.edges@[k]; graph.has(e.from, e.to, e.weight, INVALID_NODE) },
                forall|u: usize, v: usize, w: usize, c: usize| #[trigger] graph.has(u, v, w, c) ==> listed(input_graph.edges@, vp_it1 as int, u, v, w),
        @*/ {
            /*@ proof {
                assert(edge_ok(input_graph.edges@[vp_it1 - 1], input_graph.num_nodes as int));
                if graph.linked(e.from, e.to) {
                    let (w0, c0) = choose|w0: usize, c0: usize| #[trigger] graph.has(e.from, e.to, w0, c0);
                    let q = choose|q: int| 0 <= q < vp_it1 - 1 && (#[trigger] input_graph.edges@[q]).from == e.from && input_graph.edges@[q].to == e.to && input_graph.edges@[q].weight == w0;
                    assert(before(input_graph.edges@[q], input_graph.edges@[vp_it1 - 1]));
                }
            }
            let ghost g0 = graph; @*/
            graph.add_edge(e.from, e.to, e.weight);
            /*@ proof {
                assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] graph.has(u, v, w, c) implies listed(input_graph.edges@, vp_it1 as int, u, v, w) by {
                    if g0.has(u, v, w, c) { assert(listed(input_graph.edges@, vp_it1 - 1, u, v, w)); } else { assert(input_graph.edges@[vp_it1 - 1] == *e); }
                }
            } @*/
        }
        /*@ proof {
            assert forall|e: (usize, usize, int)| graph.gr().contains(e) <==> input_graph.gr().contains(e) by {
                if graph.gr().contains(e) {
                    let (w, c) = choose|w: usize, c: usize| #[trigger] graph.has(e.0, e.1, w, c) && e.2 == w;
                    assert(listed(input_graph.edges@, input_graph.edges.len() as int, e.0, e.1, w));
                }
                if input_graph.gr().contains(e) {
                    let k = choose|k: int| 0 <= k < input_graph.edges.len() && (#[trigger] input_graph.edges@[k]).from == e.0 && input_graph.edges@[k].to == e.1 && input_graph.edges@[k].weight == e.2;
                    let x = input_graph.edges@[k];
                    assert(graph.has(x.from, x.to, x.weight, INVALID_NODE));
                }
            }
            assert(graph.gr() =~= input_graph.gr());
        } @*/
        graph
    }

    pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) /*@
        requires old(self).wf(), from < old(self).num_nodes, to < old(self).num_nodes, from != to, weight >= 1, !old(self).linked(from, to),
        ensures final(self).wf(), final(self).only(*old(self), from, to),
            forall|u: usize, v: usize, w: usize, c: usize| #[trigger] final(self).has(u, v, w, c) <==>
                old(self).has(u, v, w, c) || (u == from && v == to && w == weight && c == INVALID_NODE), // [C01]
    @*/ {
        self.add_edge_or_shortcut(from, to, weight, INVALID_NODE);
    }

    pub fn add_edge_or_shortcut(
        &mut self,
        from: NodeId,
        to: NodeId,
        weight: Weight,
        center_node: NodeId,
    ) /*@
        requires old(self).wf(), from < old(self).num_nodes, to < old(self).num_nodes, from != to, weight >= 1, !old(self).linked(from, to),
        ensures final(self).wf(), final(self).only(*old(self), from, to),
            forall|u: usize, v: usize, w: usize, c: usize| #[trigger] final(self).has(u, v, w, c) <==>
                old(self).has(u, v, w, c) || (u == from && v == to && w == weight && c == center_node), // [C01]
    @*/ {
        self.assert_valid_node_id(to);
        self.out_edges[from].push(Arc::new(to, weight, center_node));
        self.in_edges[to].push(Arc::new(from, weight, center_node));
        /*@ proof {
            let o = *old(self);
            let lo = o.out_edges@[from as int]@;
            let li = o.in_edges@[to as int]@;
            let a = arc(to, weight, center_node);
            let b = arc(from, weight, center_node);
            lemma_list_push(lo, a);
            lemma_list_push(li, b);
            if leads(lo, to) { let k = choose|k: int| 0 <= k < lo.len() && (#[trigger] lo[k]).adj_node == to; lemma_out_at(o, from, k); }
            if leads(li, from) { let k = choose|k: int| 0 <= k < li.len() && (#[trigger] li[k]).adj_node == from; lemma_in_at(o, to, k); }
            assert(self.out_edges@[from as int]@ == lo.push(a));
            assert(self.in_edges@[to as int]@ == li.push(b));
            assert forall|x: usize, w: usize, c: usize| arc(x, w, c) == a <==> (x == to && w == weight && c == center_node) by {}
            assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] self.has(u, v, w, c) <==>
                o.has(u, v, w, c) || (u == from && v == to && w == weight && c == center_node) by {}
            assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] self.hin(u, v, w, c) <==>
                o.hin(u, v, w, c) || (u == from && v == to && w == weight && c == center_node) by {}
            assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] self.has(u, v, w, c) implies self.hin(u, v, w, c) by {
                assert(o.has(u, v, w, c) ==> o.hin(u, v, w, c));
            }
            assert forall|u: usize, v: usize, w: usize, c: usize| #[trigger] self.hin(u, v, w, c) implies self.has(u, v, w, c) by {
                assert(o.hin(u, v, w, c) ==> o.has(u, v, w, c));
            }
        } @*/
    }

    pub fn add_or_reduce_edge(
        &mut self,
        from: NodeId,
        to: NodeId,
        weight: Weight,
        center_node: NodeId,
    ) /*@
        requires old(self).wf(), from < old(self).num_nodes, to < old(self).num_nodes, from != to, weight >= 1,
        ensures final(self).wf(), final(self).only(*old(self), from, to),
            forall|u: usize, v: usize, w: usize, c: usize| #[trigger] final(self).has(u, v, w, c) <==>
                if u == from && v == to && !old(self).low(from, to, weight) { w == weight && c == center_node } else { old(self).has(u, v, w, c) }, // [C01][C05]
    @*/ {
        if self.reduce_edge(from, to, weight, center_node) {
            return;
        }
        self.add_edge_or_shortcut(from, to, weight, center_node);
    }

    fn reduce_edge(
        &mut self,
        from: NodeId,
        to: NodeId,
        weight: Weight,
        center_node: NodeId,
    ) -> bool /*@
        requires old(self).wf(), from < old(self).num_nodes, to < old(self).num_nodes, from != to, weight >= 1,
        ensures final(self).wf(), final(self).only(*old(self), from, to),
            res == old(self).linked(from, to), !res ==> *final(self) == *old(self),
            res ==> forall|u: usize, v: usize, w: usize, c: usize| #[trigger] final(self).has(u, v, w, c) <==>
                if u == from && v == to && !old(self).low(from, to, weight) { w == weight && c == center_node } else { old(self).has(u, v, w, c) }, // [C01][C05]
    @*/ {
        for out_edge in &mut self.out_edges[from] /*@
            invariant *self == *old(self), vp_st1 == 0, vp_end1 == self.out_edges@[from as int].len(),
                forall|k: int| 0 <= k < vp_it1 ==> (#[trigger] self.out_edges@[from as int]@[k]).adj_node != to,
        @*/ {
            if out_edge.adj_node == to {
                if out_edge.weight <= weight {
                    /*@ proof { lemma_out_at(*self, from, vp_ix1 as int); } @*/
                    return true;
                }
                /*@ let ghost o = *self;
                let ghost ox = vp_ix1 as int;
                proof { lemma_out_at(o, from, ox); } @*/
                for in_edge in &mut self.in_edges[to] /*@
                    invariant o == *old(self), ox == vp_ix1, 0 <= ox < o.out_edges@[from as int].len(), o.out_edges@[from as int]@[ox].adj_node == to,
                        vp_st2 == 0, vp_end2 == o.in_edges@[to as int].len(),
                        self.only(o, from, to), o.wf(),
                        reducing(o, *self, from, to, ox, vp_it2 as int, weight, center_node),
                @*/ {
                    /*@ let ghost g0 = *self; @*/
                    if in_edge.adj_node == from {
                        out_edge.weight = weight;
                        in_edge.weight = weight;
                        out_edge.center_node = center_node;
                        in_edge.center_node = center_node;
                    }
                    /*@ proof {
                        if g0.in_edges@[to as int]@[vp_ix2 as int].adj_node == from {
                            assert(g0.out_edges@[from as int]@[ox].adj_node == to);
                            assert(self.out_edges@[from as int]@ =~= g0.out_edges@[from as int]@.update(ox, arc(to, weight, center_node)));
                            assert(self.in_edges@[to as int]@ =~= g0.in_edges@[to as int]@.update(vp_ix2 as int, arc(from, weight, center_node)));
                        }
                        lemma_reduce_step(o, g0, *self, from, to, ox, vp_ix2 as int, weight, center_node);
                    } @*/
                }
                /*@ proof { lemma_reduced(o, *self, from, to, ox, o.in_edges@[to as int].len() as int, weight, center_node); } @*/
                return true;
            }
        }
        /*@ proof {
            if self.linked(from, to) {
                let (w0, c0) = choose|w0: usize, c0: usize| #[trigger] self.has(from, to, w0, c0);
                let k = lemma_has(*self, from, to, w0, c0);
            }
        } @*/
        false
    }

    pub fn get_num_nodes(&self) -> usize /*@
        ensures res == self.num_nodes,
    @*/ {
        self.num_nodes
    }

    pub fn disconnect(&mut self, node: NodeId) /*@
        requires old(self).wf(), node < old(self).num_nodes,
        ensures final(self).wf(), final(self).num_nodes == old(self).num_nodes, // [C01]
            forall|u: usize, v: usize, w: usize, c: usize| #[trigger] final(self).has(u, v, w, c) <==> old(self).has(u, v, w, c) && u != node && v != node, // [C01]
            final(self).out_edges@[node as int].len() == 0, final(self).in_edges@[node as int].len() == 0,
    @*/ {
        /*@ let ghost o = *self;
        let ghost ln = o.out_edges@[node as int]@;
        let ghost li = o.in_edges@[node as int]@;
        proof {
            lemma_prune_init(o.in_edges@, ln, node as int);
            lemma_prune_init(o.out_edges@, li, node as int);
        } @*/
        for i in 0..self.out_edges[node].len() /*@
            invariant o == *old(self), o.wf(), node < o.num_nodes, vp_st1 == 0, vp_end1 == ln.len(), ln == o.out_edges@[node as int]@,
                self.out_edges == o.out_edges, self.num_nodes == o.num_nodes,
                pruned(o.in_edges@, self.in_edges@, ln, vp_it1 as int, node as int),
        @*/ {
            let adj = self.out_edges[node][i].adj_node;
            /*@ let ghost g0 = *self;
            proof {
                lemma_out_at(o, node, i as int);
                lemma_prune_leads(o.in_edges@, g0.in_edges@, ln, i as int, node as int, arc(node, ln[i as int].weight, ln[i as int].center_node));
            } @*/
            self.remove_in_edge(adj, node);
            /*@ proof { lemma_prune(o.in_edges@, g0.in_edges@, self.in_edges@, ln, i as int, node as int); } @*/
        }
        /*@ let ghost g1 = *self;
        proof { reveal(pruned); } @*/
        for i in 0..self.in_edges[node].len() /*@
            invariant o == *old(self), o.wf(), node < o.num_nodes, vp_st1 == 0, vp_end1 == li.len(), li == o.in_edges@[node as int]@, ln == o.out_edges@[node as int]@,
                self.in_edges == g1.in_edges, self.num_nodes == o.num_nodes, self.in_edges.len() == o.num_nodes, self.in_edges@[node as int] == o.in_edges@[node as int],
                pruned(o.in_edges@, g1.in_edges@, ln, ln.len() as int, node as int),
                pruned(o.out_edges@, self.out_edges@, li, vp_it1 as int, node as int),
        @*/ {
            let adj = self.in_edges[node][i].adj_node;
            /*@ let ghost g0 = *self;
            proof {
                lemma_in_at(o, node, i as int);
                lemma_prune_leads(o.out_edges@, g0.out_edges@, li, i as int, node as int, arc(node, li[i as int].weight, li[i as int].center_node));
            } @*/
            self.remove_out_edge(adj, node);
            /*@ proof { lemma_prune(o.out_edges@, g0.out_edges@, self.out_edges@, li, i as int, node as int); } @*/
        }
        /*@ let ghost g2 = *self; @*/
        self.in_edges[node].clear();
        self.out_edges[node].clear();
        /*@ proof { lemma_disconnected(o, g2, *self, node); } @*/
    }

    pub fn remove_out_edge(&mut self, node: NodeId, adj: NodeId) /*@
        requires node < old(self).out_edges.len(), uniq(old(self).out_edges@[node as int]@), leads(old(self).out_edges@[node as int]@, adj),
        ensures final(self).in_edges == old(self).in_edges, final(self).num_nodes == old(self).num_nodes, final(self).out_edges.len() == old(self).out_edges.len(),
            forall|x: int| 0 <= x < final(self).out_edges.len() && x != node ==> #[trigger] final(self).out_edges@[x] == old(self).out_edges@[x],
            final(self).out_edges@[node as int]@ == old(self).out_edges@[node as int]@.filter(apart(adj)),
    @*/ {
        PreparationGraph::remove_edge_with_adj_node(&mut self.out_edges[node], adj);
    }

    pub fn remove_in_edge(&mut self, node: NodeId, adj: NodeId) /*@
        requires node < old(self).in_edges.len(), uniq(old(self).in_edges@[node as int]@), leads(old(self).in_edges@[node as int]@, adj),
        ensures final(self).out_edges == old(self).out_edges, final(self).num_nodes == old(self).num_nodes, final(self).in_edges.len() == old(self).in_edges.len(),
            forall|x: int| 0 <= x < final(self).in_edges.len() && x != node ==> #[trigger] final(self).in_edges@[x] == old(self).in_edges@[x],
            final(self).in_edges@[node as int]@ == old(self).in_edges@[node as int]@.filter(apart(adj)),
    @*/ {
        PreparationGraph::remove_edge_with_adj_node(&mut self.in_edges[node], adj);
    }

    pub fn remove_edge_with_adj_node(edges: &mut Vec<Arc>, adj: NodeId) /*@
        requires uniq(old(edges)@), leads(old(edges)@, adj),
        ensures final(edges)@ == old(edges)@.filter(apart(adj)),
    @*/ {
        /*@ proof { lemma_list_filter(edges@, adj); } @*/
        let len_before = edges.len();
        edges.retain(|e| /*@ -> (o: bool) ensures o == (e.adj_node != adj) @*/ e.adj_node != adj);
        assert_eq!(
            edges.len(),
            len_before - 1,
            "should have removed exactly one edge"
        );
    }

    pub fn get_out_edges(&self, node: NodeId) -> &Vec<Arc> /*@
        requires node < self.out_edges.len(),
        ensures *res == self.out_edges@[node as int],
    @*/ {
        &self.out_edges[node]
    }

    pub fn get_in_edges(&self, node: NodeId) -> &Vec<Arc> /*@
        requires node < self.in_edges.len(),
        ensures *res == self.in_edges@[node as int],
    @*/ {
        &self.in_edges[node]
    }

    fn assert_valid_node_id(&self, node: NodeId) /*@
        requires node < self.num_nodes,
    @*/ {
        if node >= self.num_nodes {
            panic!(
                "invalid node id {}, must be in [0, {})",
                node, self.num_nodes
            );
        }
    }
}

#[derive(Clone)]
pub struct Arc {
    pub adj_node: NodeId,
    pub weight: Weight,
    pub center_node: NodeId,
}

impl Arc {
    pub fn new(adj_node: NodeId, weight: Weight, center_node: NodeId) -> Self /*@
        ensures res == arc(adj_node, weight, center_node),
    @*/ {
        Arc {
            adj_node,
            weight,
            center_node,
        }
    }
}

