use std::cmp;
use std::fmt;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

#[cfg(test)]
use rand::rngs::StdRng;
#[cfg(test)]
use rand::Rng;

use serde::{Deserialize, Serialize};

use crate::constants::NodeId;
use crate::constants::Weight;
use crate::constants::INVALID_NODE;

/*@
use crate::spec_graph::*;

pub open spec fn ecmp(a: Edge, b: Edge) -> cmp::Ordering {
    if a.from < b.from { cmp::Ordering::Less } else if a.from > b.from { cmp::Ordering::Greater }
    else if a.to < b.to { cmp::Ordering::Less } else if a.to > b.to { cmp::Ordering::Greater }
    else if a.weight < b.weight { cmp::Ordering::Less } else if a.weight > b.weight { cmp::Ordering::Greater }
    else { cmp::Ordering::Equal }
}
pub open spec fn before(a: Edge, b: Edge) -> bool { a.from < b.from || (a.from == b.from && a.to < b.to) }
// strictly increasing by (source, target): sorted and no pair twice
pub open spec fn normal(s: Seq<Edge>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> before(s[i], s[j])
}
pub open spec fn joins(e: Edge, u: usize, v: usize) -> bool { e.from == u && e.to == v }
pub open spec fn winf() -> int { wmax() + 1 }
// the smallest weight among the edges u -> v (winf: there is none)
pub open spec fn minw(s: Seq<Edge>, u: usize, v: usize) -> int
    decreases s.len(),
{
    if s.len() == 0 { winf() } else {
        let m = minw(s.drop_last(), u, v);
        if joins(s.last(), u, v) && s.last().weight < m { s.last().weight as int } else { m }
    }
}
pub proof fn lemma_minw(s: Seq<Edge>, u: usize, v: usize)
    ensures minw(s, u, v) <= winf(),
        forall|k: int| 0 <= k < s.len() && joins(#[trigger] s[k], u, v) ==> minw(s, u, v) <= s[k].weight,
        minw(s, u, v) < winf() ==> exists|k: int| 0 <= k < s.len() && joins(#[trigger] s[k], u, v) && s[k].weight == minw(s, u, v),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_minw(p, u, v);
        assert forall|k: int| 0 <= k < s.len() && joins(#[trigger] s[k], u, v) implies minw(s, u, v) <= s[k].weight by {
            if k < s.len() - 1 { assert(p[k] == s[k]); }
        }
        if minw(p, u, v) < winf() {
            let k = choose|k: int| 0 <= k < p.len() && joins(#[trigger] p[k], u, v) && p[k].weight == minw(p, u, v);
            assert(s[k] == p[k]);
        }
        assert(s[s.len() - 1] == s.last());
    }
}
// n dominates m: every edge of m is matched by one of n that is not heavier
pub open spec fn covers(n: Seq<Edge>, m: Seq<Edge>) -> bool {
    forall|k: int| 0 <= k < m.len() ==> covered(n, #[trigger] m[k])
}
pub open spec fn covered(n: Seq<Edge>, e: Edge) -> bool {
    exists|j: int| 0 <= j < n.len() && joins(#[trigger] n[j], e.from, e.to) && n[j].weight <= e.weight
}
pub open spec fn within(n: Seq<Edge>, m: Seq<Edge>) -> bool {
    forall|k: int| 0 <= k < n.len() ==> m.contains(#[trigger] n[k])
}
pub proof fn lemma_minw_same(n: Seq<Edge>, m: Seq<Edge>)
    requires covers(n, m), within(n, m),
    ensures forall|u: usize, v: usize| #[trigger] minw(n, u, v) == minw(m, u, v),
{
    assert forall|u: usize, v: usize| #[trigger] minw(n, u, v) == minw(m, u, v) by {
        lemma_minw(n, u, v);
        lemma_minw(m, u, v);
        if minw(n, u, v) < winf() {
            let k = choose|k: int| 0 <= k < n.len() && joins(#[trigger] n[k], u, v) && n[k].weight == minw(n, u, v);
            assert(m.contains(n[k]));
            let q = choose|q: int| 0 <= q < m.len() && m[q] == n[k];
            assert(joins(m[q], u, v));
        }
        if minw(m, u, v) < winf() {
            let k = choose|k: int| 0 <= k < m.len() && joins(#[trigger] m[k], u, v) && m[k].weight == minw(m, u, v);
            assert(covered(n, m[k]));
        }
    }
}
// a normal list is determined by minw: it contains exactly the edges (u, v, minw(u, v)), each once
pub proof fn lemma_normal(s: Seq<Edge>, k: int)
    requires normal(s), 0 <= k < s.len(),
    ensures s[k].weight == minw(s, s[k].from, s[k].to),
        forall|j: int| 0 <= j < s.len() && joins(#[trigger] s[j], s[k].from, s[k].to) ==> j == k,
{
    let u = s[k].from;
    let v = s[k].to;
    assert forall|j: int| 0 <= j < s.len() && joins(#[trigger] s[j], u, v) implies j == k by {
        if j < k { assert(before(s[j], s[k])); }
        if k < j { assert(before(s[k], s[j])); }
    }
    lemma_minw(s, u, v);
    assert(joins(s[k], u, v));
}
pub proof fn lemma_minw_push(s: Seq<Edge>, e: Edge)
    ensures forall|u: usize, v: usize| #[trigger] minw(s.push(e), u, v) == if joins(e, u, v) && e.weight < minw(s, u, v) { e.weight as int } else { minw(s, u, v) },
{
    assert(s.push(e).drop_last() =~= s);
}
// two normal lists with the same smallest weights are the same list
pub proof fn lemma_normal_unique(a: Seq<Edge>, b: Seq<Edge>)
    requires normal(a), normal(b), forall|u: usize, v: usize| #[trigger] minw(a, u, v) == minw(b, u, v),
    ensures a == b, // [C08]
    decreases a.len(),
{
    if a.len() == 0 || b.len() == 0 {
        if a.len() > 0 { lemma_minw(a, a[0].from, a[0].to); lemma_minw(b, a[0].from, a[0].to); assert(joins(a[0], a[0].from, a[0].to)); }
        if b.len() > 0 { lemma_minw(b, b[0].from, b[0].to); lemma_minw(a, b[0].from, b[0].to); assert(joins(b[0], b[0].from, b[0].to)); }
        assert(a =~= b);
    } else {
        let x = a.last();
        let y = b.last();
        lemma_minw(a, x.from, x.to); lemma_minw(b, x.from, x.to); lemma_minw(a, y.from, y.to); lemma_minw(b, y.from, y.to);
        assert(joins(a[a.len() - 1], x.from, x.to));
        assert(joins(b[b.len() - 1], y.from, y.to));
        let k = choose|k: int| 0 <= k < b.len() && joins(#[trigger] b[k], x.from, x.to) && b[k].weight == minw(b, x.from, x.to);
        let q = choose|q: int| 0 <= q < a.len() && joins(#[trigger] a[q], y.from, y.to) && a[q].weight == minw(a, y.from, y.to);
        if k < b.len() - 1 { assert(before(b[k], b[b.len() - 1])); }
        if q < a.len() - 1 { assert(before(a[q], a[a.len() - 1])); }
        assert(joins(x, y.from, y.to));
        lemma_normal(a, a.len() - 1);
        lemma_normal(b, b.len() - 1);
        assert(x == y);
        let a1 = a.drop_last();
        let b1 = b.drop_last();
        assert forall|u: usize, v: usize| #[trigger] minw(a1, u, v) == minw(b1, u, v) by {
            assert(minw(a, u, v) == minw(b, u, v));
            if joins(x, u, v) {
                lemma_minw(a1, u, v); lemma_minw(b1, u, v);
                if minw(a1, u, v) < winf() { let z = choose|z: int| 0 <= z < a1.len() && joins(#[trigger] a1[z], u, v) && a1[z].weight == minw(a1, u, v); assert(before(a[z], a[a.len() - 1])); }
                if minw(b1, u, v) < winf() { let z = choose|z: int| 0 <= z < b1.len() && joins(#[trigger] b1[z], u, v) && b1[z].weight == minw(b1, u, v); assert(before(b[z], b[b.len() - 1])); }
            }
        }
        lemma_normal_unique(a1, b1);
        assert(a =~= a1.push(x));
        assert(b =~= b1.push(y));
    }
}

pub open spec fn sorted(s: Seq<Edge>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> ecmp(s[i], s[j]) != cmp::Ordering::Greater
}
// out: the first k edges of s without repetitions
#[verifier::opaque]
pub open spec fn deduping(out: Seq<Edge>, s: Seq<Edge>, k: int) -> bool {
    &&& within(out, s)
    &&& normal(out)
    &&& out.len() == 0 <==> k == 0
    &&& forall|q: int| 0 <= q < k ==> covered(out, #[trigger] s[q])
    &&& k > 0 ==> joins(out.last(), s[k - 1].from, s[k - 1].to) && out.last().weight <= s[k - 1].weight
}
pub proof fn lemma_dedup_keep(out: Seq<Edge>, s: Seq<Edge>, k: int)
    requires deduping(out, s, k), 0 < k < s.len(), sorted(s), joins(s[k], out.last().from, out.last().to),
    ensures deduping(out, s, k + 1),
{
    reveal(deduping);
    assert(ecmp(s[k - 1], s[k]) != cmp::Ordering::Greater);
    assert(joins(out[out.len() - 1], s[k].from, s[k].to));
    assert(covered(out, s[k]));
}
proof fn lemma_push_normal(out: Seq<Edge>, e: Edge)
    requires normal(out), out.len() == 0 || before(out.last(), e),
    ensures normal(out.push(e)),
{
    let n = out.push(e);
    assert forall|i: int, j: int| #![trigger n[i], n[j]] 0 <= i < j < n.len() implies before(n[i], n[j]) by {
        if j < out.len() { assert(before(out[i], out[j])); }
        else if i < out.len() - 1 { assert(before(out[i], out[out.len() - 1])); }
    }
}
proof fn lemma_push_within(out: Seq<Edge>, s: Seq<Edge>, k: int)
    requires within(out, s), 0 <= k < s.len(),
    ensures within(out.push(s[k]), s),
{
    let n = out.push(s[k]);
    assert forall|q: int| 0 <= q < n.len() implies s.contains(#[trigger] n[q]) by {
        if q < out.len() { assert(s.contains(out[q])); }
    }
}
proof fn lemma_push_covers(out: Seq<Edge>, s: Seq<Edge>, k: int)
    requires forall|q: int| 0 <= q < k ==> covered(out, #[trigger] s[q]), 0 <= k < s.len(),
    ensures forall|q: int| 0 <= q < k + 1 ==> covered(out.push(s[k]), #[trigger] s[q]),
{
    let n = out.push(s[k]);
    assert(joins(n[out.len() as int], s[k].from, s[k].to));
    assert forall|q: int| 0 <= q < k + 1 implies covered(n, #[trigger] s[q]) by {
        if q < k {
            assert(covered(out, s[q]));
            let j = choose|j: int| 0 <= j < out.len() && joins(#[trigger] out[j], s[q].from, s[q].to) && out[j].weight <= s[q].weight;
            assert(joins(n[j], s[q].from, s[q].to));
        }
    }
}
pub proof fn lemma_dedup_push(out: Seq<Edge>, s: Seq<Edge>, k: int)
    requires deduping(out, s, k), 0 <= k < s.len(), sorted(s), k == 0 || !joins(s[k], out.last().from, out.last().to),
    ensures deduping(out.push(s[k]), s, k + 1),
{
    hide(within); hide(normal); hide(covered);
    reveal(deduping);
    if k > 0 {
        assert(ecmp(s[k - 1], s[k]) != cmp::Ordering::Greater);
        assert(before(out.last(), s[k]));
    }
    lemma_push_within(out, s, k);
    lemma_push_covers(out, s, k);
    lemma_push_normal(out, s[k]);
}

pub open spec fn edge_ok(e: Edge, n: int) -> bool { e.from < n && e.to < n && e.from != e.to && e.weight >= 1 }
// usize::MAX is reserved (INVALID_NODE); edges that do not count may mention it
pub open spec fn ids_ok(from: usize, to: usize, weight: usize) -> bool { from == to || weight == 0 || (from < usize::MAX && to < usize::MAX) }
pub open spec fn top_node(s: Seq<Edge>, n: int) -> bool {
    n > 0 ==> exists|k: int| 0 <= k < s.len() && ((#[trigger] s[k]).from == n - 1 || s[k].to == n - 1)
}
pub proof fn lemma_keep(n: Seq<Edge>, m: Seq<Edge>, num: int)
    requires covers(n, m), within(n, m), top_node(m, num), forall|k: int| 0 <= k < m.len() ==> edge_ok(#[trigger] m[k], num),
    ensures top_node(n, num), forall|k: int| 0 <= k < n.len() ==> edge_ok(#[trigger] n[k], num),
        forall|u: usize, v: usize| #[trigger] minw(n, u, v) == minw(m, u, v),
{
    lemma_minw_same(n, m);
    assert forall|k: int| 0 <= k < n.len() implies edge_ok(#[trigger] n[k], num) by {
        assert(m.contains(n[k]));
        let q = choose|q: int| 0 <= q < m.len() && m[q] == n[k];
        assert(edge_ok(m[q], num));
    }
    if num > 0 {
        let k = choose|k: int| 0 <= k < m.len() && ((#[trigger] m[k]).from == num - 1 || m[k].to == num - 1);
        assert(covered(n, m[k]));
        let j = choose|j: int| 0 <= j < n.len() && joins(#[trigger] n[j], m[k].from, m[k].to) && n[j].weight <= m[k].weight;
        assert(n[j].from == num - 1 || n[j].to == num - 1);
    }
}
impl InputGraph {
    pub open spec fn wf(&self) -> bool {
        &&& forall|k: int| 0 <= k < self.edges.len() ==> edge_ok(#[trigger] self.edges@[k], self.num_nodes as int)
        &&& top_node(self.edges@, self.num_nodes as int)
        &&& self.frozen ==> normal(self.edges@)
    }
    pub open spec fn gr(&self) -> Gr {
        ISet::new(|e: (usize, usize, int)| exists|k: int| 0 <= k < self.edges.len() && (#[trigger] self.edges@[k]).from == e.0 && self.edges@[k].to == e.1 && self.edges@[k].weight == e.2)
    }
    // o is this graph after edges were offered: what add_edge/add_edge_bidir must have done
    pub open spec fn added(&self, o: InputGraph, from: usize, to: usize, weight: usize, bidir: bool) -> bool {
        if from == to || weight == 0 { *self == o } else {
            &&& self.frozen == o.frozen
            &&& self.num_nodes == (if o.num_nodes > from && o.num_nodes > to { o.num_nodes as int } else if from > to { from + 1 } else { to + 1 })
            &&& forall|u: usize, v: usize| #[trigger] minw(self.edges@, u, v) ==
                (if ((u == from && v == to) || (bidir && u == to && v == from)) && weight < minw(o.edges@, u, v) { weight as int } else { minw(o.edges@, u, v) })
        }
    }
}
@*/
#[derive(Serialize, Deserialize, Clone)]
pub struct InputGraph {
    edges: Vec<Edge>,
    num_nodes: usize,
    frozen: bool,
}

impl InputGraph {
    pub fn new() -> Self /*@
        ensures res.wf(), !res.frozen, res.edges.len() == 0, res.num_nodes == 0, // [C08]
    @*/ {
        InputGraph {
            edges: Vec::new(),
            num_nodes: 0,
            frozen: false,
        }
    }
    #[cfg(test)]
    pub fn random(rng: &mut StdRng, num_nodes: usize, mean_degree: f32) -> Self {
        InputGraph::build_random_graph(rng, num_nodes, mean_degree)
    }
    pub fn from_file(filename: &str) -> Self /*@
        requires vp_ok ==> vp_opens(filename@) && forall|c: Seq<char>| #[trigger] vp_reads(filename@, c) ==> file_ok(lines_of(c)),
        ensures exists|c: Seq<char>| #[trigger] vp_reads(filename@, c) && file_ok(lines_of(c)) && graph_of(res, file_edges(lines_of(c))), // [C15]
    @*/ {
        InputGraph::read_from_file(filename)
    }
    pub fn to_file(&self, filename: &str) -> Result<(), std::io::Error> /*@
        requires self.wf(), vp_ok ==> self.frozen,
        ensures res is Ok ==> self.frozen && vp_written(filename@, text_of(file_rows(self.edges@))), // [C15]
    @*/ {
        let mut f = BufWriter::new(File::create(filename)?);
        /*@ proof { lemma_text_none(file_rows(self.edges@.take(0))); } @*/
        for edge in self.get_edges() /*@
            invariant *vp_v1 == self.edges, f.name() == filename@, f.text() == text_of(file_rows(self.edges@.take(vp_it1 as int))), // [C15]
        @*/ {
            /*@ let ghost t0 = f.text(); @*/
            writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
            /*@ proof {
                lemma_file_step(self.edges@, vp_it1 - 1);
                assert(f.text() =~= t0 + (arc_row(edge.from as int, edge.to as int, edge.weight as int) + seq!['\n'])); // [C15]
            } @*/
        }
        /*@ proof { assert(self.edges@.take(self.edges@.len() as int) =~= self.edges@); } @*/
        f.flush()
    }
    pub fn from_dimacs_file(filename: &str) -> Self /*@
        requires vp_ok ==> vp_opens(filename@) && forall|c: Seq<char>| #[trigger] vp_reads(filename@, c) ==> dimacs_ok(lines_of(c)),
        ensures exists|c: Seq<char>| #[trigger] vp_reads(filename@, c) && dimacs_ok(lines_of(c)) && graph_of(res, (dimacs(lines_of(c))->0).list), // [C15]
    @*/ {
        InputGraph::read_from_dimacs(filename)
    }
    pub fn to_dimacs_file(&self, filename: &str) -> Result<(), std::io::Error> /*@
        requires self.wf(), vp_ok ==> self.frozen,
        ensures res is Ok ==> self.frozen && vp_written(filename@, text_of(dimacs_rows(self.num_nodes as int, self.edges@.len() as int, self.edges@))), // [C15]
    @*/ {
        let mut f = BufWriter::new(File::create(filename)?);
        writeln!(f, "p sp {} {}", self.get_num_nodes(), self.get_num_edges())?;
        /*@ proof {
            lemma_dimacs_start(self.num_nodes as int, self.edges@.len() as int, self.edges@);
            assert(f.text() =~= problem_row(self.num_nodes as int, self.edges@.len() as int) + seq!['\n']); // [C15]
        } @*/
        for edge in self.get_edges() /*@
            invariant *vp_v1 == self.edges, f.name() == filename@,
                f.text() == text_of(dimacs_rows(self.num_nodes as int, self.edges@.len() as int, self.edges@.take(vp_it1 as int))), // [C15]
        @*/ {
            /*@ let ghost t0 = f.text();
                proof { assert(edge_ok(self.edges@[vp_it1 - 1], self.num_nodes as int)); } @*/
            writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
            /*@ proof {
                lemma_dimacs_step(self.num_nodes as int, self.edges@.len() as int, self.edges@, vp_it1 - 1);
                assert(f.text() =~= t0 + (arc_row(edge.from + 1, edge.to + 1, edge.weight as int) + seq!['\n'])); // [C15]
            } @*/
        }
        /*@ proof { assert(self.edges@.take(self.edges@.len() as int) =~= self.edges@); } @*/
        f.flush()
    }

    pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize /*@
        requires old(self).wf(), vp_ok ==> !old(self).frozen && ids_ok(from, to, weight),
        ensures !old(self).frozen, // [C09]
            ids_ok(from, to, weight), // [C08][C15]
            final(self).wf(), final(self).added(*old(self), from, to, weight, false), // [C08]
            res == (if from == to || weight == 0 { 0int } else { 1int }), // [C08]
    @*/ {
        self.do_add_edge(from, to, weight, false)
    }

    pub fn add_edge_bidir(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize /*@
        requires old(self).wf(), vp_ok ==> !old(self).frozen && ids_ok(from, to, weight),
        ensures !old(self).frozen, // [C09]
            ids_ok(from, to, weight), // [C08][C15]
            final(self).wf(), final(self).added(*old(self), from, to, weight, true), // [C08]
            res == (if from == to || weight == 0 { 0int } else { 2int }), // [C08]
    @*/ {
        self.do_add_edge(from, to, weight, true)
    }

    pub fn get_edges(&self) -> &Vec<Edge> /*@
        requires self.wf(), vp_ok ==> self.frozen,
        ensures self.frozen, // [C09]
            *res == self.edges, // [C08]
    @*/ {
        self.check_frozen();
        &self.edges
    }

    pub fn get_num_nodes(&self) -> usize /*@
        requires self.wf(), vp_ok ==> self.frozen,
        ensures self.frozen, // [C09]
            res == self.num_nodes, // [C08]
    @*/ {
        self.check_frozen();
        self.num_nodes
    }

    pub fn get_num_edges(&self) -> usize /*@
        requires self.wf(), vp_ok ==> self.frozen,
        ensures self.frozen, // [C09]
            res == self.edges.len(), // [C08]
    @*/ {
        self.check_frozen();
        self.edges.len()
    }

    pub fn freeze(&mut self) /*@
        requires old(self).wf(), vp_ok ==> !old(self).frozen,
        ensures !old(self).frozen, final(self).frozen, // [C09]
            final(self).wf(), normal(final(self).edges@), // [C08]
            final(self).num_nodes == old(self).num_nodes, // [C08]
            forall|u: usize, v: usize| #[trigger] minw(final(self).edges@, u, v) == minw(old(self).edges@, u, v), // [C08]
    @*/ {
        if self.frozen {
            panic!("Input graph is already frozen");
        }
        self.sort();
        /*@ let ghost mid = self.edges@; @*/
        self.remove_duplicate_edges();
        /*@ proof {
            lemma_keep(mid, old(self).edges@, self.num_nodes as int);
            lemma_keep(self.edges@, mid, self.num_nodes as int);
        } @*/
        self.frozen = true;
    }

    pub fn thaw(&mut self) /*@
        requires old(self).wf(),
        ensures final(self).wf(), !final(self).frozen, final(self).edges == old(self).edges, final(self).num_nodes == old(self).num_nodes, // [C09][C08]
    @*/ {
        self.frozen = false;
    }

    fn sort(&mut self) /*@
        ensures final(self).num_nodes == old(self).num_nodes, final(self).frozen == old(self).frozen, // [C08]
            covers(final(self).edges@, old(self).edges@), within(final(self).edges@, old(self).edges@), // [C08]
            sorted(final(self).edges@), // [C08]
    @*/ {
        self.edges.sort_unstable_by(|a, b| /*@ -> (o: cmp::Ordering) ensures o == ecmp(*a, *b) @*/ {
            a.from
                .cmp(&b.from)
                .then(a.to.cmp(&b.to))
                .then(a.weight.cmp(&&b.weight))
        });
        /*@ proof {
            let s = self.edges@;
            let o = old(self).edges@;
            s.to_multiset_ensures();
            o.to_multiset_ensures();
            assert forall|k: int| 0 <= k < s.len() implies o.contains(#[trigger] s[k]) by {
                assert(s.contains(s[k]));
                assert(s.to_multiset().count(s[k]) > 0);
            }
            assert forall|k: int| 0 <= k < o.len() implies covered(s, #[trigger] o[k]) by {
                assert(o.contains(o[k]));
                assert(o.to_multiset().count(o[k]) > 0);
                assert(s.contains(o[k]));
                let j = choose|j: int| 0 <= j < s.len() && s[j] == o[k];
                assert(joins(s[j], o[k].from, o[k].to));
            }
        } @*/
    }

    fn remove_duplicate_edges(&mut self) /*@
        requires sorted(old(self).edges@),
        ensures final(self).num_nodes == old(self).num_nodes, final(self).frozen == old(self).frozen, // [C08]
            covers(final(self).edges@, old(self).edges@), within(final(self).edges@, old(self).edges@), normal(final(self).edges@), // [C08]
    @*/ {
        /*@ let ghost s = self.edges@;
            proof { assert forall|o: Seq<Edge>| o.len() == 0 implies #[trigger] deduping(o, s, 0) by { reveal(deduping); } } @*/
        let len_before = self.edges.len();
        self.edges.dedup_by(|a, b| /*@
            invariant
                vp_dd <= s.len(), *self == *old(self), self.edges@ == s, deduping(vp_out@, s, vp_dd as int),
                vp_out.len() == 0 <==> vp_dd == 0,
            decreases s.len() - vp_dd,
            @@START let ghost o0 = vp_out@;
            @@END proof {
                if vp_out@ == o0 { lemma_dedup_keep(o0, s, vp_dd - 1); } else { lemma_dedup_push(o0, s, vp_dd - 1); }
            }
        @*/ a.from == b.from && a.to == b.to);
        if len_before != self.edges.len() {
            warn!(
                "There were {} duplicate edges, only the ones with lowest weight were kept",
                len_before - self.edges.len()
            );
        }
        /*@ proof { reveal(deduping); } @*/
    }

    pub fn unit_test_output_string(&self) -> String {
        return self
            .edges
            .iter()
            .map(|e| e.unit_test_output_string())
            .collect::<Vec<String>>()
            .join("\n")
            + "\n";
    }

    fn check_frozen(&self) /*@
        requires vp_ok ==> self.frozen,
        ensures self.frozen, // [C09]
    @*/ {
        if !self.frozen {
            panic!("You need to call freeze() before using the input graph")
        }
    }

    fn do_add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight, bidir: bool) -> usize /*@
        requires old(self).wf(), vp_ok ==> !old(self).frozen && ids_ok(from, to, weight),
        ensures !old(self).frozen, // [C09]
            ids_ok(from, to, weight), // [C08][C15]
            final(self).wf(), final(self).added(*old(self), from, to, weight, bidir), // [C08]
            res == (if from == to || weight == 0 { 0int } else if bidir { 2int } else { 1int }), // [C08]
    @*/ {
        if self.frozen {
            panic!("Graph is frozen already, for further changes first use thaw()");
        }
        if from == to {
            warn!(
                "Loop edges are not allowed. Skipped edge! from: {}, to: {}, weight: {}",
                from, to, weight
            );
            return 0;
        }
        if weight < 1 {
            warn!(
                "Zero weight edges are not allowed. Skipped edge! from: {}, to: {}, weight: {}",
                from, to, weight
            );
            return 0;
        }
        if from == INVALID_NODE || to == INVALID_NODE {
            panic!("Invalid node id: {}", INVALID_NODE);
        }
        self.num_nodes = cmp::max(self.num_nodes, cmp::max(from, to) + 1);
        self.edges.push(Edge::new(from, to, weight));
        if bidir {
            self.edges.push(Edge::new(to, from, weight));
        }
        /*@ proof {
            let o = old(self).edges@;
            let e = Edge { from, to, weight };
            let f = Edge { from: to, to: from, weight };
            lemma_minw_push(o, e);
            lemma_minw_push(o.push(e), f);
            assert(self.edges@ == if bidir { o.push(e).push(f) } else { o.push(e) });
            assert forall|k: int| 0 <= k < self.edges.len() implies edge_ok(#[trigger] self.edges@[k], self.num_nodes as int) by {
                if k < o.len() { assert(self.edges@[k] == o[k]); }
            }
            if old(self).num_nodes == self.num_nodes && self.num_nodes > 0 {
                let k = choose|k: int| 0 <= k < o.len() && ((#[trigger] o[k]).from == self.num_nodes - 1 || o[k].to == self.num_nodes - 1);
                assert(self.edges@[k] == o[k]);
            } else {
                assert(self.edges@[o.len() as int] == e);
            }
        } @*/
        if bidir {
            2
        } else {
            1
        }
    }

    #[cfg(test)]
    fn build_random_graph(rng: &mut StdRng, num_nodes: usize, mean_degree: f32) -> InputGraph {
        let num_edges = (mean_degree * num_nodes as f32) as usize;
        let mut result = InputGraph::new();
        let mut edge_count = 0;
        loop {
            let head = rng.gen_range(0, num_nodes);
            let tail = rng.gen_range(0, num_nodes);
            let weight = rng.gen_range(1, 100);
            edge_count += result.add_edge(tail, head, weight);
            if edge_count == num_edges {
                break;
            }
        }
        result.freeze();
        result
    }

    fn read_from_file(filename: &str) -> Self /*@
        requires vp_ok ==> vp_opens(filename@) && forall|c: Seq<char>| #[trigger] vp_reads(filename@, c) ==> file_ok(lines_of(c)),
        ensures exists|c: Seq<char>| #[trigger] vp_reads(filename@, c) && file_ok(lines_of(c)) && graph_of(res, file_edges(lines_of(c))), // [C15]
    @*/ {
        let file = File::open(filename).unwrap();
        let reader = BufReader::new(file);
        /*@ let ghost c = reader.content();
            let ghost ls = lines_of(c); @*/
        let mut g = InputGraph::new();
        /*@ proof { lemma_file_none(ls.take(0)); lemma_building_start(g); } @*/
        for (index, line) in reader.lines().enumerate() /*@
            invariant
                vp_reads(filename@, c), ls == lines_of(c), lines_read(c, vp_v1@),
                vp_ok ==> vp_opens(filename@) && file_ok(ls) && oks(vp_v1@, vp_v1.len() as int),
                oks(vp_v1@, vp_it1 as int), vp_it1 <= ls.len(), vp_it1 == vp_end1 ==> vp_it1 == ls.len(),
                file_ok(ls.take(vp_it1 as int)), // [C15]
                building(g, file_edges(ls.take(vp_it1 as int))), // [C15]
        @*/ {
            /*@ let ghost k = vp_it1 - 1;
                let ghost g0 = g;
                proof { if vp_ok { lemma_oks_has(vp_v1@, vp_v1.len() as int, k); } }
                proof { lemma_building_wf(g, file_edges(ls.take(k))); } @*/
            let s: String = line.unwrap();
            /*@ proof {
                lemma_oks_next(c, vp_v1@, k);
                if k + 1 == vp_end1 { lemma_oks_end(c, vp_v1@); }
                assert(s@ == ls[k]);
                assert(ls.take(k + 1).drop_last() =~= ls.take(k));
                assert(ls.take(k + 1).last() == ls[k]);
                lemma_file_last(ls.take(k + 1));
            } @*/
            if s.starts_with("a ") {
                let (from, to, weight) = InputGraph::read_arc_line(index, &s);
                g.add_edge(from, to, weight);
                /*@ proof { lemma_building(g0, g, file_edges(ls.take(k)), from, to, weight); } @*/
            } else {
                continue;
            }
        }
        /*@ let ghost g1 = g;
            proof { assert(ls.take(ls.len() as int) =~= ls); lemma_building_wf(g, file_edges(ls)); } @*/
        g.freeze();
        /*@ proof { lemma_building_end(g1, g, file_edges(ls)); } @*/
        g
    }

    fn read_from_dimacs(filename: &str) -> Self /*@
        requires vp_ok ==> vp_opens(filename@) && forall|c: Seq<char>| #[trigger] vp_reads(filename@, c) ==> dimacs_ok(lines_of(c)),
        ensures exists|c: Seq<char>| #[trigger] vp_reads(filename@, c) && dimacs_ok(lines_of(c)) && graph_of(res, (dimacs(lines_of(c))->0).list), // [C15]
    @*/ {
        let file = File::open(filename).unwrap();
        let reader = BufReader::new(file);
        /*@ let ghost c = reader.content();
            let ghost ls = lines_of(c); @*/
        let mut g = InputGraph::new();
        let mut nodes = 0;
        let mut edges = 0;
        let mut curr_edges = 0;
        let mut found_problem_line = false;
        /*@ proof { lemma_dimacs_none(ls.take(0)); lemma_building_start(g); } @*/
        for (index, line) in reader.lines().enumerate() /*@
            invariant
                vp_reads(filename@, c), ls == lines_of(c), lines_read(c, vp_v1@),
                vp_ok ==> vp_opens(filename@) && dimacs_ok(ls) && oks(vp_v1@, vp_v1.len() as int),
                oks(vp_v1@, vp_it1 as int), vp_it1 <= ls.len(), vp_it1 == vp_end1 ==> vp_it1 == ls.len(),
                dimacs(ls.take(vp_it1 as int)) is Some, // [C15]
                building(g, (dimacs(ls.take(vp_it1 as int))->0).list), // [C15]
                found_problem_line == (dimacs(ls.take(vp_it1 as int))->0).found, // [C15]
                nodes == (dimacs(ls.take(vp_it1 as int))->0).nodes, // [C15]
                edges == (dimacs(ls.take(vp_it1 as int))->0).edges, // [C15]
                curr_edges == (dimacs(ls.take(vp_it1 as int))->0).count, // [C15]
        @*/ {
            /*@ let ghost k = vp_it1 - 1;
                let ghost g0 = g;
                proof { if vp_ok { lemma_oks_has(vp_v1@, vp_v1.len() as int, k); } }
                let ghost d = dimacs(ls.take(k))->0;
                proof { lemma_building_wf(g, d.list); } @*/
            let s: String = line.unwrap();
            /*@ proof {
                lemma_oks_next(c, vp_v1@, k);
                if k + 1 == vp_end1 { lemma_oks_end(c, vp_v1@); }
                assert(s@ == ls[k]);
                assert(ls.take(k + 1).drop_last() =~= ls.take(k));
                assert(ls.take(k + 1).last() == ls[k]);
                lemma_dimacs_last(ls.take(k + 1));
                assert(dimacs(ls.take(k + 1)) == dimacs_line(d, s@));
                lemma_prefixes(s@);
                if vp_ok { lemma_dimacs_prefix(ls, k + 1); }
            } @*/
            if s.is_empty() || s.starts_with("c") {
                continue;
            } else if s.starts_with("p sp ") {
                if found_problem_line {
                    panic!(
                        "There should be only one problem line, but found: {} | {}",
                        index + 1,
                        s
                    );
                }
                let mut split = s[5..].split_whitespace();
                nodes = split.next().unwrap().parse::<usize>().unwrap();
                edges = split.next().unwrap().parse::<usize>().unwrap();
                assert!(split.next().is_none(), "Invalid problem line: {}", s);
                found_problem_line = true;
            } else if s.starts_with("a ") {
                assert!(
                    found_problem_line,
                    "The problem line must be written before the arc lines"
                );
                let (from, to, weight) = InputGraph::read_arc_line(index, &s);
                assert!(
                    from <= nodes && to <= nodes,
                    "Invalid nodes in line: {} | {}",
                    index + 1,
                    s
                );
                assert!(
                    curr_edges < edges,
                    "Too many arc lines: {}, expected: {}",
                    curr_edges + 1,
                    edges
                );

                assert!(
                    from > 0 && to > 0,
                    "Invalid arc line: {} | {}",
                    index + 1,
                    s
                );
                // we convert 1-based node IDs from DIMACS to 0-based node IDs
                g.add_edge(from - 1, to - 1, weight);
                /*@ proof { lemma_building(g0, g, d.list, (from - 1) as usize, (to - 1) as usize, weight); } @*/
                curr_edges += 1;
            } else {
                panic!(
                    "Invalid line: {} {}\nAll non-empty lines must start with 'c', 'p' or 'a'",
                    index, s
                );
            }
        }
        /*@ let ghost g1 = g;
            proof { assert(ls.take(ls.len() as int) =~= ls); lemma_building_wf(g, (dimacs(ls)->0).list); } @*/
        assert_eq!(
            curr_edges, edges,
            "Not enough arc lines: {}, expected: {}",
            curr_edges, edges
        );
        g.freeze();
        /*@ proof { lemma_building_end(g1, g, (dimacs(ls)->0).list); } @*/
        g
    }

    fn read_arc_line(index: usize, line: &String) -> (usize, usize, usize) /*@
        requires starts(line@, row_a()), vp_ok ==> arc(line@) is Some,
        ensures arc(line@) == Some(res), // [C15]
    @*/ {
        /*@ proof { lemma_prefixes(line@); } @*/
        let mut split = line[2..].split_whitespace();
        let from = split.next().unwrap().parse::<usize>().unwrap();
        let to = split.next().unwrap().parse::<usize>().unwrap();
        let weight = split.next().unwrap().parse::<usize>().unwrap();
        assert!(
            split.next().is_none(),
            "Invalid arc line: {} | {}",
            index + 1,
            line
        );
        (from, to, weight)
    }
}

impl fmt::Debug for InputGraph {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.unit_test_output_string())
    }
}

impl Default for InputGraph {
    fn default() -> Self {
        Self::new()
    }
}

#[derive(Serialize, Deserialize, Debug, Copy, Clone)]
pub struct Edge {
    pub from: NodeId,
    pub to: NodeId,
    pub weight: Weight,
}

impl Edge {
    pub fn new(from: NodeId, to: NodeId, weight: Weight) -> Edge /*@
        ensures res.from == from, res.to == to, res.weight == weight, // [C08]
    @*/ {
        Edge { from, to, weight }
    }

    pub fn unit_test_output_string(&self) -> String {
        return format!("g.add_edge({}, {}, {});", self.from, self.to, self.weight);
    }
}

