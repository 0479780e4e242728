// C15: what the text files of InputGraph mean, and that what is written reads back as the same graph.
use vstd::prelude::*;
use crate::vp::*;
use crate::spec_graph::*;
use crate::spec_io::*;
use crate::input_graph::*;
verus! {

pub open spec fn row_a() -> Seq<char> { Seq::<char>::empty().push('a').push(' ') }
// the fields of an arc line: three numbers
pub open spec fn arc(line: Seq<char>) -> Option<(usize, usize, usize)> {
    let f = fields(line.skip(2));
    if f.len() == 3 && parse_usize(f[0]) is Some && parse_usize(f[1]) is Some && parse_usize(f[2]) is Some {
        Some((parse_usize(f[0])->0, parse_usize(f[1])->0, parse_usize(f[2])->0))
    } else { None }
}
pub open spec fn arc_ok(line: Seq<char>) -> bool {
    arc(line) is Some && ids_ok((arc(line)->0).0, (arc(line)->0).1, (arc(line)->0).2)
}
// edges that do not count are not added (InputGraph::add_edge)
pub open spec fn keep(s: Seq<Edge>, from: usize, to: usize, weight: usize) -> Seq<Edge> {
    if from == to || weight == 0 { s } else { s.push(Edge { from, to, weight }) }
}
pub open spec fn num_nodes_of(s: Seq<Edge>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else {
        let p = num_nodes_of(s.drop_last());
        let e = s.last();
        if p > e.from && p > e.to { p } else if e.from > e.to { e.from + 1 } else { e.to + 1 }
    }
}
// g is the graph of these edges
pub open spec fn graph_of(g: InputGraph, s: Seq<Edge>) -> bool {
    g.wf() && g.frozen && (forall|u: usize, v: usize| #[trigger] minw(g.edges@, u, v) == minw(s, u, v)) && g.num_nodes == num_nodes_of(s)
}
#[verifier::opaque]
pub open spec fn building(g: InputGraph, s: Seq<Edge>) -> bool {
    g.wf() && !g.frozen && (forall|u: usize, v: usize| #[trigger] minw(g.edges@, u, v) == minw(s, u, v)) && g.num_nodes == num_nodes_of(s)
}
pub proof fn lemma_building(g: InputGraph, g2: InputGraph, s: Seq<Edge>, from: usize, to: usize, weight: usize)
    requires building(g, s), g2.wf(), g2.added(g, from, to, weight, false),
    ensures building(g2, keep(s, from, to, weight)),
{
    reveal(building);
    let e = Edge { from, to, weight };
    lemma_minw_push(s, e);
    assert(s.push(e).drop_last() =~= s);
}

pub proof fn lemma_building_start(g: InputGraph)
    requires g.wf(), !g.frozen, g.edges@.len() == 0, g.num_nodes == 0,
    ensures building(g, Seq::empty()),
{
    reveal(building);
    assert(g.edges@ =~= Seq::empty());
}
pub proof fn lemma_building_end(g: InputGraph, h: InputGraph, s: Seq<Edge>)
    requires building(g, s), h.wf(), h.frozen, h.num_nodes == g.num_nodes, forall|u: usize, v: usize| #[trigger] minw(h.edges@, u, v) == minw(g.edges@, u, v),
    ensures graph_of(h, s),
{
    reveal(building);
}
pub proof fn lemma_building_wf(g: InputGraph, s: Seq<Edge>)
    requires building(g, s),
    ensures g.wf(), !g.frozen,
{
    reveal(building);
}
// ------------------------------------------------------------------ the plain format: arc lines, everything else is ignored
pub open spec fn file_ok(lines: Seq<Seq<char>>) -> bool {
    forall|k: int| 0 <= k < lines.len() && starts(#[trigger] lines[k], row_a()) ==> arc_ok(lines[k])
}
#[verifier::opaque]
pub open spec fn file_edges(lines: Seq<Seq<char>>) -> Seq<Edge>
    decreases lines.len(),
{
    if lines.len() == 0 { Seq::empty() } else {
        let p = file_edges(lines.drop_last());
        let l = lines.last();
        if starts(l, row_a()) && arc(l) is Some { let x = arc(l)->0; keep(p, x.0, x.1, x.2) } else { p }
    }
}
pub proof fn lemma_file_none(lines: Seq<Seq<char>>)
    requires lines.len() == 0,
    ensures file_edges(lines) == Seq::<Edge>::empty(), file_ok(lines),
{
    reveal(file_edges);
}
pub proof fn lemma_file_last(lines: Seq<Seq<char>>)
    requires lines.len() > 0,
    ensures file_edges(lines) == (if starts(lines.last(), row_a()) && arc(lines.last()) is Some {
            let x = arc(lines.last())->0;
            keep(file_edges(lines.drop_last()), x.0, x.1, x.2)
        } else { file_edges(lines.drop_last()) }),
        file_ok(lines) <==> file_ok(lines.drop_last()) && (starts(lines.last(), row_a()) ==> arc_ok(lines.last())),
{
    reveal(file_edges);
    let p = lines.drop_last();
    assert forall|q: int| 0 <= q < lines.len() && file_ok(p) && (starts(lines.last(), row_a()) ==> arc_ok(lines.last())) && starts(#[trigger] lines[q], row_a())
        implies arc_ok(lines[q]) by { if q < p.len() { assert(p[q] == lines[q]); } }
    assert forall|q: int| 0 <= q < p.len() && file_ok(lines) && starts(#[trigger] p[q], row_a()) implies arc_ok(p[q]) by { assert(lines[q] == p[q]); }
}
pub open spec fn arc_row(from: int, to: int, weight: int) -> Seq<char> {
    row_a() + dec(from) + seq![' '] + dec(to) + seq![' '] + dec(weight)
}
pub open spec fn file_rows(s: Seq<Edge>) -> Seq<Seq<char>> {
    s.map_values(|e: Edge| arc_row(e.from as int, e.to as int, e.weight as int))
}
pub proof fn lemma_row(from: int, to: int, weight: int)
    requires 0 <= from <= usize::MAX, 0 <= to <= usize::MAX, 0 <= weight <= usize::MAX,
    ensures starts(arc_row(from, to, weight), row_a()), flat(arc_row(from, to, weight)),
        arc(arc_row(from, to, weight)) == Some((from as usize, to as usize, weight as usize)),
{
    let a = dec(from);
    let b = dec(to);
    let c = dec(weight);
    let r = arc_row(from, to, weight);
    lemma_dec_solid(from); lemma_dec_solid(to); lemma_dec_solid(weight);
    lemma_fields3(a, b, c);
    assert(r.skip(2) =~= a + seq![' '] + b + seq![' '] + c);
    lemma_parse_dec(from as usize); lemma_parse_dec(to as usize); lemma_parse_dec(weight as usize);
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) != '\n' && r[k] != '\r' by {
        let k2 = k - 2;
        if 0 <= k2 < a.len() { assert(r[k] == a[k2]); assert(!ws(a[k2])); }
        else if a.len() < k2 <= a.len() + b.len() { assert(r[k] == b[k2 - a.len() - 1]); assert(!ws(b[k2 - a.len() - 1])); }
        else if k2 > a.len() + b.len() + 1 { assert(r[k] == c[k2 - a.len() - b.len() - 2]); assert(!ws(c[k2 - a.len() - b.len() - 2])); }
    }
}
pub proof fn lemma_file_step(s: Seq<Edge>, k: int)
    requires 0 <= k < s.len(),
    ensures file_rows(s.take(k + 1)) == file_rows(s.take(k)).push(arc_row(s[k].from as int, s[k].to as int, s[k].weight as int)),
        text_of(file_rows(s.take(k + 1))) == text_of(file_rows(s.take(k))) + (arc_row(s[k].from as int, s[k].to as int, s[k].weight as int) + seq!['\n']),
{
    reveal(text_of);
    let a = file_rows(s.take(k + 1));
    let b = file_rows(s.take(k));
    let r = arc_row(s[k].from as int, s[k].to as int, s[k].weight as int);
    assert(a =~= b.push(r));
    assert(a.drop_last() =~= b);
}
// reading the rows of valid edges gives these edges
pub proof fn lemma_file_back(s: Seq<Edge>, n: int)
    requires forall|k: int| 0 <= k < s.len() ==> edge_ok(#[trigger] s[k], n), n <= usize::MAX,
    ensures file_edges(file_rows(s)) == s, file_ok(file_rows(s)),
        forall|k: int| 0 <= k < s.len() ==> flat(#[trigger] file_rows(s)[k]),
    decreases s.len(),
{
    reveal(file_edges);
    let rows = file_rows(s);
    assert forall|k: int| 0 <= k < s.len() implies flat(#[trigger] rows[k]) && starts(rows[k], row_a()) && arc(rows[k]) == Some((s[k].from, s[k].to, s[k].weight)) by {
        lemma_row(s[k].from as int, s[k].to as int, s[k].weight as int);
    }
    assert forall|k: int| 0 <= k < rows.len() implies arc_ok(#[trigger] rows[k]) by {
        assert(edge_ok(s[k], n));
        assert(arc(rows[k]) == Some((s[k].from, s[k].to, s[k].weight)));
    }
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|k: int| 0 <= k < p.len() implies edge_ok(#[trigger] p[k], n) by { assert(edge_ok(s[k], n)); }
        lemma_file_back(p, n);
        assert(rows.drop_last() =~= file_rows(p));
        let e = s.last();
        assert(edge_ok(s[s.len() - 1], n));
        assert(rows.last() == rows[s.len() - 1]);
        assert(keep(p, e.from, e.to, e.weight) =~= s);
    } else {
        assert(file_edges(rows) =~= s);
    }
}
pub proof fn lemma_num_nodes(s: Seq<Edge>, n: int)
    requires forall|k: int| 0 <= k < s.len() ==> edge_ok(#[trigger] s[k], n),
    ensures num_nodes_of(s) <= n || s.len() == 0, num_nodes_of(s) >= 0,
        forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).from < num_nodes_of(s) && s[k].to < num_nodes_of(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|k: int| 0 <= k < p.len() implies edge_ok(#[trigger] p[k], n) by { assert(edge_ok(s[k], n)); }
        lemma_num_nodes(p, n);
        assert(edge_ok(s[s.len() - 1], n));
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).from < num_nodes_of(s) && s[k].to < num_nodes_of(s) by {
            if k < p.len() { assert(p[k] == s[k]); }
        }
    }
}
// the graph of the edges of a frozen graph is that graph
pub proof fn lemma_same_input(g: InputGraph, h: InputGraph)
    requires g.wf(), g.frozen, graph_of(h, g.edges@),
    ensures h.edges@ == g.edges@, h.num_nodes == g.num_nodes,
{
    lemma_normal_unique(h.edges@, g.edges@);
    assert(minw(h.edges@, 0, 0) == minw(g.edges@, 0, 0));
    lemma_num_nodes(g.edges@, g.num_nodes as int);
    if g.num_nodes > 0 {
        let k = choose|k: int| 0 <= k < g.edges@.len() && ((#[trigger] g.edges@[k]).from == g.num_nodes - 1 || g.edges@[k].to == g.num_nodes - 1);
        assert(g.edges@[k].from < num_nodes_of(g.edges@));
    } else {
        if g.edges@.len() > 0 { assert(edge_ok(g.edges@[0], g.num_nodes as int)); }
    }
}

// ------------------------------------------------------------------ DIMACS
pub open spec fn row_p() -> Seq<char> { Seq::<char>::empty().push('p').push(' ').push('s').push('p').push(' ') }
pub struct Dimacs { pub found: bool, pub nodes: usize, pub edges: usize, pub count: int, pub list: Seq<Edge> }
pub open spec fn problem(line: Seq<char>) -> Option<(usize, usize)> {
    let f = fields(line.skip(5));
    if f.len() == 2 && parse_usize(f[0]) is Some && parse_usize(f[1]) is Some { Some((parse_usize(f[0])->0, parse_usize(f[1])->0)) } else { None }
}
// the prefixes are ASCII: counting bytes is counting characters
pub proof fn lemma_prefixes(l: Seq<char>)
    ensures starts(l, row_p()) ==> l.len() >= 5 && forall|j: int| 0 <= j < 5 ==> (#[trigger] l[j]) as int <= 127,
        starts(l, row_a()) ==> l.len() >= 2 && forall|j: int| 0 <= j < 2 ==> (#[trigger] l[j]) as int <= 127,
{
    if starts(l, row_p()) { assert forall|j: int| 0 <= j < 5 implies (#[trigger] l[j]) as int <= 127 by { assert(l[j] == row_p()[j]); } }
    if starts(l, row_a()) { assert forall|j: int| 0 <= j < 2 implies (#[trigger] l[j]) as int <= 127 by { assert(l[j] == row_a()[j]); } }
}
// one more line; None: the line is not allowed here
pub open spec fn dimacs_line(d: Dimacs, l: Seq<char>) -> Option<Dimacs> {
    if l.len() == 0 || starts(l, Seq::<char>::empty().push('c')) { Some(d) }
    else if starts(l, row_p()) {
        if d.found || problem(l) is None { None }
        else { Some(Dimacs { found: true, nodes: (problem(l)->0).0, edges: (problem(l)->0).1, count: d.count, list: d.list }) }
    } else if starts(l, row_a()) {
        if !d.found || arc(l) is None { None } else {
            let x = arc(l)->0;
            if 1 <= x.0 <= d.nodes && 1 <= x.1 <= d.nodes && d.count < d.edges {
                Some(Dimacs { count: d.count + 1, list: keep(d.list, (x.0 - 1) as usize, (x.1 - 1) as usize, x.2), ..d })
            } else { None }
        }
    } else { None }
}
#[verifier::opaque]
pub open spec fn dimacs(lines: Seq<Seq<char>>) -> Option<Dimacs>
    decreases lines.len(),
{
    if lines.len() == 0 { Some(Dimacs { found: false, nodes: 0, edges: 0, count: 0, list: Seq::empty() }) }
    else { match dimacs(lines.drop_last()) { Some(d) => dimacs_line(d, lines.last()), None => None } }
}
pub proof fn lemma_dimacs_none(lines: Seq<Seq<char>>)
    requires lines.len() == 0,
    ensures dimacs(lines) == Some(Dimacs { found: false, nodes: 0, edges: 0, count: 0, list: Seq::empty() }),
{
    reveal(dimacs);
}
pub proof fn lemma_dimacs_last(lines: Seq<Seq<char>>)
    requires lines.len() > 0,
    ensures dimacs(lines) == (match dimacs(lines.drop_last()) { Some(d) => dimacs_line(d, lines.last()), None => None }),
{
    reveal(dimacs);
}
pub open spec fn dimacs_ok(lines: Seq<Seq<char>>) -> bool {
    dimacs(lines) is Some && (dimacs(lines)->0).count == (dimacs(lines)->0).edges
}
// a prefix of an allowed sequence of lines is allowed
pub proof fn lemma_dimacs_prefix(lines: Seq<Seq<char>>, k: int)
    requires dimacs(lines) is Some, 0 <= k <= lines.len(),
    ensures dimacs(lines.take(k)) is Some,
    decreases lines.len() - k,
{
    reveal(dimacs);
    if k < lines.len() {
        lemma_dimacs_prefix(lines, k + 1);
        assert(lines.take(k + 1).drop_last() =~= lines.take(k));
    } else {
        assert(lines.take(k) =~= lines);
    }
}
pub open spec fn problem_row(n: int, m: int) -> Seq<char> { row_p() + dec(n) + seq![' '] + dec(m) }
// the header and one row per edge, ids counted from 1
pub open spec fn dimacs_rows(n: int, m: int, s: Seq<Edge>) -> Seq<Seq<char>> {
    seq![problem_row(n, m)] + s.map_values(|e: Edge| arc_row(e.from + 1, e.to + 1, e.weight as int))
}
pub proof fn lemma_problem_row(n: int, m: int)
    requires 0 <= n <= usize::MAX, 0 <= m <= usize::MAX,
    ensures starts(problem_row(n, m), row_p()), flat(problem_row(n, m)), problem(problem_row(n, m)) == Some((n as usize, m as usize)),
        !starts(problem_row(n, m), Seq::<char>::empty().push('c')),
{
    let a = dec(n);
    let b = dec(m);
    let r = problem_row(n, m);
    lemma_dec_solid(n); lemma_dec_solid(m);
    lemma_fields2(a, b);
    assert(r.skip(5) =~= a + seq![' '] + b);
    lemma_parse_dec(n as usize); lemma_parse_dec(m as usize);
    assert(r[0] == 'p');
    assert(Seq::<char>::empty().push('c')[0] == 'c');
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) != '\n' && r[k] != '\r' by {
        let k2 = k - 5;
        if 0 <= k2 < a.len() { assert(r[k] == a[k2]); assert(!ws(a[k2])); }
        else if k2 > a.len() { assert(r[k] == b[k2 - a.len() - 1]); assert(!ws(b[k2 - a.len() - 1])); }
    }
}
pub proof fn lemma_dimacs_start(n: int, m: int, s: Seq<Edge>)
    ensures text_of(dimacs_rows(n, m, s.take(0))) == problem_row(n, m) + seq!['\n'],
{
    reveal(text_of);
    let r = dimacs_rows(n, m, s.take(0));
    assert(r =~= seq![problem_row(n, m)]);
    assert(r.drop_last().len() == 0);
    assert(text_of(r.drop_last()) =~= Seq::empty());
    assert(text_of(r) =~= problem_row(n, m) + seq!['\n']);
}
pub proof fn lemma_dimacs_step(n: int, m: int, s: Seq<Edge>, k: int)
    requires 0 <= k < s.len(),
    ensures text_of(dimacs_rows(n, m, s.take(k + 1))) == text_of(dimacs_rows(n, m, s.take(k))) + (arc_row(s[k].from + 1, s[k].to + 1, s[k].weight as int) + seq!['\n']),
{
    reveal(text_of);
    let a = dimacs_rows(n, m, s.take(k + 1));
    let b = dimacs_rows(n, m, s.take(k));
    let r = arc_row(s[k].from + 1, s[k].to + 1, s[k].weight as int);
    assert(a =~= b.push(r));
    assert(a.drop_last() =~= b);
}
// one more arc line
proof fn lemma_dimacs_arc(n: int, m: int, p: Seq<Edge>, e: Edge)
    requires edge_ok(e, n), forall|k: int| 0 <= k < p.len() ==> edge_ok(#[trigger] p[k], n), 0 <= n <= usize::MAX, p.len() < m <= usize::MAX,
    ensures dimacs_line(Dimacs { found: true, nodes: n as usize, edges: m as usize, count: p.len() as int, list: p }, arc_row(e.from + 1, e.to + 1, e.weight as int))
        == Some(Dimacs { found: true, nodes: n as usize, edges: m as usize, count: (p.len() + 1) as int, list: p.push(e) }),
        flat(arc_row(e.from + 1, e.to + 1, e.weight as int)),
{
    lemma_row(e.from + 1, e.to + 1, e.weight as int);
    let l = arc_row(e.from + 1, e.to + 1, e.weight as int);
    assert(l[0] == 'a');
    assert(Seq::<char>::empty().push('c')[0] == 'c');
    assert(row_p()[0] == 'p');
    assert(keep(p, e.from, e.to, e.weight) =~= p.push(e));
    assert(!starts(l, row_p()));
    assert(!starts(l, Seq::<char>::empty().push('c')));
    assert(arc(l) == Some(((e.from + 1) as usize, (e.to + 1) as usize, e.weight)));
}
// the problem line
proof fn lemma_dimacs_head(n: int, m: int)
    requires 0 <= n <= usize::MAX, 0 <= m <= usize::MAX,
    ensures dimacs_line(Dimacs { found: false, nodes: 0, edges: 0, count: 0, list: Seq::<Edge>::empty() }, problem_row(n, m))
        == Some(Dimacs { found: true, nodes: n as usize, edges: m as usize, count: 0, list: Seq::<Edge>::empty() }),
        flat(problem_row(n, m)),
{
    lemma_problem_row(n, m);
    assert(row_p()[0] == 'p');
}
pub proof fn lemma_dimacs_back(n: int, m: int, s: Seq<Edge>)
    requires forall|k: int| 0 <= k < s.len() ==> edge_ok(#[trigger] s[k], n), 0 <= n <= usize::MAX, s.len() <= m <= usize::MAX,
    ensures forall|k: int| 0 <= k < dimacs_rows(n, m, s).len() ==> flat(#[trigger] dimacs_rows(n, m, s)[k]),
        dimacs(dimacs_rows(n, m, s)) == Some(Dimacs { found: true, nodes: n as usize, edges: m as usize, count: s.len() as int, list: s }),
    decreases s.len(),
{
    hide(dimacs_line);
    hide(flat);
    hide(arc_row);
    hide(problem_row);
    reveal(dimacs);
    let rows = dimacs_rows(n, m, s);
    lemma_dimacs_head(n, m);
    assert(rows[0] == problem_row(n, m));
    let d1 = Dimacs { found: true, nodes: n as usize, edges: m as usize, count: 0, list: Seq::<Edge>::empty() };
    if s.len() == 0 {
        assert(rows =~= seq![problem_row(n, m)]);
        assert(rows.drop_last() =~= Seq::empty());
        let d0 = Dimacs { found: false, nodes: 0, edges: 0, count: 0, list: Seq::<Edge>::empty() };
        assert(dimacs(rows.drop_last()) == Some(d0));
        assert(s =~= Seq::empty());
        assert(dimacs(rows) == Some(d1));
    } else {
        let p = s.drop_last();
        let e = s.last();
        assert forall|k: int| 0 <= k < p.len() implies edge_ok(#[trigger] p[k], n) by { assert(edge_ok(s[k], n)); }
        assert(edge_ok(s[s.len() - 1], n));
        lemma_dimacs_back(n, m, p);
        lemma_dimacs_arc(n, m, p, e);
        let q = dimacs_rows(n, m, p);
        assert(rows.drop_last() =~= q);
        assert(rows.last() == arc_row(e.from + 1, e.to + 1, e.weight as int));
        assert(p.push(e) =~= s);
        assert forall|k: int| 0 <= k < rows.len() implies flat(#[trigger] rows[k]) by {
            if k < rows.len() - 1 { assert(rows[k] == q[k]); }
        }
    }
}

// ------------------------------------------------------------------ C15
// nothing else touches the file between writing and reading
pub trait VpDisk {
    fn undisturbed(name: &str)
        ensures forall|t: Seq<char>| #[trigger] vp_written(name@, t) ==> vp_opens(name@) && forall|c: Seq<char>| #[trigger] vp_reads(name@, c) ==> c == t;
}
pub fn thm_file<D: VpDisk>(g: &InputGraph, name: &str) -> (res: Option<InputGraph>)
    requires g.wf(), g.frozen,
    ensures res is Some ==> res->0.edges@ == g.edges@ && res->0.num_nodes == g.num_nodes && res->0.frozen, // [C15]
{
    match g.to_file(name, Ghost(true)) {
        Ok(_) => {
            D::undisturbed(name);
            proof {
                lemma_file_back(g.edges@, g.num_nodes as int);
                lemma_lines_text(file_rows(g.edges@));
            }
            let h = InputGraph::from_file(name, Ghost(true));
            proof { lemma_same_input(*g, h); }
            Some(h)
        },
        Err(_) => None,
    }
}
pub fn thm_dimacs<D: VpDisk>(g: &InputGraph, name: &str) -> (res: Option<InputGraph>)
    requires g.wf(), g.frozen,
    ensures res is Some ==> res->0.edges@ == g.edges@ && res->0.num_nodes == g.num_nodes && res->0.frozen, // [C15]
{
    let m = g.edges.len();
    match g.to_dimacs_file(name, Ghost(true)) {
        Ok(_) => {
            D::undisturbed(name);
            proof {
                lemma_dimacs_back(g.num_nodes as int, g.edges@.len() as int, g.edges@);
                lemma_lines_text(dimacs_rows(g.num_nodes as int, g.edges@.len() as int, g.edges@));
            }
            let h = InputGraph::from_dimacs_file(name, Ghost(true));
            proof { lemma_same_input(*g, h); }
            Some(h)
        },
        Err(_) => None,
    }
}
}
