//! Replays failed obligations of /verif against the real code of /repo (public API only).
//!
//!   replay search <property> <seed> <seconds> <out-file>   look for a failing input; exit 1 and write it if found
//!   replay run <file>                                      re-run a recorded input; exit 1 if it fails
//!   replay deep <out-file>                                 C12: deeply nested shortcuts
//!   replay wrap <out-file>                                 C04: one calculator, more than 2^32 queries
//!   replay hub <out-file>                                  C12: a node with more than 2^31 pairs of edges
//!   replay assumed <seed> <rounds>                         the assumed contracts against the real libraries
mod assumed;
use fast_paths::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const INF: u128 = usize::MAX as u128;

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn to(&mut self, k: usize) -> usize {
        if k == 0 { 0 } else { ((self.next() >> 11) % k as u64) as usize }
    }
    fn chance(&mut self, k: usize) -> bool {
        self.to(k) == 0
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.to(v.len())].clone()
    }
    fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = self.to(i + 1);
            p.swap(i, j);
        }
        p
    }
}

// ------------------------------------------------------------------------------------------ cases

#[derive(Clone, Debug, PartialEq)]
enum Prep {
    Default,
    Params(f32, f32, usize, usize, usize),
    Order(Vec<usize>),
    OrderParams(Vec<usize>, usize),
    /// prepare, read the ordering, prepare with it again
    Feedback(f32, usize),
}

#[derive(Clone, Debug, PartialEq)]
enum Query {
    Single(usize, usize),
    Multi(Vec<(usize, usize)>, Vec<(usize, usize)>),
    /// query number two's graph with the same calculator
    Other(Vec<(usize, usize)>, Vec<(usize, usize)>),
    AllPairs,
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Add(usize, usize, usize),
    Bidir(usize, usize, usize),
    Freeze,
    Thaw,
    Read,
    Prepare,
}

#[derive(Clone, Debug)]
struct Case {
    prop: String,
    edges: Vec<(usize, usize, usize)>,
    edges2: Vec<(usize, usize, usize)>,
    prep: Prep,
    queries: Vec<Query>,
    ops: Vec<Op>,
    leaves: Vec<(usize, usize)>,
    /// C15: pieces of a file (with their line ends); U+FFFD stands for a byte that is no UTF-8
    lines: Vec<String>,
    dimacs: bool,
}

impl Case {
    fn new(prop: &str) -> Self {
        Case { prop: prop.into(), edges: vec![], edges2: vec![], prep: Prep::Default, queries: vec![], ops: vec![], leaves: vec![], lines: vec![], dimacs: false }
    }
    fn text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "prop {}", self.prop).unwrap();
        for e in &self.edges {
            writeln!(s, "edge {} {} {}", e.0, e.1, e.2).unwrap();
        }
        for e in &self.edges2 {
            writeln!(s, "edge2 {} {} {}", e.0, e.1, e.2).unwrap();
        }
        let list = |v: &Vec<usize>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        match &self.prep {
            Prep::Default => writeln!(s, "prep default").unwrap(),
            Prep::Params(a, b, c, d, e) => writeln!(s, "prep params {} {} {} {} {}", a, b, c, d, e).unwrap(),
            Prep::Order(o) => writeln!(s, "prep order {}", list(o)).unwrap(),
            Prep::OrderParams(o, l) => writeln!(s, "prep orderparams {} {}", l, list(o)).unwrap(),
            Prep::Feedback(r, l) => writeln!(s, "prep feedback {} {}", r, l).unwrap(),
        }
        let pl = |v: &Vec<(usize, usize)>| v.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(",");
        for q in &self.queries {
            match q {
                Query::Single(a, b) => writeln!(s, "query single {} {}", a, b).unwrap(),
                Query::Multi(a, b) => writeln!(s, "query multi [{}] [{}]", pl(a), pl(b)).unwrap(),
                Query::Other(a, b) => writeln!(s, "query other [{}] [{}]", pl(a), pl(b)).unwrap(),
                Query::AllPairs => writeln!(s, "query allpairs").unwrap(),
            }
        }
        for o in &self.ops {
            match o {
                Op::Add(a, b, w) => writeln!(s, "op add {} {} {}", a, b, w).unwrap(),
                Op::Bidir(a, b, w) => writeln!(s, "op bidir {} {} {}", a, b, w).unwrap(),
                Op::Freeze => writeln!(s, "op freeze").unwrap(),
                Op::Thaw => writeln!(s, "op thaw").unwrap(),
                Op::Read => writeln!(s, "op read").unwrap(),
                Op::Prepare => writeln!(s, "op prepare").unwrap(),
            }
        }
        for (i, v) in &self.leaves {
            writeln!(s, "leaf {} {}", i, v).unwrap();
        }
        if self.dimacs {
            writeln!(s, "dimacs").unwrap();
        }
        for l in &self.lines {
            writeln!(s, "line {}", serde_json::to_string(l).unwrap()).unwrap();
        }
        s
    }
    fn parse(txt: &str) -> Case {
        let mut c = Case::new("");
        let us = |x: &str| x.parse::<usize>().unwrap();
        let pl = |x: &str| -> Vec<(usize, usize)> {
            let x = x.trim_start_matches('[').trim_end_matches(']');
            x.split(',').filter(|y| !y.is_empty()).map(|y| { let mut z = y.split(':'); (us(z.next().unwrap()), us(z.next().unwrap())) }).collect()
        };
        for l in txt.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.is_empty() || f[0].starts_with('#') {
                continue;
            }
            match f[0] {
                "prop" => c.prop = f[1].into(),
                "edge" => c.edges.push((us(f[1]), us(f[2]), us(f[3]))),
                "edge2" => c.edges2.push((us(f[1]), us(f[2]), us(f[3]))),
                "prep" => {
                    c.prep = match f[1] {
                        "default" => Prep::Default,
                        "params" => Prep::Params(f[2].parse().unwrap(), f[3].parse().unwrap(), us(f[4]), us(f[5]), us(f[6])),
                        "order" => Prep::Order(f[2..].iter().map(|x| us(x)).collect()),
                        "orderparams" => Prep::OrderParams(f[3..].iter().map(|x| us(x)).collect(), us(f[2])),
                        _ => Prep::Feedback(f[2].parse().unwrap(), us(f[3])),
                    }
                }
                "query" => c.queries.push(match f[1] {
                    "single" => Query::Single(us(f[2]), us(f[3])),
                    "multi" => Query::Multi(pl(f[2]), pl(f[3])),
                    "other" => Query::Other(pl(f[2]), pl(f[3])),
                    _ => Query::AllPairs,
                }),
                "op" => c.ops.push(match f[1] {
                    "add" => Op::Add(us(f[2]), us(f[3]), us(f[4])),
                    "bidir" => Op::Bidir(us(f[2]), us(f[3]), us(f[4])),
                    "freeze" => Op::Freeze,
                    "thaw" => Op::Thaw,
                    "read" => Op::Read,
                    _ => Op::Prepare,
                }),
                "leaf" => c.leaves.push((us(f[1]), us(f[2]))),
                "dimacs" => c.dimacs = true,
                "line" => c.lines.push(serde_json::from_str(l.trim_start()[5..].trim()).unwrap()),
                _ => {}
            }
        }
        c
    }
}

// ------------------------------------------------------------------------------------------ oracle

struct Oracle {
    n: usize,
    w: BTreeMap<(usize, usize), usize>,
    out: Vec<Vec<(usize, u128)>>,
    d: std::cell::RefCell<BTreeMap<usize, std::rc::Rc<Vec<u128>>>>,
}

fn oracle(edges: &[(usize, usize, usize)]) -> Oracle {
    let mut w: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut n = 0;
    for &(a, b, x) in edges {
        if a == b || x == 0 {
            continue;
        }
        n = n.max(a + 1).max(b + 1);
        let e = w.entry((a, b)).or_insert(x);
        if x < *e {
            *e = x;
        }
    }
    let mut out: Vec<Vec<(usize, u128)>> = vec![vec![]; n];
    for (&(a, b), &x) in &w {
        out[a].push((b, x as u128));
    }
    Oracle { n, w, out, d: Default::default() }
}

impl Oracle {
    /// shortest distances from s, computed once
    fn row(&self, s: usize) -> std::rc::Rc<Vec<u128>> {
        if let Some(r) = self.d.borrow().get(&s) {
            return r.clone();
        }
        let mut d = vec![INF; self.n];
        let mut done = vec![false; self.n];
        let mut h = std::collections::BinaryHeap::new();
        d[s] = 0;
        h.push((std::cmp::Reverse(0u128), s));
        while let Some((std::cmp::Reverse(x), u)) = h.pop() {
            if done[u] {
                continue;
            }
            done[u] = true;
            for &(v, y) in &self.out[u] {
                if x + y < d[v] {
                    d[v] = x + y;
                    h.push((std::cmp::Reverse(x + y), v));
                }
            }
        }
        let r = std::rc::Rc::new(d);
        self.d.borrow_mut().insert(s, r.clone());
        r
    }
    fn multi(&self, ss: &[(usize, usize)], tt: &[(usize, usize)]) -> u128 {
        let mut best = INF;
        for &(s, a) in ss {
            let row = self.row(s);
            for &(t, b) in tt {
                if a == usize::MAX || b == usize::MAX {
                    continue;
                }
                let x = row[t];
                if x < INF {
                    let y = a as u128 + x + b as u128;
                    if y < best {
                        best = y;
                    }
                }
            }
        }
        best
    }
    /// weight minimality
    fn check_weight(&self, ss: &[(usize, usize)], tt: &[(usize, usize)], p: &Option<ShortestPath>) -> Result<(), String> {
        let want = self.multi(ss, tt);
        match p {
            None if want < INF => Err(format!("query {:?} -> {:?}: no path returned, the shortest one has weight {}", ss, tt, want)),
            Some(p) if p.get_weight() as u128 != want => Err(format!("query {:?} -> {:?}: weight {} returned, shortest is {}", ss, tt, p.get_weight(), if want < INF { want.to_string() } else { "none".into() })),
            _ => Ok(()),
        }
    }
    /// the node list is a walk with the stated weight
    fn check_walk(&self, ss: &[(usize, usize)], tt: &[(usize, usize)], p: &Option<ShortestPath>) -> Result<(), String> {
        if let Some(p) = p {
            let nodes = p.get_nodes();
            let here = format!("query {:?} -> {:?} returned {:?} (weight {}, source {}, target {})", ss, tt, nodes, p.get_weight(), p.get_source(), p.get_target());
            if nodes.is_empty() {
                return Err(format!("{}: empty node list", here));
            }
            if p.get_source() != nodes[0] || p.get_target() != nodes[nodes.len() - 1] {
                return Err(format!("{}: source/target are not the first/last node", here));
            }
            let mut x = 0u128;
            for i in 1..nodes.len() {
                match self.w.get(&(nodes[i - 1], nodes[i])) {
                    None => return Err(format!("{}: no edge {} -> {}", here, nodes[i - 1], nodes[i])),
                    Some(&y) => x += y as u128,
                }
            }
            let ok = ss.iter().filter(|s| s.0 == nodes[0]).any(|s| tt.iter().filter(|t| t.0 == nodes[nodes.len() - 1]).any(|t| s.1 as u128 + x + t.1 as u128 == p.get_weight() as u128));
            if !ok {
                return Err(format!("{}: the walk's own weight is {} without initial weights", here, x));
            }
        }
        Ok(())
    }
}

fn input(edges: &[(usize, usize, usize)]) -> InputGraph {
    let mut g = InputGraph::new();
    for &(a, b, w) in edges {
        g.add_edge(a, b, w);
    }
    g.freeze();
    g
}

fn prep(g: &InputGraph, p: &Prep) -> Result<FastGraph, String> {
    Ok(match p {
        Prep::Default => prepare(g),
        Prep::Params(a, b, c, d, e) => {
            let mut x = Params::new(*a, *c, *d, *e);
            x.edge_quotient_factor = *b;
            prepare_with_params(g, &x)
        }
        Prep::Order(o) => prepare_with_order(g, o)?,
        Prep::OrderParams(o, l) => prepare_with_order_with_params(g, o, &ParamsWithOrder::new(*l))?,
        Prep::Feedback(r, l) => {
            let f = prepare_with_params(g, &Params::new(*r, *l, *l, *l));
            let o = get_node_ordering(&f);
            prepare_with_order(g, &o)?
        }
    })
}

// ------------------------------------------------------------------------------------------ checks

fn ctx<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        format!("{} panicked: {}", what, m)
    })
}

struct Stats {
    evals: usize,
}

fn run_case(c: &Case, st: &mut Stats) -> Result<(), String> {
    match c.prop.as_str() {
        "C08" => return run_normal(c, st),
        "C09" => return run_freeze(c, st),
        "C10" => return run_32(c, st),
        "C16" => return run_serde(c, st),
        "C17" => return run_serde_input(c, st),
        "C15" => return run_files(c, st),
        _ => {}
    }
    let o = oracle(&c.edges);
    let g = ctx("building the input graph", || input(&c.edges))?;
    let wrong_len = match &c.prep {
        Prep::Order(x) | Prep::OrderParams(x, _) => x.len() != o.n,
        _ => false,
    };
    let r = ctx("preparation", || prep(&g, &c.prep))?;
    st.evals += 1;
    let fg = match r {
        Err(_) if wrong_len => return Ok(()),
        Err(e) => return Err(format!("preparation returned an error: {}", e)),
        Ok(_) if wrong_len => return Err("an order of the wrong length was accepted".into()),
        Ok(f) => f,
    };
    if c.prop == "C07" {
        let ord = ctx("get_node_ordering", || get_node_ordering(&fg))?;
        let mut s = ord.clone();
        s.sort();
        if s != (0..o.n).collect::<Vec<_>>() {
            return Err(format!("the node ordering {:?} is not a permutation of {} nodes", ord, o.n));
        }
        if let Prep::Order(x) | Prep::OrderParams(x, _) = &c.prep {
            if *x != ord {
                return Err(format!("prepared with order {:?}, the reported ordering is {:?}", x, ord));
            }
        }
        let again = ctx("preparation with the reported ordering", || prepare_with_order(&g, &ord))?.map_err(|e| format!("reported ordering rejected: {}", e))?;
        if get_node_ordering(&again) != ord {
            return Err(format!("ordering {:?} fed back is reported as {:?}", ord, get_node_ordering(&again)));
        }
        return Ok(());
    }
    if c.prop == "C13" {
        for q in &c.queries {
            if let Query::Multi(a, b) = q {
                st.evals += 1;
                let bad = a.is_empty() || b.is_empty() || a.iter().chain(b.iter()).any(|x| x.0 >= o.n);
                let mut calc = create_calculator(&fg);
                let r = catch_unwind(AssertUnwindSafe(|| calc.calc_path_multiple_sources_and_targets(&fg, a.clone(), b.clone())));
                if bad && r.is_ok() {
                    return Err(format!("invalid query {:?} -> {:?} on {} nodes was answered", a, b, o.n));
                }
                let r = catch_unwind(AssertUnwindSafe(|| calc_path_multiple_sources_and_targets(&fg, a.clone(), b.clone())));
                if bad && r.is_ok() {
                    return Err(format!("invalid query {:?} -> {:?} on {} nodes was answered by the convenience function", a, b, o.n));
                }
                if a.len() == 1 && b.len() == 1 && bad {
                    let mut calc = create_calculator(&fg);
                    let r = catch_unwind(AssertUnwindSafe(|| calc.calc_path(&fg, a[0].0, b[0].0)));
                    let r2 = catch_unwind(AssertUnwindSafe(|| calc_path(&fg, a[0].0, b[0].0)));
                    if r.is_ok() || r2.is_ok() {
                        return Err(format!("invalid query {} -> {} on {} nodes was answered", a[0].0, b[0].0, o.n));
                    }
                }
            }
            if let Query::Other(a, b) = q {
                // calculator of another size
                st.evals += 1;
                let g2 = input(&c.edges2);
                let f2 = prepare(&g2);
                if g2.get_num_nodes() != o.n {
                    let mut calc = create_calculator(&f2);
                    let r = catch_unwind(AssertUnwindSafe(|| calc.calc_path_multiple_sources_and_targets(&fg, a.clone(), b.clone())));
                    if r.is_ok() {
                        return Err(format!("a calculator for {} nodes answered {:?} -> {:?} on a graph with {} nodes", g2.get_num_nodes(), a, b, o.n));
                    }
                    if a.len() == 1 && b.len() == 1 {
                        let mut calc = create_calculator(&f2);
                        if catch_unwind(AssertUnwindSafe(|| calc.calc_path(&fg, a[0].0, b[0].0))).is_ok() {
                            return Err(format!("a calculator for {} nodes answered {} -> {} on a graph with {} nodes", g2.get_num_nodes(), a[0].0, b[0].0, o.n));
                        }
                    }
                }
            }
        }
        return Ok(());
    }
    let weight = c.prop != "C02" && c.prop != "C12";
    let walk = c.prop == "C02";
    let o2 = oracle(&c.edges2);
    let fg2 = if c.edges2.is_empty() || o2.n != o.n { None } else { Some(ctx("preparation", || prep(&input(&c.edges2), &c.prep))??) };
    let mut calc = create_calculator(&fg);
    let judge = |o: &Oracle, ss: &[(usize, usize)], tt: &[(usize, usize)], p: &Option<ShortestPath>| -> Result<(), String> {
        if weight {
            o.check_weight(ss, tt, p)?;
        }
        if walk {
            o.check_walk(ss, tt, p)?;
        }
        Ok(())
    };
    for q in &c.queries {
        match q {
            Query::Single(s, t) => {
                st.evals += 1;
                if *s >= o.n || *t >= o.n {
                    let _ = catch_unwind(AssertUnwindSafe(|| calc.calc_path(&fg, *s, *t)));
                    continue;
                }
                let p = ctx(&format!("query {} -> {}", s, t), || calc.calc_path(&fg, *s, *t))?;
                judge(&o, &[(*s, 0)], &[(*t, 0)], &p)?;
                if c.prop != "C04" {
                    let p = ctx(&format!("query {} -> {}", s, t), || calc_path(&fg, *s, *t))?;
                    judge(&o, &[(*s, 0)], &[(*t, 0)], &p)?;
                }
                if s == t && (c.prop == "C01" || c.prop == "C02") {
                    if let Some(p) = &p {
                        if p.get_nodes() != &vec![*s] || p.get_weight() != 0 {
                            return Err(format!("query {} -> {} returned {:?} with weight {}", s, t, p.get_nodes(), p.get_weight()));
                        }
                    }
                }
            }
            Query::Multi(a, b) => {
                st.evals += 1;
                if a.is_empty() || b.is_empty() || a.iter().chain(b.iter()).any(|x| x.0 >= o.n) {
                    let _ = catch_unwind(AssertUnwindSafe(|| calc.calc_path_multiple_sources_and_targets(&fg, a.clone(), b.clone())));
                    continue;
                }
                let p = ctx(&format!("query {:?} -> {:?}", a, b), || calc.calc_path_multiple_sources_and_targets(&fg, a.clone(), b.clone()))?;
                judge(&o, a, b, &p)?;
                if c.prop != "C04" {
                    let p = ctx(&format!("query {:?} -> {:?}", a, b), || calc_path_multiple_sources_and_targets(&fg, a.clone(), b.clone()))?;
                    judge(&o, a, b, &p)?;
                }
            }
            Query::Other(a, b) => {
                if let Some(f2) = &fg2 {
                    st.evals += 1;
                    if a.is_empty() || b.is_empty() || a.iter().chain(b.iter()).any(|x| x.0 >= o.n) {
                        continue;
                    }
                    let single = a.len() == 1 && b.len() == 1 && a[0].1 == 0 && b[0].1 == 0;
                    let p = ctx(&format!("query {:?} -> {:?} on the second graph", a, b), || {
                        if single { calc.calc_path(f2, a[0].0, b[0].0) } else { calc.calc_path_multiple_sources_and_targets(f2, a.clone(), b.clone()) }
                    })?;
                    judge(&o2, a, b, &p).map_err(|e| format!("second graph: {}", e))?;
                }
            }
            Query::AllPairs => {
                for s in 0..o.n {
                    for t in 0..o.n {
                        st.evals += 1;
                        let p = ctx(&format!("query {} -> {}", s, t), || calc.calc_path(&fg, s, t))?;
                        judge(&o, &[(s, 0)], &[(t, 0)], &p)?;
                    }
                }
            }
        }
    }
    Ok(())
}

struct Model {
    w: BTreeMap<(usize, usize), usize>,
    n: usize,
    frozen: bool,
}
impl Model {
    fn add(&mut self, a: usize, b: usize, w: usize) -> usize {
        if a == b || w == 0 {
            return 0;
        }
        self.n = self.n.max(a + 1).max(b + 1);
        let e = self.w.entry((a, b)).or_insert(w);
        if w < *e {
            *e = w;
        }
        1
    }
}

fn read_check(g: &InputGraph, m: &Model) -> Result<(), String> {
    let got: Vec<(usize, usize, usize)> = g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect();
    let want: Vec<(usize, usize, usize)> = m.w.iter().map(|(k, v)| (k.0, k.1, *v)).collect();
    if got != want {
        return Err(format!("frozen edges {:?}, normal form {:?}", got, want));
    }
    if g.get_num_nodes() != m.n {
        return Err(format!("node count {}, expected {}", g.get_num_nodes(), m.n));
    }
    if g.get_num_edges() != want.len() {
        return Err(format!("edge count {}, expected {}", g.get_num_edges(), want.len()));
    }
    Ok(())
}

/// C08: valid sequences only
fn run_normal(c: &Case, st: &mut Stats) -> Result<(), String> {
    let mut g = InputGraph::new();
    let mut m = Model { w: BTreeMap::new(), n: 0, frozen: false };
    for (i, op) in c.ops.iter().enumerate() {
        st.evals += 1;
        let at = |e: String| format!("op {} ({:?}): {}", i, op, e);
        match op {
            Op::Add(a, b, w) if !m.frozen => {
                let r = ctx("add_edge", || g.add_edge(*a, *b, *w)).map_err(at)?;
                let want = m.add(*a, *b, *w);
                if r != want {
                    return Err(at(format!("returned {}, expected {}", r, want)));
                }
            }
            Op::Bidir(a, b, w) if !m.frozen => {
                let r = ctx("add_edge_bidir", || g.add_edge_bidir(*a, *b, *w)).map_err(at)?;
                let want = m.add(*a, *b, *w) + m.add(*b, *a, *w);
                if r != want {
                    return Err(at(format!("returned {}, expected {}", r, want)));
                }
            }
            Op::Freeze if !m.frozen => {
                ctx("freeze", || g.freeze()).map_err(at)?;
                m.frozen = true;
                ctx("reading", || read_check(&g, &m)).map_err(at)?.map_err(at)?;
            }
            Op::Thaw if m.frozen => {
                ctx("thaw", || g.thaw()).map_err(at)?;
                m.frozen = false;
            }
            Op::Read if m.frozen => ctx("reading", || read_check(&g, &m)).map_err(at)?.map_err(at)?,
            _ => {}
        }
    }
    Ok(())
}

/// C09: what must panic panics, what must not does not
fn run_freeze(c: &Case, st: &mut Stats) -> Result<(), String> {
    let mut g = InputGraph::new();
    let mut m = Model { w: BTreeMap::new(), n: 0, frozen: false };
    let mut probe = |g: &mut InputGraph, m: &Model| -> Result<(), String> {
        macro_rules! must { ($panics:expr, $name:expr, $e:expr) => {{
            st.evals += 1;
            let r = catch_unwind(AssertUnwindSafe(|| { let _ = $e; }));
            if r.is_ok() == $panics {
                return Err(format!("{} on a {} graph {}", $name, if m.frozen { "frozen" } else { "not frozen" }, if $panics { "returned instead of panicking" } else { "panicked" }));
            }
        }} }
        must!(!m.frozen, "get_edges", g.get_edges().len());
        must!(!m.frozen, "get_num_nodes", g.get_num_nodes());
        must!(!m.frozen, "get_num_edges", g.get_num_edges());
        if m.w.len() < 12 {
            must!(!m.frozen, "prepare", prepare(g));
            must!(!m.frozen, "prepare_with_params", prepare_with_params(g, &Params::new(0.1, 10, 10, 10)));
            if !m.frozen {
                must!(true, "prepare_with_order", prepare_with_order(g, &(0..m.n).collect::<Vec<_>>()));
                must!(true, "prepare_with_order", prepare_with_order(g, &vec![]));
            }
        }
        if m.frozen {
            for (a, b, w) in [(0usize, 1usize, 3usize), (1, 1, 3), (0, 1, 0), (5, 2, 1)] {
                must!(true, format!("add_edge({},{},{})", a, b, w), g.add_edge(a, b, w));
                must!(true, format!("add_edge_bidir({},{},{})", a, b, w), g.add_edge_bidir(a, b, w));
            }
            must!(true, "freeze", g.freeze());
        }
        Ok(())
    };
    // rebuilt before every probe so that a half-done panicking call cannot disturb later steps
    for upto in 0..=c.ops.len() {
        let mut legal = true;
        g = InputGraph::new();
        m = Model { w: BTreeMap::new(), n: 0, frozen: false };
        let mut read: Result<(), String> = Ok(());
        for op in &c.ops[..upto] {
            let r = ctx(&format!("{:?}", op), || match op {
                Op::Add(a, b, w) if !m.frozen => { g.add_edge(*a, *b, *w); m.add(*a, *b, *w); }
                Op::Bidir(a, b, w) if !m.frozen => { g.add_edge_bidir(*a, *b, *w); m.add(*a, *b, *w); m.add(*b, *a, *w); }
                Op::Freeze if !m.frozen => { g.freeze(); m.frozen = true; }
                Op::Thaw => { g.thaw(); m.frozen = false; }
                Op::Read if m.frozen => { read = read_check(&g, &m); }
                _ => legal = false,
            });
            r?;
        }
        read?;
        let _ = legal;
        probe(&mut g, &m)?;
    }
    Ok(())
}

#[derive(serde::Serialize, serde::Deserialize)]
struct Wrap32 {
    before: String,
    #[serde(serialize_with = "fast_paths::serialize_32", deserialize_with = "fast_paths::deserialize_32")]
    graph: FastGraph,
    after: Vec<u16>,
}
#[derive(serde::Serialize, serde::Deserialize)]
struct Wrap64 {
    before: u8,
    graph: FastGraph,
    after: Option<FastGraph>,
}

/// all that can be seen of a prepared graph
fn seen(f: &FastGraph, st: &mut Stats) -> Result<String, String> {
    let n = f.get_num_nodes();
    let mut s = format!("{} nodes, {} out, {} in; {:?}\n", n, f.get_num_out_edges(), f.get_num_in_edges(), f);
    write!(s, "{:?}\n", get_node_ordering(f)).unwrap();
    for v in 0..n {
        write!(s, "{} {} {} {};", f.begin_out_edges(v), f.end_out_edges(v), f.begin_in_edges(v), f.end_in_edges(v)).unwrap();
    }
    if n <= 40 {
        let mut calc = create_calculator(f);
        for a in 0..n {
            for b in 0..n {
                st.evals += 1;
                match calc.calc_path(f, a, b) {
                    None => s.push_str("none;"),
                    Some(p) => write!(s, "{} {:?};", p.get_weight(), p.get_nodes()).unwrap(),
                }
            }
        }
    }
    Ok(s)
}

/// C16: what was written is what is read back
fn run_serde(c: &Case, st: &mut Stats) -> Result<(), String> {
    let g = input(&c.edges);
    let fg = ctx("preparation", || prep(&g, &c.prep))??;
    let want = ctx("reading the prepared graph", || seen(&fg, st))??;
    let mut same = |what: &str, f: FastGraph| -> Result<(), String> {
        let got = ctx(&format!("reading the graph behind {}", what), || seen(&f, st))??;
        if got != want {
            return Err(format!("{} changed the prepared graph: {} became {}", what, want, got));
        }
        Ok(())
    };
    let e = |what: &str, x: String| format!("{}: {}", what, x);
    let b = ctx("bincode", || bincode::serialize(&fg))?.map_err(|x| e("bincode", x.to_string()))?;
    let f: FastGraph = ctx("bincode", || bincode::deserialize(&b))?.map_err(|x| e("bincode", x.to_string()))?;
    same("bincode", f)?;
    let j = ctx("json", || serde_json::to_string(&fg))?.map_err(|x| e("json", x.to_string()))?;
    let f: FastGraph = ctx("json", || serde_json::from_str(&j))?.map_err(|x| e("json", x.to_string()))?;
    same("json", f)?;
    let w = Wrap64 { before: 7, graph: fg.clone(), after: Some(fg.clone()) };
    let b = ctx("bincode", || bincode::serialize(&w))?.map_err(|x| e("bincode (in a struct)", x.to_string()))?;
    let w: Wrap64 = ctx("bincode", || bincode::deserialize(&b))?.map_err(|x| e("bincode (in a struct)", x.to_string()))?;
    same("bincode (in a struct)", w.graph)?;
    same("bincode (in a struct)", w.after.ok_or("bincode (in a struct): lost")?)?;
    // 32-bit form
    let txt = format!("{:?}", fg);
    let nums = txt.split(|ch: char| !ch.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse::<u64>().ok()).collect::<Vec<_>>();
    let m32 = u32::MAX as u64;
    let exact = nums.iter().all(|&x| x < m32 || x == u64::MAX);
    let over = nums.iter().any(|&x| x > m32 && x != u64::MAX);
    let w = Wrap32 { before: "x".into(), graph: fg.clone(), after: vec![1, 2] };
    let r = ctx("serialize_32", || bincode::serialize(&w));
    if over {
        return match r { Ok(Ok(_)) => Err("serialize_32 wrote a number that does not fit in 32 bits".into()), _ => Ok(()) };
    }
    if !exact {
        return Ok(());
    }
    let b = r?.map_err(|x| e("serialize_32 with bincode", x.to_string()))?;
    let w2: Wrap32 = ctx("deserialize_32", || bincode::deserialize(&b))?.map_err(|x| e("deserialize_32 with bincode", x.to_string()))?;
    if w2.before != "x" || w2.after != vec![1, 2] {
        return Err("serialize_32 with bincode: the fields around the graph changed".into());
    }
    same("serialize_32 with bincode", w2.graph)?;
    let j = ctx("serialize_32", || serde_json::to_string(&w))?.map_err(|x| e("serialize_32 with json", x.to_string()))?;
    let w2: Wrap32 = ctx("deserialize_32", || serde_json::from_str(&j))?.map_err(|x| e("deserialize_32 with json", x.to_string()))?;
    same("serialize_32 with json", w2.graph)?;
    let f32_ = ctx("FastGraph32::new", || FastGraph32::new(&fg))?;
    let b = ctx("bincode", || bincode::serialize(&f32_))?.map_err(|x| e("FastGraph32 with bincode", x.to_string()))?;
    let f: FastGraph32 = ctx("bincode", || bincode::deserialize(&b))?.map_err(|x| e("FastGraph32 with bincode", x.to_string()))?;
    same("FastGraph32 with bincode", ctx("convert_to_usize", || f.convert_to_usize())?)
}

/// C17: a copy of an input graph (frozen or not) read back from what was written behaves as the graph
fn run_serde_input(c: &Case, st: &mut Stats) -> Result<(), String> {
    #[derive(serde::Serialize, serde::Deserialize)]
    struct Wrap { before: Option<u8>, graph: InputGraph, after: Vec<InputGraph>, last: String }
    let mut g = InputGraph::new();
    let mut m = Model { w: BTreeMap::new(), n: 0, frozen: false };
    let ops: Vec<Op> = c.ops.iter().cloned().chain(vec![Op::Read]).collect();
    for (i, op) in ops.iter().enumerate() {
        let at = |e: String| format!("op {} ({:?}): {}", i, op, e);
        match op {
            Op::Add(a, b, w) if !m.frozen => { ctx("add_edge", || g.add_edge(*a, *b, *w)).map_err(at)?; m.add(*a, *b, *w); }
            Op::Bidir(a, b, w) if !m.frozen => { ctx("add_edge_bidir", || g.add_edge_bidir(*a, *b, *w)).map_err(at)?; m.add(*a, *b, *w); m.add(*b, *a, *w); }
            Op::Freeze if !m.frozen => { ctx("freeze", || g.freeze()).map_err(at)?; m.frozen = true; }
            Op::Thaw if m.frozen => { ctx("thaw", || g.thaw()).map_err(at)?; m.frozen = false; }
            Op::Read => {
                let er = |e: String| at(format!("{} state: {}", if m.frozen { "frozen" } else { "not frozen" }, e));
                let mut copies: Vec<(&str, InputGraph)> = vec![];
                let b = ctx("bincode", || bincode::serialize(&g)).map_err(er)?.map_err(|e| er(e.to_string()))?;
                copies.push(("bincode", ctx("bincode", || bincode::deserialize(&b)).map_err(er)?.map_err(|e: bincode::Error| er(e.to_string()))?));
                let j = ctx("json", || serde_json::to_string(&g)).map_err(er)?.map_err(|e| er(e.to_string()))?;
                copies.push(("json", ctx("json", || serde_json::from_str(&j)).map_err(er)?.map_err(|e: serde_json::Error| er(e.to_string()))?));
                let v = ctx("json value", || serde_json::to_value(&g)).map_err(er)?.map_err(|e| er(e.to_string()))?;
                copies.push(("json value", ctx("json value", || serde_json::from_value(v)).map_err(er)?.map_err(|e: serde_json::Error| er(e.to_string()))?));
                let w = Wrap { before: Some(9), graph: g.clone(), after: vec![g.clone(), InputGraph::new()], last: "z".into() };
                let b = ctx("bincode in a struct", || bincode::serialize(&w)).map_err(er)?.map_err(|e| er(e.to_string()))?;
                let w: Wrap = ctx("bincode in a struct", || bincode::deserialize(&b)).map_err(er)?.map_err(|e: bincode::Error| er(e.to_string()))?;
                if w.before != Some(9) || w.last != "z" || w.after.len() != 2 {
                    return Err(er("bincode in a struct: the fields around the graph changed".into()));
                }
                copies.push(("bincode in a struct", w.graph));
                copies.extend(w.after.into_iter().take(1).map(|x| ("bincode in a list", x)));
                let mut keep = None;
                for (what, h) in copies {
                    st.evals += 1;
                    let e = |x: String| er(format!("{}: {}", what, x));
                    // frozen or not: only a frozen graph can be read
                    let frozen = catch_unwind(AssertUnwindSafe(|| h.get_num_nodes())).is_ok();
                    if frozen != m.frozen {
                        return Err(e(format!("the graph was {}frozen, the copy is {}", if m.frozen { "" } else { "not " }, if frozen { "frozen" } else { "not" })));
                    }
                    if frozen {
                        ctx("reading the copy", || read_check(&h, &m)).map_err(e)?.map_err(e)?;
                    }
                    // and it goes on as the graph would
                    let mut h2 = h.clone();
                    let mut m2 = Model { w: m.w.clone(), n: m.n, frozen: false };
                    ctx("going on with the copy", || -> Result<(), String> {
                        if frozen { h2.thaw(); }
                        if i % 2 == 0 {
                            h2.add_edge(0, 3, 2);
                            m2.add(0, 3, 2);
                        }
                        h2.freeze();
                        read_check(&h2, &m2)
                    }).map_err(e)?.map_err(e)?;
                    if keep.is_none() { keep = Some(h); }
                }
                if let Some(h) = keep { g = h; }
            }
            _ => {}
        }
    }
    Ok(())
}

// ---- C15: text files

/// removes its folder when dropped
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        static K: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let k = K.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("vp_c15_{}_{}", std::process::id(), k));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    fn file(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn number(f: &str) -> Option<usize> {
    let d = f.strip_prefix('+').unwrap_or(f);
    if d.is_empty() {
        return None;
    }
    let mut v = 0u128;
    for ch in d.chars() {
        v = v * 10 + ch.to_digit(10)? as u128;
        if v > INF {
            return None;
        }
    }
    Some(v as usize)
}

/// the edges a file stands for; None: the file must be rejected
fn file_meaning(text: &str, dimacs: bool) -> Option<Vec<(usize, usize, usize)>> {
    if text.contains('\u{fffd}') {
        return None;
    }
    let mut ls: Vec<&str> = text.split('\n').collect();
    if ls.last() == Some(&"") {
        ls.pop();
    }
    let mut problem: Option<(usize, usize)> = None;
    let mut out = vec![];
    let mut count = 0;
    for (i, l) in ls.iter().enumerate() {
        let ended = i + 1 < ls.len() || text.ends_with('\n');
        let l = if ended { l.strip_suffix('\r').unwrap_or(l) } else { l };
        if let Some(rest) = l.strip_prefix("a ") {
            let f: Vec<&str> = rest.split(char::is_whitespace).filter(|x| !x.is_empty()).collect();
            if f.len() != 3 {
                return None;
            }
            let (mut a, mut b, w) = (number(f[0])?, number(f[1])?, number(f[2])?);
            if dimacs {
                let (n, m) = problem?;
                if a == 0 || b == 0 || a > n || b > n || count == m {
                    return None;
                }
                count += 1;
                a -= 1;
                b -= 1;
            }
            if a != b && w != 0 {
                if a == M || b == M {
                    return None;
                }
                out.push((a, b, w));
            }
        } else if dimacs && !l.is_empty() && !l.starts_with('c') {
            let f: Vec<&str> = l.strip_prefix("p sp ")?.split(char::is_whitespace).filter(|x| !x.is_empty()).collect();
            if f.len() != 2 || problem.is_some() {
                return None;
            }
            problem = Some((number(f[0])?, number(f[1])?));
        }
    }
    if dimacs && count != problem.map_or(0, |p| p.1) {
        return None;
    }
    Some(out)
}

fn model_of(edges: &[(usize, usize, usize)]) -> Model {
    let mut m = Model { w: BTreeMap::new(), n: 0, frozen: true };
    for e in edges {
        m.add(e.0, e.1, e.2);
    }
    m
}

fn run_files(c: &Case, st: &mut Stats) -> Result<(), String> {
    let sc = Scratch::new();
    if !c.lines.is_empty() {
        st.evals += 1;
        let text: String = c.lines.concat();
        let name = sc.file("in.txt");
        let mut bytes = vec![];
        for ch in text.chars() {
            if ch == '\u{fffd}' { bytes.push(0xffu8) } else { bytes.extend(ch.to_string().as_bytes()) }
        }
        std::fs::write(&name, &bytes).unwrap();
        let what = if c.dimacs { "from_dimacs_file" } else { "from_file" };
        let got = ctx(what, || if c.dimacs { InputGraph::from_dimacs_file(&name) } else { InputGraph::from_file(&name) });
        return match (file_meaning(&text, c.dimacs), got) {
            (None, Err(_)) => Ok(()),
            (None, Ok(_)) => Err(format!("{} accepted a file that is not well-formed: {:?}", what, text)),
            (Some(_), Err(e)) => Err(format!("{} rejected the well-formed file {:?}: {}", what, text, e)),
            (Some(e), Ok(g)) => ctx("reading the graph", || read_check(&g, &model_of(&e)))?.map_err(|x| format!("{} of {:?}: {}", what, text, x)),
        };
    }
    let m = model_of(&c.edges);
    let g = ctx("building the input graph", || input(&c.edges))?;
    for dimacs in [false, true] {
        st.evals += 1;
        let what = if dimacs { "to_dimacs_file/from_dimacs_file" } else { "to_file/from_file" };
        let name = sc.file(if dimacs { "g.gr" } else { "g.txt" });
        let write = |name: &str| if dimacs { g.to_dimacs_file(name) } else { g.to_file(name) };
        if c.edges.len() % 3 == 1 {
            // the file exists and is longer
            std::fs::write(&name, "a 1 2 3\n".repeat(c.edges.len() + 20)).unwrap();
        }
        match ctx(what, || write(&name))? {
            Ok(()) => {}
            Err(e) => return Err(format!("{}: writing failed: {}", what, e)),
        }
        let mut want = String::new();
        if dimacs {
            writeln!(want, "p sp {} {}", m.n, m.w.len()).unwrap();
        }
        for (k, w) in &m.w {
            writeln!(want, "a {} {} {}", k.0 + dimacs as usize, k.1 + dimacs as usize, w).unwrap();
        }
        let text = std::fs::read_to_string(&name).unwrap();
        if text != want {
            return Err(format!("{} wrote {:?} instead of {:?}", what, cut(&text), cut(&want)));
        }
        let h = ctx(what, || if dimacs { InputGraph::from_dimacs_file(&name) } else { InputGraph::from_file(&name) })?;
        ctx("reading the graph", || read_check(&h, &m))?.map_err(|x| format!("{}: {}", what, x))?;
        if format!("{:?}", h) != format!("{:?}", g) {
            return Err(format!("{}: {:?} became {:?}", what, g, h));
        }
        if !m.w.is_empty() && std::path::Path::new("/dev/full").exists() {
            if let Ok(()) = ctx(what, || write("/dev/full"))? {
                return Err(format!("{}: Ok(()) although nothing could be written", what));
            }
        }
        if let Ok(()) = ctx(what, || write(&sc.file("none/x")))? {
            return Err(format!("{}: Ok(()) although the folder does not exist", what));
        }
        let none = sc.file("nothing");
        if ctx(what, || if dimacs { InputGraph::from_dimacs_file(&none) } else { InputGraph::from_file(&none) }).is_ok() {
            return Err(format!("{}: a file that does not exist was read", what));
        }
        let mut u = InputGraph::new();
        for e in &c.edges {
            u.add_edge(e.0, e.1, e.2);
        }
        let un = sc.file("unfrozen");
        if let Ok(Ok(())) = ctx(what, || if dimacs { u.to_dimacs_file(&un) } else { u.to_file(&un) }) {
            return Err(format!("{}: a graph that is not frozen was written", what));
        }
    }
    Ok(())
}

fn gen_number(r: &mut Rng, top: usize) -> String {
    match r.to(40) {
        0 => "".into(),
        1 => "-1".into(),
        2 => "+3".into(),
        3 => "18446744073709551615".into(),
        4 => "18446744073709551616".into(),
        5 => "18446744073709551614".into(),
        6 => "1e3".into(),
        7 => "007".into(),
        8 => "2.5".into(),
        9 => "0".into(),
        10 => "x".into(),
        11 => "4294967296".into(),
        12 => "9223372036854775808".into(),
        13 => "340282366920938463463374607431768211456".into(),
        14 => "+".into(),
        15 => "0x1".into(),
        _ => r.to(top + 1).to_string(),
    }
}

/// a file: mostly well-formed, with one or two oddities
fn gen_file(r: &mut Rng, c: &mut Case) {
    let n = 1 + r.to(6);
    let m = r.to(7);
    let odd = r.chance(2);
    let mut rows: Vec<String> = vec![];
    for _ in 0..m {
        let lo = c.dimacs as usize;
        let mut f: Vec<String> = vec![(lo + r.to(n)).to_string(), (lo + r.to(n)).to_string(), r.to(9).to_string()];
        if odd && r.chance(4) {
            match r.to(6) {
                0 => { f.pop(); }
                1 => f.push(gen_number(r, n)),
                2 => { let k = r.to(3); f[k] = gen_number(r, n + 1); }
                3 => f[2] = r.pick(&[4294967295usize, 4294967296, 1 << 63, M, M - 1, 1 << 40]).to_string(),
                4 => { let k = r.to(2); f[k] = (n + r.to(3)).to_string(); }
                _ => { let k = r.to(2); f[k] = "0".into(); }
            }
        }
        let sep = if r.chance(6) { r.pick(&["  ", "\t", " \t ", "\u{a0}", "\u{3000}", "\u{b}"]) } else { " " };
        let mut l = format!("a {}", f.join(sep));
        if r.chance(20) { l.push_str(r.pick(&[" ", "\t", " # x", "\r"])); }
        if r.chance(20) { l.insert_str(2, " "); }
        if odd && r.chance(12) { l = r.pick(&["a", "a\t1 2 3", " a 1 2 3", "A 1 2 3", "ab 1 2 3", "aa", "a  ", "a 1 2", "a 1 2 3 4", "e 1 2 3"]).to_string(); }
        rows.push(l);
    }
    if c.dimacs {
        let (pn, pm) = (if odd && r.chance(8) { n - 1 } else if r.chance(4) { n + 5 } else { n }, if odd && r.chance(6) { (m + 1).saturating_sub(r.pick(&[0usize, 2])) } else { m });
        let mut p = format!("p sp {} {}", pn, pm);
        if odd && r.chance(10) { p = r.pick(&["p sp 3", "p sp 3 1 1", "p 3 1", "p  sp 3 1", "psp 3 1", "p sp x 1", "p sp -3 1", "p sp", "p sp 18446744073709551615 1", "p sp 18446744073709551616 1"]).to_string(); }
        let at = if odd && r.chance(8) { r.to(rows.len() + 1) } else { 0 };
        if !(odd && r.chance(12)) { rows.insert(at, p.clone()); }
        if odd && r.chance(10) { let k = r.to(rows.len() + 1); rows.insert(k, p); }
    }
    for _ in 0..r.to(3) {
        let k = r.to(rows.len() + 1);
        let x = r.pick(&["", "c", "c a 1 2 3", "c p sp 1 1", "comment", "c\u{e9}"]);
        rows.insert(k, x.into());
    }
    if odd && r.chance(8) {
        let k = r.to(rows.len() + 1);
        let x = r.pick(&[" ", "p", "x", "# no", "\u{fffd}", "c \u{fffd}", "\t", "-", "g.add_edge(1, 2, 3);"]);
        rows.insert(k, x.into());
    }
    let k = rows.len();
    for (i, l) in rows.into_iter().enumerate() {
        let e = if i + 1 == k && r.chance(3) { "" } else if r.chance(12) { "\r\n" } else { "\n" };
        c.lines.push(l + e);
    }
    if c.lines.is_empty() {
        c.lines.push("c\n".into());
    }
}

fn gen_files_case(r: &mut Rng) -> Case {
    let mut c = Case::new("C15");
    if r.chance(3) {
        c.edges = gen_edges(r, false, 20);
        if r.chance(2) {
            for e in c.edges.iter_mut() {
                if r.chance(4) { e.2 = r.pick(&[u32::MAX as usize, u32::MAX as usize + 1, 1 << 33, 1 << 63, M, M - 1, i64::MAX as usize, (1 << 53) + 1, 1 << 16, 0]); }
            }
        }
        if r.chance(6) {
            for e in c.edges.iter_mut() {
                if r.chance(4) { e.0 = r.pick(&[u32::MAX as usize, u32::MAX as usize + 1, 1 << 33, 1 << 63, M - 1, M - 2, 1 << 16]); }
                if r.chance(8) { e.1 = r.pick(&[u32::MAX as usize, u32::MAX as usize + 1, 1 << 33, 1 << 63, M - 1, M - 2, 1 << 16]); }
            }
        }
        if r.chance(15) { c.edges.clear(); }
        if r.chance(10) { while c.edges.len() < 2000 { let n = 60; c.edges.push((r.to(n), r.to(n), r.to(50))); } }
    } else {
        c.dimacs = r.chance(2);
        gen_file(r, &mut c);
    }
    c
}

fn leaves(v: &serde_json::Value, in_array: bool, f: &mut dyn FnMut(&serde_json::Value)) {
    match v {
        serde_json::Value::Array(a) => a.iter().for_each(|x| leaves(x, true, f)),
        serde_json::Value::Object(o) => o.values().for_each(|x| leaves(x, in_array, f)),
        serde_json::Value::Number(_) if in_array => f(v),
        _ => {}
    }
}
fn leaves_mut(v: &mut serde_json::Value, in_array: bool, f: &mut dyn FnMut(&mut serde_json::Value)) {
    match v {
        serde_json::Value::Array(a) => a.iter_mut().for_each(|x| leaves_mut(x, true, f)),
        serde_json::Value::Object(o) => o.values_mut().for_each(|x| leaves_mut(x, in_array, f)),
        serde_json::Value::Number(_) if in_array => f(v),
        _ => {}
    }
}

const FROM_END: usize = 1 << 40;

fn run_32(c: &Case, st: &mut Stats) -> Result<(), String> {
    let g = input(&c.edges);
    let fg = ctx("preparation", || prep(&g, &c.prep))??;
    let mut v = serde_json::to_value(&fg).map_err(|e| e.to_string())?;
    // a leaf number of at least FROM_END counts from the end of one of the lists of the graph
    let mut ends = vec![];
    if let serde_json::Value::Object(o) = &v {
        let mut i = 0usize;
        for x in o.values() {
            leaves(x, false, &mut |_| i += 1);
            if x.is_array() { ends.push(i); }
        }
    }
    let at: std::collections::HashMap<usize, usize> = c.leaves.iter().map(|&(k, y)| {
        (if k < FROM_END || ends.is_empty() { k } else { ends[(k >> 32) % 16 % ends.len()].wrapping_sub(1 + k % (1 << 32)) }, y)
    }).collect();
    let mut i = 0;
    leaves_mut(&mut v, false, &mut |x| {
        if let Some(y) = at.get(&i) {
            *x = serde_json::json!(*y);
        }
        i += 1;
    });
    let fg: FastGraph = match serde_json::from_value(v.clone()) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    let m32 = u32::MAX as u64;
    let (mut fits, mut border) = (true, false);
    leaves(&v, false, &mut |x| {
        let x = x.as_u64().unwrap();
        if x == m32 {
            border = true;
        }
        if x > m32 && x != u64::MAX {
            fits = false;
        }
    });
    st.evals += 1;
    let r = catch_unwind(AssertUnwindSafe(|| FastGraph32::new(&fg)));
    match r {
        Err(_) if fits && !border => return Err("conversion of a graph whose numbers all fit panicked".into()),
        Err(_) => return Ok(()),
        Ok(_) if !fits => return Err("a number that does not fit in 32 bits was converted silently".into()),
        Ok(f32_) => {
            let back = ctx("converting back", || f32_.convert_to_usize())?;
            if !border && serde_json::to_value(&back).map_err(|e| e.to_string())? != v {
                return Err("the round trip through the 32-bit format changed the graph".into());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ generators

const M: usize = usize::MAX;

fn gen_edges(r: &mut Rng, big: bool, cap: usize) -> Vec<(usize, usize, usize)> {
    let n = match r.to(12) {
        0 => 1 + r.to(2),
        1..=4 => 2 + r.to(5),
        5..=8 => 4 + r.to(12),
        9 | 10 => 10 + r.to(30),
        _ if cap >= 80 && r.chance(20) => return gen_large(r),
        _ => 20 + r.to(60),
    }
    .min(cap);
    let mw = r.pick(&[1usize, 2, 3, 5, 10, 100, 1000]);
    // some graphs mix weights of very different magnitudes
    let mag = r.pick(&[0usize, 0, 0, 0, 0, 8, 16, 31, 32, 33]);
    let wt = |r: &mut Rng| -> usize {
        if mag > 0 && r.chance(3) {
            return (1usize << mag) - 2 + r.to(5) * if r.chance(2) { 1 } else { 1 << (mag / 2) };
        }
        if big && r.chance(2) {
            let x = r.to(12);
            match r.to(5) {
                0 => M - x,
                1 => M / 2 - 6 + x,
                2 => M / 3 - 6 + x,
                3 => M / 4 + x,
                _ => 1 + x,
            }
        } else if r.chance(40) {
            0
        } else {
            1 + r.to(mw)
        }
    };
    let mut e = vec![];
    match r.to(9) {
        0 => {
            // grid
            let k = ((n as f64).sqrt() as usize).max(1);
            for i in 0..n {
                if i % k + 1 < k && i + 1 < n { let w = wt(r); e.push((i, i + 1, w)); if !r.chance(4) { e.push((i + 1, i, if r.chance(3) { wt(r) } else { w })); } }
                if i + k < n { let w = wt(r); e.push((i, i + k, w)); if !r.chance(4) { e.push((i + k, i, if r.chance(3) { wt(r) } else { w })); } }
            }
        }
        1 => {
            // path with detours, both directions or one
            let p = r.perm(n);
            let both = r.chance(2);
            for i in 1..n {
                let w = wt(r);
                e.push((p[i - 1], p[i], w));
                if both { e.push((p[i], p[i - 1], wt(r))); }
            }
            for _ in 0..r.to(4) { e.push((r.to(n), r.to(n), wt(r))); }
        }
        2 => {
            // star / hub
            let h = r.to(n);
            for i in 0..n { if i != h { if r.chance(2) { e.push((h, i, wt(r))); } if r.chance(2) { e.push((i, h, wt(r))); } if r.chance(3) { e.push((i, r.to(n), wt(r))); } } }
        }
        3 => {
            // dense
            let n = n.min(12);
            for i in 0..n { for j in 0..n { if !r.chance(3) { e.push((i, j, wt(r))); } } }
        }
        4 => {
            // layered dag, many ties
            let k = 1 + r.to(4);
            for i in 0..n { for _ in 0..2 { let j = (i / k + 1) * k + r.to(k); if j < n { e.push((i, j, wt(r))); } } }
        }
        5 => {
            // cycle with chords
            for i in 0..n { e.push((i, (i + 1) % n, wt(r))); }
            for _ in 0..n / 2 { e.push((r.to(n), r.to(n), wt(r))); }
        }
        _ => {
            let m = 1 + r.to(n * 3 + 1);
            for _ in 0..m {
                let (a, b, w) = (r.to(n), r.to(n), wt(r));
                e.push((a, b, w));
                if r.chance(3) { e.push((b, a, wt(r))); }
            }
        }
    }
    if r.chance(2) {
        // relabel, so that node ids carry no structure
        let k = e.iter().map(|x| x.0.max(x.1) + 1).max().unwrap_or(0);
        let p = r.perm(k);
        for x in e.iter_mut() { x.0 = p[x.0]; x.1 = p[x.1]; }
    }
    if r.chance(6) && cap > n + 4 {
        // isolated nodes below the highest one
        let k = e.iter().map(|x| x.0.max(x.1) + 1).max().unwrap_or(0);
        e.push((k + 1 + r.to(3), r.to(k.max(1)), wt(r).max(1)));
    }
    e
}

/// a few hundred nodes, sparse
fn gen_large(r: &mut Rng) -> Vec<(usize, usize, usize)> {
    let n = 100 + r.to(400);
    let mw = r.pick(&[1usize, 5, 100, 5000]);
    let m = n * (2 + r.to(2));
    (0..m).map(|_| {
        let a = r.to(n);
        let b = if r.chance(40) { r.to(n) } else if r.chance(2) { (a + 1 + r.to(5)) % n } else { (a + n - 1 - r.to(5)) % n };
        (a, b, 1 + r.to(mw))
    }).collect()
}

fn nodes_of(e: &[(usize, usize, usize)]) -> usize {
    e.iter().filter(|x| x.0 != x.1 && x.2 > 0).map(|x| x.0.max(x.1) + 1).max().unwrap_or(0)
}

fn gen_prep(r: &mut Rng, n: usize, kind: usize) -> Prep {
    let lim = [0usize, 0, 1, 1, 2, 3, 4, 5, 7, 10, 50, 500, M];
    match kind {
        0 => Prep::Default,
        1 => {
            let f = [0.0f32, 0.1, 0.5, 1.0, 5.0, 100.0, -1.0, 1e-30, 3e38, -3e38, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
            Prep::Params(r.pick(&f), r.pick(&[1.0f32, 1.0, 1.0, 1.0, 0.0, 3.0, -1.0, 3e38, f32::NAN]), r.pick(&lim), r.pick(&lim), r.pick(&lim))
        }
        2 => Prep::Order(r.perm(n)),
        3 => Prep::OrderParams(match r.to(4) { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => r.perm(n) }, r.pick(&lim)),
        _ => Prep::Feedback(r.pick(&[0.0f32, 0.1, 1.0]), r.pick(&lim)),
    }
}

fn gen_list(r: &mut Rng, n: usize, big: bool) -> Vec<(usize, usize)> {
    let k = 1 + match r.to(4) { 0 => 0, 1 => 1, _ if r.chance(30) => r.to(60), _ => r.to(6) };
    let mw = r.pick(&[1usize, 2, 4, 10, 100, 2000]);
    (0..k).map(|_| {
        let w = match r.to(8) {
            0 => 0,
            1 if big || r.chance(3) => M,
            2 if big || r.chance(4) => M - 1 - r.to(10),
            3 if big => M / 2 - 5 + r.to(10),
            _ => r.to(mw),
        };
        (r.to(n), w)
    }).collect()
}

fn gen_case(prop: &str, r: &mut Rng, big_n: bool) -> Case {
    let mut c = Case::new(prop);
    let cap = if big_n { 80 } else { 40 };
    if prop == "C15" {
        return gen_files_case(r);
    }
    match prop {
        "C08" | "C09" | "C17" => {
            let k = if prop == "C09" { 1 + r.to(8) } else if r.chance(20) { 30 + r.to(200) } else { 1 + r.to(25) };
            let nn = if r.chance(4) { 40 } else { 6 };
            let n = 1 + r.to(nn);
            let mw = r.pick(&[1usize, 2, 3, 10]);
            for _ in 0..k {
                let w = if r.chance(12) { M - r.to(3) } else if r.chance(8) { let k = r.pick(&[8usize, 16, 31, 32, 33, 48, 63]); (1usize << k) - 2 + r.to(12) } else { r.to(mw + 1) };
                c.ops.push(match r.to(10) {
                    0 | 1 => Op::Freeze,
                    2 => Op::Thaw,
                    3 => Op::Read,
                    4..=6 => Op::Bidir(r.to(n), r.to(n), w),
                    _ => Op::Add(r.to(n), r.to(n), w),
                });
            }
            if prop == "C17" && r.chance(4) {
                // large node ids: nothing is prepared here
                let top = r.pick(&[1usize << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, M - 1]);
                for op in c.ops.iter_mut() {
                    if let Op::Add(a, _, _) | Op::Bidir(_, a, _) = op {
                        if r.chance(4) { *a = top - r.to(3); }
                    }
                }
            }
            if r.chance(2) { c.ops.push(Op::Freeze); c.ops.push(Op::Read); }
            return c;
        }
        "C10" | "C16" => {
            c.edges = gen_edges(r, false, 12);
            if r.chance(2) {
                for e in c.edges.iter_mut() {
                    if r.chance(3) { e.2 = r.pick(&[u32::MAX as usize - 1, u32::MAX as usize - 2, u32::MAX as usize, u32::MAX as usize + 1, 1 << 33, 1 << 40, (1 << 32) + 7, M - 1, M - 5]); }
                }
            }
            let nleaf = 40;
            if prop == "C16" {
                let (n, k) = (nodes_of(&c.edges), r.to(5));
                c.prep = gen_prep(r, n, k);
                return c;
            }
            for _ in 0..r.to(4) {
                let k = r.to(nleaf);
                c.leaves.push((k, r.pick(&[u32::MAX as usize - 1, u32::MAX as usize + 1, 1 << 32, (1 << 32) + 5, 0, M, M - 1, 1 << 63, (1 << 48) + 3, u32::MAX as usize - 2, u32::MAX as usize])));
            }
            return c;
        }
        _ => {}
    }
    let big = prop == "C11" || (prop == "C03" && r.chance(4)) || (prop == "C12" && r.chance(3));
    c.edges = gen_edges(r, big, cap);
    let n = nodes_of(&c.edges);
    c.prep = match prop {
        "C05" => gen_prep(r, n, 1),
        "C06" => { let k = 2 + r.to(2); gen_prep(r, n, k) }
        "C04" => { let k = r.to(2); gen_prep(r, n, k) }
        _ => { let k = r.to(5); gen_prep(r, n, k) }
    };
    if c.edges.len() > 400 {
        // unlimited or useless witness searches take too long here
        let f = r.pick(&[0.1f32, 0.3]);
        let p = Prep::Params(f, 1.0, r.pick(&[10usize, 50, 500]), r.pick(&[10usize, 50, 100]), r.pick(&[10usize, 100, 500]));
        c.prep = match prop { "C06" => Prep::Feedback(f, 100), _ if r.chance(2) => Prep::Default, _ => p };
    }
    if prop == "C06" && r.chance(8) {
        let k = if n > 0 && r.chance(2) { n - 1 } else { n + 1 };
        let o = match r.to(5) {
            0 => vec![],
            1 => vec![0; k],
            2 if n > 0 => { let mut o = r.perm(n); for _ in 0..1 + r.to(4) { let i = r.to(o.len() + 1); o.insert(i, r.to(n)); } o }
            3 if n > 0 => { let mut o = r.perm(n); let k = r.to(n); o.truncate(k); for i in 0..r.to(n + 2 - k) { o.push(n + i); } o }
            _ => r.perm(k),
        };
        if o.len() != n {
            c.prep = if r.chance(2) { Prep::Order(o) } else { Prep::OrderParams(o, 5) };
        }
        return c;
    }
    if n == 0 {
        if prop == "C13" {
            c.queries.push(Query::Multi(vec![(0, 0)], vec![(0, 0)]));
        }
        return c;
    }
    if prop == "C13" {
        c.edges2 = gen_edges(r, false, 12);
        for _ in 0..6 {
            let mut a = gen_list(r, n, false);
            let mut b = gen_list(r, n, false);
            match r.to(8) {
                0 => a.clear(),
                1 => b.clear(),
                2 => { let k = r.to(a.len()); a[k].0 = n + r.pick(&[0usize, 0, 1, 7, 1 << 40]); }
                3 => { let k = r.to(b.len()); b[k].0 = n + r.pick(&[0usize, 0, 1, 7, 1 << 40]); }
                4 => { a = vec![(n, 0)]; b = vec![(if r.chance(2) { n } else { r.to(n) }, 0)]; }
                5 => { b = vec![(n, 0)]; a = vec![(r.to(n), 0)]; }
                6 => { let k = r.to(b.len() + 1); b.insert(k, (M, M)); }
                _ => { let k = r.to(a.len() + 1); a.insert(k, (M, M)); }
            }
            c.queries.push(Query::Multi(a, b));
        }
        let (a, b) = (gen_list(r, n.min(nodes_of(&c.edges2).max(1)), false), gen_list(r, n.min(nodes_of(&c.edges2).max(1)), false));
        c.queries.push(Query::Other(a, b));
        c.queries.push(Query::Other(vec![(r.to(n), 0)], vec![(0, 0)]));
        return c;
    }
    if prop == "C07" {
        return c;
    }
    if prop == "C04" {
        c.edges2 = c.edges.clone();
        let k = c.edges2.len();
        let only_weights = r.chance(2);
        let scale = r.chance(4);
        if scale { for e in c.edges2.iter_mut() { e.2 = e.2.saturating_mul(2); } }
        for _ in 0..if scale { 0 } else if r.chance(3) { 1 } else { 1 + k / 3 } {
            let i = r.to(k);
            let e = c.edges2[i];
            if only_weights || r.chance(2) { c.edges2[i].2 = 1 + r.to(10); } else if e.0 != n - 1 && e.1 != n - 1 { c.edges2[i] = (r.to(n), r.to(n), 1 + r.to(5)); }
        }
        for _ in 0..30 {
            let q = match r.to(8) {
                0 => Query::Single(r.to(n), n),
                1 => Query::Single(n, r.to(n)),
                2 => { let mut a = gen_list(r, n, false); a.push((n, 0)); Query::Multi(a, gen_list(r, n, false)) }
                3 => Query::Other(gen_list(r, n, false), gen_list(r, n, false)),
                4 => Query::Multi(gen_list(r, n, false), gen_list(r, n, false)),
                5 => { let mut b = gen_list(r, n, false); if r.chance(2) { b.clear() } else { b.push((n + 3, 0)) } Query::Multi(gen_list(r, n, false), b) }
                6 if c.queries.len() > 1 => {
                    // an earlier query again, on this or the other graph
                    let i = r.to(c.queries.len());
                    match (c.queries[i].clone(), r.chance(2)) {
                        (Query::Single(a, b), true) if a < n && b < n => Query::Other(vec![(a, 0)], vec![(b, 0)]),
                        (Query::Multi(a, b), true) => Query::Other(a, b),
                        (Query::Other(a, b), true) => if a.len() == 1 && b.len() == 1 && a[0].1 == 0 && b[0].1 == 0 { Query::Single(a[0].0, b[0].0) } else { Query::Multi(a, b) },
                        (q, _) => q,
                    }
                }
                _ => Query::Single(r.to(n), r.to(n)),
            };
            c.queries.push(q);
        }
        return c;
    }
    let multi = match prop { "C03" => 25, "C02" | "C11" | "C12" => 6, _ => 0 };
    for _ in 0..multi {
        let (mut a, mut b) = (gen_list(r, n, big), gen_list(r, n, big));
        if r.chance(3) { let x = r.pick(&a); b.push((x.0, r.to(5))); }
        if r.chance(4) { let x = r.pick(&a); a.push((x.0, r.to(50))); }
        if r.chance(4) { let x = r.pick(&b); b.insert(0, (x.0, r.to(50))); }
        c.queries.push(Query::Multi(a, b));
    }
    if prop != "C03" {
        for _ in 0..3 { c.queries.push(Query::Single(r.to(n), r.to(n))); }
        if n <= 40 { c.queries.push(Query::AllPairs); } else { for _ in 0..200 { c.queries.push(Query::Single(r.to(n), r.to(n))); } }
    }
    c
}

/// C10: lists of all lengths up to some ten thousand, special numbers near their ends, starts and anywhere
fn gen_long(r: &mut Rng) -> Case {
    let mut c = Case::new("C10");
    let top = r.pick(&[300usize, 3000, 12_000, 40_000]);
    let n = 20 + r.to(top);
    for i in 1..n {
        c.edges.push((i - 1, i, 1 + r.to(9)));
        if r.chance(2) { c.edges.push((i, i - 1, 1 + r.to(9))); }
    }
    c.prep = Prep::Order((0..n).collect());
    let unfit = r.chance(2);
    for i in 0..1 + r.to(6) {
        let k = match r.to(3) {
            0 => FROM_END + (r.to(5) << 32) + r.to(60),
            1 => FROM_END + (r.to(5) << 32) + r.to(3 * n),
            _ => r.to(12 * n),
        };
        c.leaves.push((k, if unfit && i == 0 { r.pick(&[u32::MAX as usize + 1, 1 << 32, (1 << 32) + 5, M - 1, 1 << 63]) } else { r.pick(&[u32::MAX as usize - 1, M, M, 0]) }));
    }
    c
}

/// nodes with k neighbours whose edges are replaced by cheaper shortcuts
fn gen_hubs(prop: &str, r: &mut Rng, k: usize) -> Case {
    let mut c = Case::new(prop);
    let mids = 1 + r.to(3);
    let (hub, x, leaf) = (k + mids, k + mids + 1, 0usize);
    let back = r.chance(2);
    let both = k <= 70 && r.chance(4);
    let mut e: Vec<(usize, usize, usize)> = vec![(x, hub, 1 + r.to(5))];
    if r.chance(2) { e.push((x, k, 1 + r.to(30))); }
    for m in 0..mids { e.push((hub, k + m, 1 + r.to(5))); }
    for i in 0..k {
        if !r.chance(20) { e.push((hub, leaf + i, 10 + r.to(20))); }
        for m in 0..mids { if r.chance(2) { e.push((k + m, i, 1 + r.to(25))); } }
    }
    for &(a, b, w) in &e {
        if back || both { c.edges.push((b, a, w)); }
        if !back || both { c.edges.push((a, b, w)); }
    }
    let mut o: Vec<usize> = (k..k + mids).collect();
    if r.chance(2) { o.extend(0..k); o.extend([hub, x]); } else { o.extend([hub]); o.extend(0..k); o.push(x); }
    let n = o.len();
    c.prep = match (prop, r.to(3)) {
        ("C06", 0) => Prep::Feedback(0.1, 50),
        (_, 0) => Prep::OrderParams(o, r.pick(&[1usize, 5, 100])),
        ("C05", _) => Prep::Params(0.1, 1.0, 5, 5, r.pick(&[5usize, 100])),
        (_, 1) if prop != "C06" => Prep::Default,
        _ => Prep::Order(o),
    };
    for _ in 0..150 {
        let (a, b) = (r.pick(&[hub, x, k, n - 1]), r.to(k));
        c.queries.push(if back { Query::Single(b, a) } else { Query::Single(a, b) });
    }
    if prop != "C01" {
        for _ in 0..5 {
            let (a, b) = (vec![(x, r.to(9)), (hub, r.to(20))], (0..3).map(|_| (r.to(k), r.to(30))).collect::<Vec<_>>());
            c.queries.push(if back { Query::Multi(b, a) } else { Query::Multi(a, b) });
        }
    }
    c
}

/// one long chain with chords: more nodes than 8 or 16 bits count
fn gen_scale(prop: &str, r: &mut Rng, n: usize) -> Case {
    let mut c = Case::new(prop);
    let p = r.perm(n);
    let mut e: Vec<(usize, usize, usize)> = vec![];
    for i in 1..n {
        let w = 1 + r.to(9);
        e.push((p[i - 1], p[i], w));
        e.push((p[i], p[i - 1], if r.chance(5) { w + 1 } else { w }));
        if r.chance(20) && i + 7 < n { e.push((p[i - 1], p[i + r.to(6)], 1 + r.to(20))); }
        if r.chance(50) { e.push((p[i - 1], p[i], 1 + r.to(12))); }
    }
    if prop == "C08" || prop == "C09" || prop == "C17" {
        if prop == "C09" { e.truncate(290); }
        let h = e.len() - e.len() / 8;
        for (i, x) in e.iter().enumerate() {
            if i == h { c.ops.push(Op::Freeze); c.ops.push(Op::Read); c.ops.push(Op::Thaw); }
            c.ops.push(if r.chance(4) { Op::Bidir(x.0, x.1, x.2) } else { Op::Add(x.0, x.1, x.2) });
        }
        c.ops.push(Op::Freeze);
        c.ops.push(Op::Read);
        return c;
    }
    if prop == "C15" {
        c.edges = e;
        return c;
    }
    let k = e.len();
    for i in (1..k).rev() { let j = r.to(i + 1); e.swap(i, j); }
    c.edges = e;
    c.prep = match (prop, r.to(2)) {
        ("C05", _) => Prep::Params(0.1, 1.0, r.pick(&[5usize, 50]), r.pick(&[5usize, 50]), 20),
        ("C06", 0) => { let q = if r.chance(2) { n } else { n % 256 + if n > 65536 { n % 65536 - n % 256 } else { 0 } }; Prep::Order(r.perm(q)) }
        ("C06", _) => Prep::Feedback(0.1, 50),
        ("C07", 0) => Prep::OrderParams(r.perm(n), 30),
        (_, 0) => Prep::Order(r.perm(n)),
        _ => Prep::Default,
    };
    for _ in 0..12 {
        let a = r.to(n);
        c.queries.push(Query::Single(a, r.to(n)));
        c.queries.push(Query::Single(p[n - 1 - r.to(20)], p[r.to(20)]));
        let k = r.to(n - 30);
        c.queries.push(Query::Single(p[k], p[k + r.to(30)]));
    }
    if prop == "C10" {
        for _ in 0..r.to(40) {
            let k = r.to(40 * n);
            c.leaves.push((if r.chance(2) { k } else { r.to(4 * n) }, r.pick(&[u32::MAX as usize - 1, M, M, M, 0])));
        }
    }
    let mut many = |m: usize, r: &mut Rng| -> Vec<(usize, usize)> { (0..m).map(|_| (r.to(n), r.to(3 * n))).collect() };
    if prop == "C13" {
        c.queries.clear();
        for bad in [n, n + 1, 1 << 16, 1 << 32, M] {
            let bad = bad.max(n);
            c.queries.push(Query::Multi(vec![(bad, 0)], vec![(3, 0)]));
            c.queries.push(Query::Multi(vec![(3, 0)], vec![(bad, 0)]));
            let mut a = many(280, r);
            a.push((bad, 1));
            c.queries.push(Query::Multi(a.clone(), many(3, r)));
            c.queries.push(Query::Multi(many(3, r), a));
        }
        c.edges2 = (1..(n % 65536).max(3)).map(|i| (i - 1, i, 1)).collect();
        c.queries.push(Query::Other(vec![(0, 0)], vec![(1, 0)]));
        return c;
    }
    if prop != "C01" && prop != "C10" && prop != "C07" && prop != "C16" {
        for (x, y) in [(280usize, 2usize), (2, 280), (12, 12)] {
            let (a, b) = (many(x.min(600), r), many(y, r));
            c.queries.push(Query::Multi(a.clone(), b.clone()));
        }
    }
    c
}

/// a chain contracted along itself: upward paths or nested shortcuts as long as the chain
fn gen_chain(prop: &str, r: &mut Rng, n: usize) -> Case {
    let mut c = Case::new(prop);
    let both = r.to(3);
    for i in 1..n {
        let w = 1 + r.to(4);
        if both != 1 { c.edges.push((i - 1, i, w)); }
        if both != 2 { c.edges.push((i, i - 1, w)); }
        if r.chance(300) && i > 3 { c.edges.push((i - 3, i, 1 + r.to(12))); }
    }
    let kind = r.to(4);
    let mut o: Vec<usize> = (0..n).collect();
    if kind & 1 == 1 { o.reverse(); }
    if kind & 2 == 2 {
        // the ends last: one shortcut per node, each around the one before
        o.retain(|&x| x != 0 && x != n - 1);
        o.push(0);
        o.push(n - 1);
    }
    c.prep = if r.chance(2) { Prep::Order(o) } else { Prep::OrderParams(o, r.pick(&[5usize, 20, 100])) };
    if prop == "C05" || (prop != "C06" && r.chance(3)) {
        // always contracts next to the node contracted last: as many levels as nodes
        c.prep = Prep::Params(r.pick(&[-0.5f32, -3.0, -100.0]), 1.0, 5, r.pick(&[5usize, 20]), r.pick(&[5usize, 50]));
    }
    c.queries.push(Query::Single(0, n - 1));
    c.queries.push(Query::Single(n - 1, 0));
    for _ in 0..3 {
        c.queries.push(Query::Single(r.to(n), r.to(n)));
        if prop != "C01" {
            c.queries.push(Query::Multi(vec![(r.to(n), r.to(n)), (r.to(n), 0)], vec![(r.to(n), r.to(n)), (r.to(n), 3)]));
        }
    }
    c
}

/// a small graph, source and target lists longer than 8 or 16 bits count, few entries that matter
fn gen_lists(prop: &str, r: &mut Rng, m: usize) -> Case {
    let mut c = Case::new(prop);
    c.edges = gen_edges(r, false, 12);
    let n = nodes_of(&c.edges);
    if n == 0 { return c; }
    c.prep = gen_prep(r, n, 0);
    for i in 0..6 {
        let bad = prop == "C13" || prop == "C04" && r.chance(2);
        let mut l: Vec<(usize, usize)> = (0..m).map(|_| (r.to(n), 100_000 + r.to(1000))).collect();
        if i < 4 { l[m - 1 - i / 2] = (r.to(n), r.to(20)); } else { for _ in 0..1 + r.to(4) { let k = r.to(m); l[k] = (r.to(n), r.to(20)); } }
        if bad {
            let k = if i < 2 { m - 1 } else { r.to(m) };
            l[k].0 = r.pick(&[n, n + 1, 1 << 16, 1 << 32, M]).max(n);
        }
        let o: Vec<(usize, usize)> = (0..1 + r.to(4)).map(|_| (r.to(n), r.to(20))).collect();
        c.queries.push(if i % 2 == 0 { Query::Multi(l, o) } else { Query::Multi(o, l) });
        if prop == "C04" { c.queries.push(Query::Single(r.to(n), r.to(n))); }
    }
    c
}

// ------------------------------------------------------------------------------------------ driver

fn shrink(c: &Case, st: &mut Stats, until: Instant) -> (Case, String) {
    let fails = |c: &Case, st: &mut Stats| -> Option<String> { run_case(c, st).err() };
    let mut best = c.clone();
    let mut msg = match fails(&best, st) { Some(m) => m, None => return (best, "failed once, not deterministic".into()) };
    let n = nodes_of(&c.edges);
    let n2 = nodes_of(&c.edges2);
    loop {
        let mut progress = false;
        macro_rules! drop_each { ($f:ident) => {{
            let mut i = 0;
            while i < best.$f.len() && Instant::now() < until {
                let mut d = best.clone();
                d.$f.remove(i);
                if c.prop == "C15" || nodes_of(&d.edges) == n && nodes_of(&d.edges2) == n2 {
                    if let Some(m) = fails(&d, st) { best = d; msg = m; progress = true; continue; }
                }
                i += 1;
            }
        }} }
        drop_each!(queries);
        drop_each!(ops);
        drop_each!(leaves);
        drop_each!(lines);
        drop_each!(edges);
        if !progress || Instant::now() >= until { break; }
    }
    (best, msg)
}

fn cut(m: &str) -> String {
    if m.chars().count() > 900 { m.chars().take(900).chain(" ...".chars()).collect() } else { m.to_string() }
}

fn write_case(path: &str, c: &Case, msg: &str) {
    let m = cut(&msg.replace('\n', " "));
    std::fs::write(path, format!("# {}\n{}", m, c.text())).unwrap();
}

fn wrap(out: &str) -> i32 {
    // node 1 gets a forward label by the first query; 2 -> 1 has no path and 1 is its target
    let mut c = Case::new("C04");
    c.edges = vec![(0, 1, 1), (3, 2, 1)];
    let g = input(&c.edges);
    let fg = prepare(&g);
    let fresh = create_calculator(&fg).calc_path(&fg, 2, 1).map(|p| p.get_weight());
    let mut calc = create_calculator(&fg);
    let mut done: u64 = 0;
    let label = |calc: &mut PathCalculator| { calc.calc_path(&fg, 0, 1); calc.calc_path(&fg, 3, 2); 2u64 };
    done += label(&mut calc);
    // a counter of 8 or 16 bits, on graphs of every small size: after the wrap no node may keep what it had
    let mut r = Rng::new(7);
    for round in 0..48usize {
        let n = 2 + round % 24 + if round % 6 == 5 { 63 + r.to(10) } else { 0 };
        let mut c = Case::new("C04");
        for i in 1..n { c.edges.push((r.to(i), i, 1 + r.to(5))); c.edges.push((i, r.to(i), 1 + r.to(5))); }
        for _ in 0..r.to(n) { let k = c.edges.len(); c.edges.swap_remove(r.to(k)); }
        c.edges.push((n - 1, 0, 20));
        let fg = prepare(&input(&c.edges));
        for p in [8u32, 16] {
            let mut calc = create_calculator(&fg);
            let mut k = 0u64;
            for s in 0..n.min(20) {
                calc.calc_path(&fg, n - 1 - s, r.to(n));
                calc.calc_path(&fg, r.to(n), n - 1 - s);
                k += 2;
            }
            while k < (1u64 << p) - 4 {
                calc.calc_path_multiple_sources_and_targets(&fg, vec![(0, M)], vec![(0, M)]);
                k += 1;
            }
            for _ in 0..60 {
                k += 1;
                let (a, b) = (r.to(n), r.to(n));
                let got = calc.calc_path(&fg, a, b).map(|p| p.get_weight());
                let fresh = create_calculator(&fg).calc_path(&fg, a, b).map(|p| p.get_weight());
                if got != fresh {
                    write_case(out, &c, &format!("query {} -> {} as query number {} of one calculator gave {:?}, a fresh calculator gives {:?}; replay with: replay wrap {}", a, b, k, got, fresh, out));
                    println!("{}", serde_json::json!({"found": true, "evals": done + k, "msg": format!("query number {} of one calculator: {:?} instead of {:?}", k, got, fresh)}));
                    return 1;
                }
            }
            done += k;
        }
    }
    let done0 = done;
    done = 2;
    for p in [24u32, 31, 32] {
        let stop = (1u64 << p) - 40;
        while done < stop {
            // ignored entries only: the cheapest query there is
            calc.calc_path_multiple_sources_and_targets(&fg, vec![(0, M)], vec![(3, M)]);
            done += 1;
        }
        for _ in 0..200 {
            done += 1;
            let got = calc.calc_path(&fg, 2, 1).map(|p| p.get_weight());
            if got != fresh {
                write_case(out, &c, &format!("query 2 -> 1 as query number {} of one calculator (after 0 -> 1, 3 -> 2 and queries with ignored entries) gave {:?}, a fresh calculator gives {:?}; replay with: replay wrap {}", done, got, fresh, out));
                println!("{{\"found\": true, \"evals\": {}, \"msg\": \"query number {} of one calculator: {:?} instead of {:?}\"}}", done, done, got, fresh);
                return 1;
            }
        }
    }
    println!("{{\"found\": false, \"evals\": {}, \"cases\": 49}}", done + done0);
    0
}

/// C12: shortcuts nested as deeply as the path is long, on a thread with the default stack
fn deep(out: &str) -> i32 {
    let n = 400_000usize;
    for m in 0..4usize {
        let (dir, rev) = (m & 1 == 0, m & 2 == 0);
        let text = format!("chain of {} nodes ({}), prepared with the order {} and then 0, {}; query from end to end on a thread with 2 MiB of stack; replay with: replay deep {}",
            n, if dir { "edges i -> i+1" } else { "edges i+1 -> i" }, if rev { "n-2, ..., 1" } else { "1, ..., n-2" }, n - 1, out);
        std::fs::write(out, format!("# the process is ended by a stack overflow (or the answer is wrong): {}\n", text)).unwrap();
        let ok = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            let e: Vec<(usize, usize, usize)> = (1..n).map(|i| if dir { (i - 1, i, 1) } else { (i, i - 1, 1) }).collect();
            let mut o: Vec<usize> = (1..n - 1).collect();
            if rev { o.reverse(); }
            o.push(0);
            o.push(n - 1);
            let f = prepare_with_order(&input(&e), &o).ok()?;
            let p = if dir { calc_path(&f, 0, n - 1) } else { calc_path(&f, n - 1, 0) }?;
            Some(p.get_weight() == n - 1 && p.get_nodes().len() == n)
        }).unwrap().join();
        match ok {
            Ok(_) => {}
            Err(_) => {
                println!("{}", serde_json::json!({"found": true, "evals": m, "msg": format!("panicked: {}", text)}));
                return 1;
            }
        }
    }
    let _ = std::fs::remove_file(out);
    println!("{{\"found\": false, \"evals\": 4, \"cases\": 4}}");
    0
}

/// a node with more than 2^31 pairs of incoming and outgoing edges: counting them must not overflow. The preparation of
/// such a graph takes very long; only its first 40 s are observed (to be run with overflow checks).
fn hub(out: &str) -> i32 {
    let k = 46_342usize;
    let text = format!("node 0 with {} incoming edges (i+1 -> 0, weight 1) and {} outgoing edges (0 -> i+1+{}, weight 1): prepare panics; replay with (overflow checks on): replay hub {}", k, k + 1, k, out);
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut e: Vec<(usize, usize, usize)> = (0..k).map(|i| (i + 1, 0, 1)).collect();
        e.extend((0..k + 1).map(|i| (0, i + 1 + k, 1)));
        prepare(&input(&e)).get_num_nodes()
    }).unwrap();
    let t = Instant::now();
    while !h.is_finished() && t.elapsed() < Duration::from_secs(40) {
        std::thread::sleep(Duration::from_millis(50));
    }
    if h.is_finished() && h.join().is_err() {
        std::fs::write(out, format!("# {}\n", text)).unwrap();
        println!("{}", serde_json::json!({"found": true, "evals": 1, "msg": text}));
        return 1;
    }
    println!("{{\"found\": false, \"evals\": 1, \"cases\": 1}}");
    0
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let code = match a[1].as_str() {
        "run" => {
            let c = Case::parse(&std::fs::read_to_string(&a[2]).unwrap());
            let mut st = Stats { evals: 0 };
            let mut code = 0;
            for _ in 0..20 {
                if let Err(m) = run_case(&c, &mut st) {
                    println!("FAILS: {}", cut(&m));
                    code = 1;
                    break;
                }
            }
            if code == 0 { println!("holds"); }
            code
        }
        "deep" => deep(&a[a.len() - 1]),
        "assumed" => match assumed::all(a[2].parse().unwrap(), a[3].parse().unwrap()) {
            Ok(n) => { println!("{}", serde_json::json!({"ok": true, "evals": n})); 0 }
            Err(m) => { println!("{}", serde_json::json!({"ok": false, "msg": m})); 1 }
        },
        "hub" => hub(&a[a.len() - 1]),
        "wrap" => wrap(&a[a.len() - 1]),
        _ => search(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
    };
    std::process::exit(code);
}

fn search(prop: &str, seed: u64, secs: f64, out: &str) -> i32 {
    let start = Instant::now();
    let end = start + Duration::from_secs_f64(secs);
    let threads = 8usize;
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let evals = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let cases = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let running: Arc<Vec<Mutex<Option<(Instant, Case)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let sample: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for t in 0..threads {
        let (found, evals, cases, running, sample, prop) = (found.clone(), evals.clone(), cases.clone(), running.clone(), sample.clone(), prop.to_string());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let mut r = Rng::new(seed.wrapping_mul(1000).wrapping_add(t as u64));
            let mut st = Stats { evals: 0 };
            let mut k = 0usize;
            while Instant::now() < end && found.lock().unwrap().is_none() {
                let big = secs >= 30.0 && k < 3 && t < 2;
                let size = if t == 1 { 270 + k * 20 } else if prop == "C09" { 300 } else { 67001 + k * 901 };
                let chain = secs >= 30.0 && k < 6 && (t == 2 || t == 3) && matches!(prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C11" | "C12");
                let long = secs >= 30.0 && k < 6 && t == 4 && matches!(prop.as_str(), "C02" | "C03" | "C04" | "C11" | "C12" | "C13");
                let hubs = secs >= 30.0 && k < 8 && t == 5 && matches!(prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C11" | "C12");
                let c = if prop == "C10" && t >= 6 && secs >= 30.0 { gen_long(&mut r) } else if hubs { let m = [70usize, 300, 700, 1100, 300, 2100, 40, 1100][k]; gen_hubs(&prop, &mut r, m) } else if long { let m = [257usize, 66_000, 1025, 140_000, 66_000, 5000][k]; gen_lists(&prop, &mut r, m) } else if chain { gen_chain(&prop, &mut r, [300 + t, 5000 + 7 * t, 30_000 + t, 70_001 + t, 131_100 + t, 300_007 + t][k]) } else if big { gen_scale(&prop, &mut r, size) } else { gen_case(&prop, &mut r, k % 3 == 2) };
                k += 1;
                *running[t].lock().unwrap() = Some((Instant::now(), c.clone()));
                let before = st.evals;
                let res = run_case(&c, &mut st);
                *running[t].lock().unwrap() = None;
                evals.fetch_add(st.evals - before, std::sync::atomic::Ordering::Relaxed);
                cases.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if t == 2 && k <= 2 { sample.lock().unwrap().push(c.text()); }
                if let Err(m) = res {
                    let mut f = found.lock().unwrap();
                    if f.is_none() { *f = Some((c, m)); }
                }
            }
        }).unwrap());
    }
    // a case that does not end is a violation of its own (and of C12)
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break; }
        for x in running.iter() {
            if let Some((t0, c)) = &*x.lock().unwrap() {
                if t0.elapsed() > Duration::from_secs(if c.edges.len() + c.ops.len() > 5000 { 200 } else { 25 }) {
                    let msg = "no answer within 25 s";
                    write_case(out, c, msg);
                    println!("{{\"found\": true, \"hang\": true, \"evals\": {}, \"cases\": {}, \"msg\": \"{}\"}}", evals.load(std::sync::atomic::Ordering::Relaxed), cases.load(std::sync::atomic::Ordering::Relaxed), msg);
                    return 1;
                }
            }
        }
    }
    let f = found.lock().unwrap().clone();
    if let Some((c, m)) = f {
        let mut st = Stats { evals: 0 };
        let (d, m2) = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let (d, m2) = shrink(&c, &mut st, Instant::now() + Duration::from_secs(5));
            (d, if m2.starts_with("failed once") { m } else { m2 })
        }).unwrap().join().unwrap();
        write_case(out, &d, &m2);
        println!("{}", serde_json::json!({"found": true, "evals": evals.load(std::sync::atomic::Ordering::Relaxed), "cases": cases.load(std::sync::atomic::Ordering::Relaxed), "msg": cut(&m2)}));
        return 1;
    }
    println!("{}", serde_json::json!({"found": false, "evals": evals.load(std::sync::atomic::Ordering::Relaxed), "cases": cases.load(std::sync::atomic::Ordering::Relaxed), "samples": *sample.lock().unwrap()}));
    0
}
