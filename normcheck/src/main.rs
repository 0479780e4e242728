//! Runs the extracted text (crate `normcheck`, ghost text left out) beside the real crate on random inputs and compares
//! every observable result and every stored number: a check of the extraction, bounded.
use normcheck as n;
use n::vp::Ghost;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn to(&mut self, k: usize) -> usize { (self.next() % k.max(1) as u64) as usize }
    fn perm(&mut self, k: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..k).collect();
        for i in (1..k).rev() { let j = self.to(i + 1); p.swap(i, j); }
        p
    }
    fn weight(&mut self) -> usize {
        match self.to(40) {
            0 => usize::MAX - self.to(4),
            1 => u32::MAX as usize - 2 + self.to(5),
            2 => 1 << self.to(64),
            _ => self.to(12),
        }
    }
}

/// the value, or that it panicked
fn run<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

struct Cmp { points: usize }
impl Cmp {
    fn same<T: PartialEq + Debug>(&mut self, what: &str, a: T, b: T) -> Result<(), String> {
        self.points += 1;
        if a == b { Ok(()) } else { Err(format!("{}: the code gives {:?}, the extracted text {:?}", what, a, b).chars().take(600).collect()) }
    }
}
type P = Option<(usize, usize, usize, bool, Vec<usize>)>;
fn p0(p: Option<fast_paths::ShortestPath>) -> P { p.map(|p| (p.get_source(), p.get_target(), p.get_weight(), p.is_found(), p.get_nodes().clone())) }
fn p1(p: Option<n::ShortestPath>) -> P { p.map(|p| (p.get_source(), p.get_target(), p.get_weight(), p.is_found(), p.get_nodes().clone())) }
fn ser<T: serde::Serialize>(x: &T) -> Vec<u64> {
    let b = bincode::serialize(x).unwrap();
    b.chunks(8).map(|c| c.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64)).collect()
}
fn ser32<T: serde::Serialize>(x: &T) -> Vec<u8> { bincode::serialize(x).unwrap() }

#[allow(unused_variables)]
fn case(seed: u64, c: &mut Cmp, dir: &std::path::Path) -> Result<(), String> {
    let mut r = Rng(seed);
    let g1 = Ghost(true);
    // an input graph
    let mut a = fast_paths::InputGraph::new();
    let mut b = n::InputGraph::new();
    let size = match r.to(10) { 0 => 1, 1 => 60 + r.to(60), _ => 2 + r.to(18) };
    let deg = 1 + r.to(5);
    for _ in 0..r.to(size * deg + 2) {
        let (u, v, w) = (r.to(size), r.to(size), r.weight());
        if r.to(4) == 0 {
            c.same("add_edge_bidir", run(|| a.add_edge_bidir(u, v, w)), run(|| b.add_edge_bidir(u, v, w, g1)))?;
        } else {
            c.same("add_edge", run(|| a.add_edge(u, v, w)), run(|| b.add_edge(u, v, w, g1)))?;
        }
        if r.to(60) == 0 {
            c.same("reading", run(|| (a.get_num_nodes(), a.get_num_edges())), run(|| (b.get_num_nodes(g1), b.get_num_edges(g1))))?;
            c.same("prepare", run(|| { fast_paths::prepare(&a); }), run(|| { n::prepare(&b, g1); }))?;
            c.same("freeze", run(|| a.freeze()), run(|| b.freeze(g1)))?;
            c.same("add_edge", run(|| a.add_edge(u, v, w)), run(|| b.add_edge(u, v, w, g1)))?;
            if r.to(2) == 0 { c.same("freeze", run(|| a.freeze()), run(|| b.freeze(g1)))?; }
            a.thaw();
            b.thaw();
        }
    }
    c.same("freeze", run(|| a.freeze()), run(|| b.freeze(g1)))?;
    c.same("the frozen graph", ser32(&a), ser32(&b))?;
    c.same("the frozen graph", (a.get_num_nodes(), a.get_num_edges()), (b.get_num_nodes(g1), b.get_num_edges(g1)))?;
    let nn = a.get_num_nodes();
    #[cfg(feature = "io")]
    files(&mut r, &a, &b, c, dir)?;
    // preparation
    let (fa, fb) = match r.to(4) {
        0 => (run(|| fast_paths::prepare(&a)), run(|| n::prepare(&b, g1))),
        1 => {
            let f = |r: &mut Rng| match r.to(8) { 0 => 0.0, 1 => f32::NAN, 2 => -1.0, 3 => 1e30, _ => r.to(100) as f32 / 10.0 };
            let l = |r: &mut Rng| match r.to(4) { 0 => 0, 1 => usize::MAX, _ => r.to(50) };
            let (x, y, i, j, k) = (f(&mut r), f(&mut r), l(&mut r), l(&mut r), l(&mut r));
            let _ = y;
            let pa = fast_paths::Params::new(x, i, j, k);
            let pb = n::Params::new(x, i, j, k);
            (run(|| fast_paths::prepare_with_params(&a, &pa)), run(|| n::prepare_with_params(&b, &pb, g1)))
        }
        q => {
            let k = if r.to(12) == 0 { nn + r.to(3) } else { nn };
            let o = r.perm(k);
            if q == 2 {
                let (x, y) = (run(|| fast_paths::prepare_with_order(&a, &o)), run(|| n::prepare_with_order(&b, &o, g1)));
                c.same("prepare_with_order", x.as_ref().map(|x| x.is_ok()), y.as_ref().map(|x| x.is_ok()))?;
                (x.and_then(|x| x.ok()), y.and_then(|x| x.ok()))
            } else {
                let l = match r.to(4) { 0 => 0, 1 => usize::MAX, _ => r.to(50) };
                let (x, y) = (run(|| fast_paths::prepare_with_order_with_params(&a, &o, &fast_paths::ParamsWithOrder::new(l))),
                              run(|| n::prepare_with_order_with_params(&b, &o, &n::ParamsWithOrder::new(l), g1)));
                c.same("prepare_with_order_with_params", x.as_ref().map(|x| x.is_ok()), y.as_ref().map(|x| x.is_ok()))?;
                (x.and_then(|x| x.ok()), y.and_then(|x| x.ok()))
            }
        }
    };
    c.same("preparation", fa.is_some(), fb.is_some())?;
    let (fa, fb) = match (fa, fb) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
    c.same("the prepared graph", ser(&fa), ser(&fb))?;
    c.same("the node ordering", fast_paths::get_node_ordering(&fa), n::get_node_ordering(&fb))?;
    c.same("the counts", (fa.get_num_nodes(), fa.get_num_out_edges(), fa.get_num_in_edges()), (fb.get_num_nodes(g1), fb.get_num_out_edges(), fb.get_num_in_edges()))?;
    // 32 bit form
    let (x, y) = (run(|| fast_paths::FastGraph32::new(&fa)), run(|| n::FastGraph32::new(&fb, g1)));
    c.same("FastGraph32", x.as_ref().map(ser32), y.as_ref().map(ser32))?;
    if let (Some(x), Some(y)) = (x, y) {
        c.same("convert_to_usize", ser(&x.convert_to_usize()), ser(&y.convert_to_usize()))?;
    }
    // queries
    let mut ca = fast_paths::create_calculator(&fa);
    let mut cb = n::create_calculator(&fb);
    for _ in 0..10 {
        let s = if r.to(30) == 0 { nn + r.to(3) } else { r.to(nn) };
        let t = if r.to(30) == 0 { nn + r.to(3) } else { r.to(nn) };
        c.same("calc_path", run(|| p0(ca.calc_path(&fa, s, t))), run(|| p1(cb.calc_path(&fb, s, t, g1))))?;
        if r.to(3) == 0 {
            c.same("calc_path", run(|| p0(fast_paths::calc_path(&fa, s, t))), run(|| p1(n::calc_path(&fb, s, t, g1))))?;
        }
        let mut list = |r: &mut Rng| -> Vec<(usize, usize)> {
            (0..r.to(5)).map(|_| (if r.to(60) == 0 { nn } else { r.to(nn) }, if r.to(4) == 0 { r.weight() } else { r.to(9) })).collect()
        };
        let (ss, ts) = (list(&mut r), list(&mut r));
        c.same("calc_path_multiple_sources_and_targets", run(|| p0(ca.calc_path_multiple_sources_and_targets(&fa, ss.clone(), ts.clone()))),
               run(|| p1(cb.calc_path_multiple_sources_and_targets(&fb, ss.clone(), ts.clone(), g1))))?;
        if r.to(3) == 0 {
            c.same("calc_path_multiple_sources_and_targets", run(|| p0(fast_paths::calc_path_multiple_sources_and_targets(&fa, ss.clone(), ts.clone()))),
                   run(|| p1(n::calc_path_multiple_sources_and_targets(&fb, ss, ts, g1))))?;
        }
    }
    Ok(())
}

/// text files: what is written, and reading well-formed and malformed texts
#[cfg(feature = "io")]
fn files(r: &mut Rng, a: &fast_paths::InputGraph, b: &n::InputGraph, c: &mut Cmp, dir: &std::path::Path) -> Result<(), String> {
    let g1 = Ghost(true);
    let name = |x: &str| dir.join(x).to_str().unwrap().to_string();
    let read = |f: &str| std::fs::read(f).ok();
    let _ = std::fs::remove_file(name("a"));
    let _ = std::fs::remove_file(name("b"));
    let dim = r.to(2) == 0;
    let (x, y) = if dim { (run(|| a.to_dimacs_file(&name("a"))), run(|| b.to_dimacs_file(&name("b"), g1))) } else { (run(|| a.to_file(&name("a"))), run(|| b.to_file(&name("b"), g1))) };
    c.same("writing", x.map(|x| x.is_ok()), y.map(|x| x.is_ok()))?;
    c.same("the file", read(&name("a")), read(&name("b")))?;
    let mut t = read(&name("a")).unwrap_or_default();
    if r.to(3) > 0 {
        for _ in 0..1 + r.to(3) {
            let pieces: [&[u8]; 18] = [b"\n", b" ", b"a ", b"p sp ", b"c x\n", b"\r\n", b"0", b"18446744073709551615", b"18446744073709551616", b"-1", b"+1", b"\xff", b"a 1 2 3\n", b"a 3 1 0\n", b"\t", b"p sp 3 1\n", b"x", b"a 2 2 2"];
            let i = r.to(t.len() + 1);
            let j = (i + r.to(4)).min(t.len());
            let p = pieces[r.to(pieces.len())].to_vec();
            let at = if r.to(2) == 0 { t[..i].iter().rposition(|x| *x == b'\n').map_or(0, |x| x + 1) } else { i };
            if r.to(3) == 0 { t.drain(i..j); } else { let tail = t.split_off(at); t.extend(p); t.extend(tail); }
        }
    }
    std::fs::write(name("c"), &t).unwrap();
    for f in [name("c"), name("none")].iter() {
        c.same("from_file", run(|| ser32(&fast_paths::InputGraph::from_file(f))), run(|| ser32(&n::InputGraph::from_file(f, g1))))?;
        c.same("from_dimacs_file", run(|| ser32(&fast_paths::InputGraph::from_dimacs_file(f))), run(|| ser32(&n::InputGraph::from_dimacs_file(f, g1))))?;
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, secs): (u64, f64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let dir = a.get(3).cloned().unwrap_or_default();
    let t = Instant::now();
    let mut c = Cmp { points: 0 };
    let mut k = 0u64;
    while t.elapsed().as_secs_f64() < secs {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(k);
        k += 1;
        match run(|| case(s, &mut c, std::path::Path::new(&dir))).unwrap_or_else(|| Err("the comparison panicked".into())) {
            Ok(()) => {}
            Err(e) => {
                println!("{{\"ok\": false, \"cases\": {}, \"compared\": {}, \"msg\": \"{}\"}}", k, c.points, format!("case {}: {}", s, e).replace('\\', "").replace('"', "'").replace('\n', " "));
                return;
            }
        }
    }
    println!("{{\"ok\": true, \"cases\": {}, \"compared\": {}}}", k, c.points);
}
