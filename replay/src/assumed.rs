//! Bounded cross-check of the assumed contracts (contracts/vp.rs, contracts/spec_io.rs) against the real libraries.
//! Never counted as proved: it would show a contract that misdescribes std or priority-queue.
use crate::Rng;
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeSet, BinaryHeap};
use std::io::{BufRead, BufReader, BufWriter, Write};

fn chk(c: bool, what: &str) -> Result<(), String> {
    if c { Ok(()) } else { Err(format!("assumed contract does not describe the library: {}", what)) }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
struct H(usize, usize);
impl Ord for H {
    fn cmp(&self, o: &H) -> Ordering { self.0.cmp(&o.0).reverse() }
}
impl PartialOrd for H {
    fn partial_cmp(&self, o: &H) -> Option<Ordering> { Some(self.cmp(o)) }
}

fn heap(r: &mut Rng) -> Result<(), String> {
    let mut h: BinaryHeap<H> = BinaryHeap::new();
    let mut m: Vec<H> = vec![];
    for k in 0..60 {
        chk(h.len() == m.len() && h.is_empty() == m.is_empty(), "BinaryHeap::len/is_empty")?;
        chk(match h.peek() { Some(x) => m.contains(x), None => m.is_empty() }, "BinaryHeap::peek")?;
        match r.to(8) {
            0..=4 => { let x = H(r.to(6), k); h.push(x); m.push(x); }
            5 | 6 => match h.pop() {
                Some(x) => {
                    let p = m.iter().position(|y| *y == x);
                    chk(p.is_some() && m.iter().all(|y| x.cmp(y) != Ordering::Less), "BinaryHeap::pop gives a maximum")?;
                    m.remove(p.unwrap());
                }
                None => chk(m.is_empty(), "BinaryHeap::pop on an empty heap")?,
            },
            _ => if r.to(6) == 0 { h.clear(); m.clear(); },
        }
    }
    let mut rest: Vec<H> = h.into_vec();
    rest.sort_by_key(|x| (x.0, x.1));
    m.sort_by_key(|x| (x.0, x.1));
    chk(rest == m, "BinaryHeap contents as a multiset")
}

fn queue(r: &mut Rng) -> Result<(), String> {
    let mut q = priority_queue::PriorityQueue::new();
    let mut m: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..60 {
        chk(q.is_empty() == m.is_empty(), "PriorityQueue::is_empty")?;
        match r.to(4) {
            0 => { let x = r.to(20); q.push(x, Reverse(r.to(5))); m.insert(x); }
            1 | 2 => { q.change_priority(&r.to(20), Reverse(r.to(5))); }
            _ => match q.pop() {
                Some((x, _)) => chk(m.remove(&x), "PriorityQueue::pop gives a key that is in it")?,
                None => chk(m.is_empty(), "PriorityQueue::pop on an empty queue")?,
            },
        }
    }
    let mut rest: Vec<usize> = q.into_vec();
    rest.sort();
    chk(rest == m.into_iter().collect::<Vec<_>>(), "PriorityQueue keys")
}

fn slices(r: &mut Rng) -> Result<(), String> {
    let n = r.to(40);
    let v: Vec<(usize, usize)> = (0..n).map(|_| (r.to(4), r.to(4))).collect();
    let mut s = v.clone();
    s.sort_unstable_by(|a, b| a.0.cmp(&b.0).then(a.1.cmp(&b.1)));
    chk(s.windows(2).all(|w| w[0].0.cmp(&w[1].0).then(w[0].1.cmp(&w[1].1)) != Ordering::Greater), "sort_unstable_by: sorted")?;
    let (mut a, mut b) = (v.clone(), s.clone());
    a.sort();
    b.sort();
    chk(a == b, "sort_unstable_by: permutation")?;
    // dedup_by: an element goes if the closure holds for it and the last one kept
    let mut d = s.clone();
    d.dedup_by(|x, y| x.0 == y.0);
    let mut e: Vec<(usize, usize)> = vec![];
    for x in &s {
        if e.is_empty() || e[e.len() - 1].0 != x.0 { e.push(*x); }
    }
    chk(d == e, "dedup_by as a loop")?;
    let mut t = v.clone();
    t.retain(|x| x.0 != 2);
    let mut u = vec![];
    for x in &v { if x.0 != 2 { u.push(*x); } }
    chk(t == u, "retain as a filter")?;
    let mut w = v.clone();
    w.reverse();
    chk((0..n).all(|k| w[k] == v[n - 1 - k]), "reverse")?;
    let set: BTreeSet<usize> = v.iter().map(|x| x.0).collect();
    let l: Vec<usize> = set.clone().into_iter().collect();
    chk(l.iter().all(|x| set.contains(x)) && l.len() == set.len() && set.iter().all(|x| l.contains(x)), "BTreeSet by value")?;
    for a in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
        for b in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
            chk(a.then(b) == if a == Ordering::Equal { b } else { a }, "Ordering::then")?;
        }
        chk(a.reverse() as i8 == -(a as i8), "Ordering::reverse")?;
    }
    let (x, y) = (r.next() as usize, r.next() as usize);
    chk(std::cmp::max(x, y) == if y < x { x } else { y }, "cmp::max")?;
    chk(std::cmp::min(x, y) == if y < x { y } else { x }, "cmp::min")?;
    chk(x.saturating_add(y) as u128 == (x as u128 + y as u128).min(usize::MAX as u128), "saturating_add")
}

fn ws(c: char) -> bool {
    c == ' ' || ('\u{9}'..='\u{d}').contains(&c) || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || ('\u{2000}'..='\u{200a}').contains(&c)
        || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
fn fields(s: &[char]) -> Vec<String> {
    let mut out = vec![];
    let mut k = 0;
    while k < s.len() {
        if ws(s[k]) { k += 1; continue; }
        let a = k;
        while k < s.len() && !ws(s[k]) { k += 1; }
        out.push(s[a..k].iter().collect());
    }
    out
}
fn parse(s: &[char]) -> Option<u128> {
    let d = if !s.is_empty() && s[0] == '+' { &s[1..] } else { s };
    if d.is_empty() { return None; }
    let mut n: u128 = 0;
    for c in d {
        if !c.is_ascii_digit() { return None; }
        n = (n * 10 + (*c as u128 - '0' as u128)).min(1 << 100);
    }
    if n <= usize::MAX as u128 { Some(n) } else { None }
}
fn lines_of(c: &[char]) -> Vec<String> {
    let mut out = vec![];
    let mut k = 0;
    while k < c.len() {
        let a = k;
        while k < c.len() && c[k] != '\n' { k += 1; }
        let mut b = k;
        if k < c.len() && b > a && c[b - 1] == '\r' { b -= 1; }
        out.push(c[a..b].iter().collect());
        k += 1;
    }
    out
}
fn dec(n: usize) -> String {
    if n < 10 { ((b'0' + n as u8) as char).to_string() } else { dec(n / 10) + &dec(n % 10) }
}

fn texts(r: &mut Rng, dir: &str) -> Result<(), String> {
    const A: [char; 18] = ['a', 'c', 'p', ' ', ' ', '\n', '\n', '\r', '\t', '1', '0', '9', '+', '-', '\u{a0}', '\u{3000}', 'é', '\u{1}'];
    let n = r.to(30);
    let c: Vec<char> = (0..n).map(|_| A[r.to(18)]).collect();
    let s: String = c.iter().collect();
    chk(s.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>() == fields(&c), "split_whitespace")?;
    chk(s.starts_with("a ") == (c.len() >= 2 && c[0] == 'a' && c[1] == ' '), "starts_with")?;
    chk(s.is_empty() == c.is_empty(), "is_empty")?;
    if c.len() >= 2 && c[0].is_ascii() && c[1].is_ascii() { chk(s[2..] == c[2..].iter().collect::<String>(), "&s[2..]")?; }
    let big = ["18446744073709551615", "18446744073709551616", "0", "00000000000000000000000000000007", "99999999999999999999999", "", "+", "+5", "-1", "１"];
    let f: String = if r.to(2) == 0 { big[r.to(10)].to_string() } else { (0..r.to(22)).map(|_| { let m = if r.to(4) == 0 { 7 } else { 5 }; ['0', '1', '9', '8', '4', '+', 'x'][r.to(m)] }).collect() };
    chk(f.parse::<usize>().ok().map(|x| x as u128) == parse(&f.chars().collect::<Vec<_>>()), "parse::<usize>")?;
    let x = (r.next() as usize) >> r.to(64);
    chk(format!("{}", x) == dec(x), "{} of an integer")?;
    if r.to(50) == 0 {
        let name = format!("{}/t", dir);
        let mut w = BufWriter::new(std::fs::File::create(&name).unwrap());
        write!(w, "{}", s).unwrap();
        writeln!(w, "{}", x).unwrap();
        w.flush().unwrap();
        let t = std::fs::read_to_string(&name).unwrap();
        chk(t == format!("{}{}\n", s, dec(x)), "what BufWriter has flushed")?;
        let l: Vec<String> = BufReader::new(std::fs::File::open(&name).unwrap()).lines().map(|z| z.unwrap()).collect();
        chk(l == lines_of(&t.chars().collect::<Vec<_>>()), "BufReader::lines")?;
        std::fs::write(&name, &s).unwrap();
        let l: Vec<String> = BufReader::new(std::fs::File::open(&name).unwrap()).lines().map(|z| z.unwrap()).collect();
        chk(l == lines_of(&c), "BufReader::lines")?;
    }
    Ok(())
}

pub fn all(seed: u64, rounds: usize) -> Result<usize, String> {
    let mut r = Rng::new(seed);
    let dir = std::env::temp_dir().join(format!("vp_assumed_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d = dir.to_str().unwrap().to_string();
    let res = (|| {
        for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
            chk(ws(c) == c.is_whitespace(), "white space")?;
        }
        for _ in 0..rounds {
            heap(&mut r)?;
            queue(&mut r)?;
            slices(&mut r)?;
            texts(&mut r, &d)?;
        }
        let (a, b) = (f32::MAX, -0.0f32);
        for x in [a, b, f32::NAN, f32::INFINITY, 1.5] {
            for y in [a, b, f32::NAN, f32::NEG_INFINITY, 1.5] {
                std::hint::black_box((x + y, x - y, x * y, x / y, (x / y) as usize));
            }
        }
        Ok(rounds * 4)
    })();
    let _ = std::fs::remove_dir_all(&dir);
    res
}
