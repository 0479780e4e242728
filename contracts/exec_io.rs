// What stands behind the names of spec_io.rs when the extracted text is run (tool/check.py norm_check): the real library.
// Plain Rust, not part of the verified text.
use crate::vp::Ghost;
pub use std::fs::File;
pub use std::io::{BufWriter, Write};
use std::mem::ManuallyDrop;

pub struct Seq<T>(pub Vec<T>);
impl<T> Seq<T> {
    pub fn empty() -> Self { Seq(Vec::new()) }
    pub fn push(mut self, x: T) -> Self { self.0.push(x); self }
}
pub struct VpText(String);
impl VpText {
    pub fn vp_new() -> Self { VpText(String::new()) }
    pub fn lit(mut self, Ghost(s): Ghost<Seq<char>>) -> Self { self.0.extend(s.0); self }
    pub fn arg<T: std::fmt::Display + ?Sized>(mut self, x: &T) -> Self { self.0.push_str(&x.to_string()); self }
    pub fn vp_string(self) -> String { self.0 }
}
pub trait VpWrite { fn vp_write(&mut self, t: VpText) -> Result<(), std::io::Error>; }
impl VpWrite for BufWriter<File> {
    fn vp_write(&mut self, t: VpText) -> Result<(), std::io::Error> { self.write_all(t.0.as_bytes()) }
}
pub struct BufReader<R>(R);
impl BufReader<File> {
    pub fn new(f: File) -> Self { BufReader(f) }
    // the items are moved out one by one (vp_own), so the vector never drops them
    pub fn lines(self) -> ManuallyDrop<Vec<Result<String, std::io::Error>>> {
        use std::io::BufRead;
        let mut v = vec![];
        for l in std::io::BufReader::new(self.0).lines() {
            let end = l.as_ref().err().map_or(false, |e| e.kind() != std::io::ErrorKind::InvalidData);
            v.push(l);
            if end { break; }
        }
        ManuallyDrop::new(v)
    }
}
pub fn vp_own<T>(x: &T) -> T { unsafe { std::ptr::read(x) } }
pub trait VpStr {
    fn s(&self) -> &str;
    fn vp_starts_with(&self, Ghost(p): Ghost<Seq<char>>) -> bool { self.s().starts_with(&p.0.iter().collect::<String>() as &str) }
    fn vp_is_empty(&self) -> bool { self.s().is_empty() }
    fn vp_from(&self, k: usize) -> &str { &self.s()[k..] }
    fn vp_split_whitespace(&self) -> std::str::SplitWhitespace<'_> { self.s().split_whitespace() }
    fn vp_parse_usize(&self) -> Result<usize, std::num::ParseIntError> { self.s().parse::<usize>() }
}
impl VpStr for str { fn s(&self) -> &str { self } }
impl VpStr for String { fn s(&self) -> &str { self } }
pub trait VpUnwrap<T>: Sized { fn vp_unwrap(self, ok: Ghost<bool>) -> T; }
impl<T> VpUnwrap<T> for Option<T> { fn vp_unwrap(self, _: Ghost<bool>) -> T { self.unwrap() } }
impl<T, E: std::fmt::Debug> VpUnwrap<T> for Result<T, E> { fn vp_unwrap(self, _: Ghost<bool>) -> T { self.unwrap() } }
