// Text files (C15 only): decimal numbers, lines, fields, and stand-ins for std::fs / std::io with assumed contracts.
use vstd::prelude::*;
verus! {

pub open spec fn dig(k: int) -> char {
    if k == 0 { '0' } else if k == 1 { '1' } else if k == 2 { '2' } else if k == 3 { '3' } else if k == 4 { '4' }
    else if k == 5 { '5' } else if k == 6 { '6' } else if k == 7 { '7' } else if k == 8 { '8' } else { '9' }
}
pub open spec fn dval(c: char) -> int {
    if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 }
    else if c == '5' { 5 } else if c == '6' { 6 } else if c == '7' { 7 } else if c == '8' { 8 } else if c == '9' { 9 } else { -1 }
}
pub open spec fn is_dig(c: char) -> bool { dval(c) >= 0 }
// how `{}` prints an unsigned integer
#[verifier::opaque]
pub open spec fn dec(n: int) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![dig(n)] } else { dec(n / 10).push(dig(n % 10)) }
}
pub open spec fn num(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + dval(s.last()) }
}
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> is_dig(#[trigger] s[k]) }
// str::parse::<usize>: an optional plus sign and digits, in range
pub open spec fn parse_usize(s: Seq<char>) -> Option<usize> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && all_digits(d) && num(d) <= usize::MAX { Some(num(d) as usize) } else { None }
}
pub proof fn lemma_dec(n: int)
    requires 0 <= n,
    ensures all_digits(dec(n)), num(dec(n)) == n, dec(n).len() >= 1,
    decreases n,
{
    reveal(dec);
    if n < 10 {
        assert(dec(n).drop_last().len() == 0);
        assert(num(dec(n).drop_last()) == 0);
    } else {
        lemma_dec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
    }
}
pub proof fn lemma_parse_dec(n: usize)
    ensures parse_usize(dec(n as int)) == Some(n),
{
    lemma_dec(n as int);
    assert(is_dig(dec(n as int)[0]));
}

// char::is_whitespace
pub open spec fn ws(c: char) -> bool {
    c == ' ' || ('\u{9}' <= c && c <= '\u{d}') || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || ('\u{2000}' <= c && c <= '\u{200a}')
        || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
pub open spec fn solid(s: Seq<char>) -> bool { s.len() >= 1 && forall|k: int| 0 <= k < s.len() ==> !ws(#[trigger] s[k]) }
// length of the leading field
pub open spec fn tok(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 || ws(s[0]) { 0 } else { 1 + tok(s.skip(1)) }
}
// str::split_whitespace
pub open spec fn fields(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if ws(s[0]) { fields(s.skip(1)) }
    else if tok(s) == 0 || tok(s) > s.len() { Seq::empty() } // cannot happen
    else { seq![s.take(tok(s) as int)] + fields(s.skip(tok(s) as int)) }
}
pub proof fn lemma_tok(t: Seq<char>, r: Seq<char>)
    requires forall|k: int| 0 <= k < t.len() ==> !ws(#[trigger] t[k]), r.len() == 0 || ws(r[0]),
    ensures tok(t + r) == t.len(),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(t + r =~= r);
    } else {
        assert(!ws(t[0]));
        assert((t + r)[0] == t[0]);
        assert((t + r).skip(1) =~= t.skip(1) + r);
        lemma_tok(t.skip(1), r);
    }
}
pub proof fn lemma_field(t: Seq<char>, r: Seq<char>)
    requires solid(t), r.len() == 0 || ws(r[0]),
    ensures fields(t + r) == seq![t] + fields(r),
{
    lemma_tok(t, r);
    assert((t + r)[0] == t[0]);
    assert((t + r).take(t.len() as int) =~= t);
    assert((t + r).skip(t.len() as int) =~= r);
}
pub proof fn lemma_blank(r: Seq<char>)
    ensures fields(seq![' '] + r) == fields(r),
{
    assert((seq![' '] + r)[0] == ' ');
    assert((seq![' '] + r).skip(1) =~= r);
}
pub proof fn lemma_fields2(a: Seq<char>, b: Seq<char>)
    requires solid(a), solid(b),
    ensures fields(a + seq![' '] + b) == seq![a, b],
{
    let e = Seq::<char>::empty();
    lemma_field(b, e);
    assert(b + e =~= b);
    lemma_blank(b);
    let r = seq![' '] + b;
    assert(r[0] == ' ');
    lemma_field(a, r);
    assert(a + seq![' '] + b =~= a + r);
    assert(fields(e) =~= Seq::empty());
    assert(seq![a] + (seq![b] + fields(e)) =~= seq![a, b]);
}
pub proof fn lemma_fields3(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires solid(a), solid(b), solid(c),
    ensures fields(a + seq![' '] + b + seq![' '] + c) == seq![a, b, c],
{
    lemma_fields2(b, c);
    let q = b + seq![' '] + c;
    lemma_blank(q);
    let r = seq![' '] + q;
    assert(r[0] == ' ');
    lemma_field(a, r);
    assert(a + seq![' '] + b + seq![' '] + c =~= a + r);
    assert(seq![a] + seq![b, c] =~= seq![a, b, c]);
}
pub proof fn lemma_dec_solid(n: int)
    requires 0 <= n,
    ensures solid(dec(n)),
{
    lemma_dec(n);
    assert forall|k: int| 0 <= k < dec(n).len() implies !ws(#[trigger] dec(n)[k]) by { assert(is_dig(dec(n)[k])); }
}

// BufRead::lines: cut at '\n', a '\r' before it is dropped as well
pub open spec fn nl(c: Seq<char>) -> nat
    decreases c.len(),
{
    if c.len() == 0 || c[0] == '\n' { 0 } else { 1 + nl(c.skip(1)) }
}
pub open spec fn chomp(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn lines_of(c: Seq<char>) -> Seq<Seq<char>>
    decreases c.len(),
{
    let k = nl(c) as int;
    if c.len() == 0 { Seq::empty() }
    else if k >= c.len() { seq![c] }
    else { seq![chomp(c.take(k))] + lines_of(c.skip(k + 1)) }
}
// a line without a line break in it
pub open spec fn flat(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) != '\n' && s[k] != '\r' }
pub proof fn lemma_nl(a: Seq<char>, r: Seq<char>)
    requires forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]) != '\n',
    ensures nl(a + seq!['\n'] + r) == a.len(),
    decreases a.len(),
{
    let t = a + seq!['\n'] + r;
    if a.len() == 0 {
        assert(t[0] == '\n');
    } else {
        assert(t[0] == a[0]);
        assert(t.skip(1) =~= a.skip(1) + seq!['\n'] + r);
        lemma_nl(a.skip(1), r);
    }
}
pub proof fn lemma_line(a: Seq<char>, r: Seq<char>)
    requires flat(a),
    ensures lines_of(a + seq!['\n'] + r) == seq![a] + lines_of(r),
{
    let t = a + seq!['\n'] + r;
    lemma_nl(a, r);
    assert(t.take(a.len() as int) =~= a);
    assert(t.skip(a.len() as int + 1) =~= r);
    assert(chomp(a) == a);
}
// the text that consists of these lines
#[verifier::opaque]
pub open spec fn text_of(rows: Seq<Seq<char>>) -> Seq<char>
    decreases rows.len(),
{
    if rows.len() == 0 { Seq::empty() } else { text_of(rows.drop_last()) + (rows.last() + seq!['\n']) }
}
pub proof fn lemma_text_none(rows: Seq<Seq<char>>)
    requires rows.len() == 0,
    ensures text_of(rows) == Seq::<char>::empty(),
{
    reveal(text_of);
}
pub proof fn lemma_text_front(rows: Seq<Seq<char>>)
    requires rows.len() > 0,
    ensures text_of(rows) == rows[0] + seq!['\n'] + text_of(rows.skip(1)),
    decreases rows.len(),
{
    reveal(text_of);
    if rows.len() == 1 {
        assert(rows.skip(1).len() == 0);
        assert(rows.drop_last().len() == 0);
        assert(text_of(rows.skip(1)) =~= Seq::empty());
        assert(text_of(rows.drop_last()) =~= Seq::empty());
        assert(text_of(rows) =~= rows[0] + seq!['\n'] + text_of(rows.skip(1)));
    } else {
        let p = rows.drop_last();
        lemma_text_front(p);
        let q = rows.skip(1);
        assert(q.drop_last() =~= p.skip(1));
        assert(text_of(rows) =~= rows[0] + seq!['\n'] + text_of(rows.skip(1)));
    }
}
pub proof fn lemma_lines_text(rows: Seq<Seq<char>>)
    requires forall|k: int| 0 <= k < rows.len() ==> flat(#[trigger] rows[k]),
    ensures lines_of(text_of(rows)) == rows,
    decreases rows.len(),
{
    reveal(text_of);
    if rows.len() == 0 {
        assert(lines_of(text_of(rows)) =~= rows);
    } else {
        lemma_text_front(rows);
        let q = rows.skip(1);
        assert forall|k: int| 0 <= k < q.len() implies flat(#[trigger] q[k]) by { assert(flat(rows[k + 1])); }
        lemma_lines_text(q);
        assert(flat(rows[0]));
        lemma_line(rows[0], text_of(q));
        assert(seq![rows[0]] + q =~= rows);
    }
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && forall|k: int| 0 <= k < p.len() ==> s[k] == #[trigger] p[k]
}

// ------------------------------------------------------------------ the file system
// reading the file of that name may yield this text / opening and reading it meets no error / this text has been written to it
pub uninterp spec fn vp_reads(name: Seq<char>, c: Seq<char>) -> bool;
pub uninterp spec fn vp_opens(name: Seq<char>) -> bool;
pub uninterp spec fn vp_written(name: Seq<char>, c: Seq<char>) -> bool;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn open(name: &str) -> (r: Result<File, std::io::Error>)
        ensures r is Ok ==> r->Ok_0.name() == name@, vp_opens(name@) ==> r is Ok,
    { unimplemented!() }
    // an empty file
    #[verifier::external_body]
    pub fn create(name: &str) -> (r: Result<File, std::io::Error>)
        ensures r is Ok ==> r->Ok_0.name() == name@,
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct BufWriter<W> { x: W }
impl BufWriter<File> {
    pub uninterp spec fn name(&self) -> Seq<char>;
    // everything written so far
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: Self)
        ensures r.name() == f.name(), r.text() == Seq::<char>::empty(),
    { unimplemented!() }
    // write!(f, ..): data may stay in the buffer
    #[verifier::external_body]
    pub fn vp_write(&mut self, t: VpText) -> (r: Result<(), std::io::Error>)
        ensures final(self).name() == old(self).name(), r is Ok ==> final(self).text() == old(self).text() + t.text(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), std::io::Error>)
        ensures final(self).name() == old(self).name(), final(self).text() == old(self).text(),
            r is Ok ==> vp_written(final(self).name(), final(self).text()),
    { unimplemented!() }
}
// a formatted text: the pieces of a format string and its arguments
#[verifier::external_body]
pub struct VpText { x: u8 }
pub trait VpShow {
    spec fn shown(&self) -> Seq<char>;
}
impl VpShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl VpShow for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl VpShow for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl VpShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VpShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VpShow + ?Sized> VpShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl VpText {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vp_new() -> (r: Self)
        ensures r.text() == Seq::<char>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(self, Ghost(s): Ghost<Seq<char>>) -> (r: Self)
        ensures r.text() == self.text() + s,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: VpShow + ?Sized>(self, x: &T) -> (r: Self)
        ensures r.text() == self.text() + x.shown(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_string(self) -> (r: String)
        ensures r@ == self.text(),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { x: R }
// what the iterator over the lines yields until its end or an error (which the code answers with a panic)
#[verifier::opaque]
pub open spec fn lines_read(c: Seq<char>, v: Seq<Result<String, std::io::Error>>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() && oks(v, k + 1) ==> k < lines_of(c).len() && (#[trigger] v[k])->Ok_0@ == lines_of(c)[k]
    &&& oks(v, v.len() as int) ==> v.len() == lines_of(c).len()
}
#[verifier::opaque]
pub open spec fn oks(v: Seq<Result<String, std::io::Error>>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> (#[trigger] v[k]) is Ok
}
pub proof fn lemma_oks_start(v: Seq<Result<String, std::io::Error>>)
    ensures oks(v, 0),
{ reveal(oks); }
// the next line is there
pub proof fn lemma_oks_next(c: Seq<char>, v: Seq<Result<String, std::io::Error>>, k: int)
    requires lines_read(c, v), oks(v, k), 0 <= k < v.len(), v[k] is Ok,
    ensures oks(v, k + 1), k < lines_of(c).len(), v[k]->Ok_0@ == lines_of(c)[k],
{
    reveal(lines_read);
    reveal(oks);
}
pub proof fn lemma_oks_has(v: Seq<Result<String, std::io::Error>>, n: int, k: int)
    requires oks(v, n), 0 <= k < n,
    ensures v[k] is Ok,
{ reveal(oks); }
pub proof fn lemma_oks_end(c: Seq<char>, v: Seq<Result<String, std::io::Error>>)
    requires lines_read(c, v), oks(v, v.len() as int),
    ensures v.len() == lines_of(c).len(),
{ reveal(lines_read); }
impl BufReader<File> {
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn content(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: Self)
        ensures r.name() == f.name(), vp_reads(r.name(), r.content()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lines(self) -> (r: Vec<Result<String, std::io::Error>>)
        ensures lines_read(self.content(), r@), vp_opens(self.name()) ==> oks(r@, r.len() as int),
            oks(r@, 0), r.len() == 0 ==> lines_of(self.content()).len() == 0, // (consequences)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_own<T>(x: &T) -> (r: T)
    ensures r == *x,
{ unimplemented!() }

// ------------------------------------------------------------------ strings
#[verifier::external_body]
pub struct VpSplit<'a> { x: &'a str }
impl<'a> VpSplit<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        },
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VpParseError { x: u8 }
pub trait VpStr {
    spec fn chars(&self) -> Seq<char>;
    fn vp_starts_with(&self, p: Ghost<Seq<char>>) -> (r: bool)
        ensures r == starts(self.chars(), p@);
    fn vp_is_empty(&self) -> (r: bool)
        ensures r == (self.chars().len() == 0);
    // &s[k..]: k counts bytes
    fn vp_from(&self, k: usize) -> (r: &str)
        ensures k <= self.chars().len() && (forall|j: int| 0 <= j < k ==> (#[trigger] self.chars()[j]) as int <= 127) ==> r@ == self.chars().skip(k as int);
    fn vp_split_whitespace(&self) -> (r: VpSplit<'_>)
        ensures r.rest() == fields(self.chars());
    fn vp_parse_usize(&self) -> (r: Result<usize, VpParseError>)
        ensures match parse_usize(self.chars()) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err };
}
impl VpStr for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_starts_with(&self, p: Ghost<Seq<char>>) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_from(&self, k: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vp_split_whitespace(&self) -> (r: VpSplit<'_>) { unimplemented!() }
    #[verifier::external_body] fn vp_parse_usize(&self) -> (r: Result<usize, VpParseError>) { unimplemented!() }
}
impl VpStr for String {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_starts_with(&self, p: Ghost<Seq<char>>) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_from(&self, k: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vp_split_whitespace(&self) -> (r: VpSplit<'_>) { unimplemented!() }
    #[verifier::external_body] fn vp_parse_usize(&self) -> (r: Result<usize, VpParseError>) { unimplemented!() }
}
// unwrap: must not fail when ok; execution continues only with a value
pub trait VpUnwrap<T>: Sized {
    spec fn has(&self) -> bool;
    spec fn val(&self) -> T;
    fn vp_unwrap(self, ok: Ghost<bool>) -> (r: T)
        requires ok@ ==> self.has(),
        ensures self.has(), r == self.val();
}
impl<T> VpUnwrap<T> for Option<T> {
    open spec fn has(&self) -> bool { *self is Some }
    open spec fn val(&self) -> T { self->0 }
    #[verifier::external_body] fn vp_unwrap(self, ok: Ghost<bool>) -> (r: T) { unimplemented!() }
}
impl<T, E> VpUnwrap<T> for Result<T, E> {
    open spec fn has(&self) -> bool { *self is Ok }
    open spec fn val(&self) -> T { self->Ok_0 }
    #[verifier::external_body] fn vp_unwrap(self, ok: Ghost<bool>) -> (r: T) { unimplemented!() }
}
}
