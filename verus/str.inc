// ---------------------------------------------------------------- assumed: UTF-8 text. A text is its characters; byte k of it starts a character
// exactly if it is the sum of the lengths of some number of characters.
uninterp spec fn len8(c: char) -> nat;
#[verifier::external_body]
broadcast proof fn len8_bounds(c: char) ensures 1 <= #[trigger] len8(c) <= 4 {}
/// the byte at which character k starts
spec fn boff(s: Seq<char>, k: int) -> nat decreases k {
    if k <= 0 || k > s.len() { 0 } else { boff(s, k - 1) + len8(s[k - 1]) }
}
spec fn blen(s: Seq<char>) -> nat { boff(s, s.len() as int) }
spec fn at_char(s: Seq<char>, b: int, k: int) -> bool { 0 <= k <= s.len() && boff(s, k) == b }
/// b is a character boundary
spec fn boundary(s: Seq<char>, b: int) -> bool { exists|k: int| at_char(s, b, k) }
/// the number of characters before byte b
spec fn char_at(s: Seq<char>, b: int) -> int { choose|k: int| at_char(s, b, k) }
/// a range of bytes which denotes text
spec fn denotes(s: Seq<char>, a: int, b: int) -> bool { a <= b && boundary(s, a) && boundary(s, b) }
/// the text it denotes
spec fn sub(s: Seq<char>, a: int, b: int) -> Seq<char> { s.subrange(char_at(s, a), char_at(s, b)) }

proof fn boff_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len(),
    ensures boff(s, i) < boff(s, j),
    decreases j - i,
{
    broadcast use len8_bounds;
    if i < j - 1 { boff_mono(s, i, j - 1); }
}
broadcast proof fn boff_mono_b(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len(),
    ensures #[trigger] boff(s, i) < #[trigger] boff(s, j),
{ boff_mono(s, i, j); }
proof fn boff_inj(s: Seq<char>)
    ensures
        forall|i: int, j: int| 0 <= i <= s.len() && 0 <= j <= s.len() && #[trigger] boff(s, i) == #[trigger] boff(s, j) ==> i == j,
        forall|i: int, j: int| 0 <= i < j <= s.len() ==> #[trigger] boff(s, i) < #[trigger] boff(s, j),
{
    assert forall|i: int, j: int| 0 <= i < j <= s.len() implies #[trigger] boff(s, i) < #[trigger] boff(s, j) by { boff_mono(s, i, j); }
}
proof fn char_at_is(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures boundary(s, boff(s, k) as int), char_at(s, boff(s, k) as int) == k,
{ boff_inj(s); assert(at_char(s, boff(s, k) as int, k)); }

#[verifier::external_body]
fn str_len(s: &str) -> (n: usize) ensures n == blen(s@) { s.len() }
// `s[a..b]` panics unless the range denotes text
#[verifier::external_body]
fn str_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires denotes(s@, a as int, b as int),
    ensures r@ == sub(s@, a as int, b as int),
{ &s[a..b] }
#[verifier::external_body]
fn str_get<'a>(s: &'a str, a: usize, b: usize) -> (r: Option<&'a str>)
    ensures r is Some == denotes(s@, a as int, b as int), r is Some ==> r->0@ == sub(s@, a as int, b as int),
{ s.get(a..b) }
uninterp spec fn ws(c: char) -> bool;      // char::is_whitespace
spec fn trimmed(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s.last()) { trimmed(s.drop_last()) } else { s } }
#[verifier::external_body]
fn str_trim_end<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trimmed(s@) { s.trim_end() }
#[verifier::external_body]
fn str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
