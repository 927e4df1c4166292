// Unit spans: resolution of spans, src/trim.rs and src/sources.rs (C02, C03)
#![allow(unused)]
#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use vstd::std_specs::convert::FromSpecImpl;
verus! {
@@include mem.inc
@@include str.inc
@@include option.inc

proof fn trimmed_prefix(s: Seq<char>)
    ensures trimmed(s).len() <= s.len(), trimmed(s) == s.subrange(0, trimmed(s).len() as int),
    decreases s.len(),
{
    if s.len() > 0 && ws(s.last()) { trimmed_prefix(s.drop_last()); assert(trimmed(s) =~= s.subrange(0, trimmed(s).len() as int)); }
    else { assert(s =~= s.subrange(0, s.len() as int)); }
}
proof fn boff_sub(s: Seq<char>, i: int, j: int, m: int)
    requires 0 <= i <= m <= j <= s.len(),
    ensures boff(s, m) == boff(s, i) + boff(s.subrange(i, j), m - i),
    decreases m - i,
{ if m > i { boff_sub(s, i, j, m - 1); } }
proof fn boff_prefix(s: Seq<char>, n: int, m: int)
    requires 0 <= m <= n <= s.len(),
    ensures boff(s.subrange(0, n), m) == boff(s, m),
    decreases m,
{ if m > 0 { boff_prefix(s, n, m - 1); } }

// ---------------------------------------------------------------- specification

/// where the text from a to b less trailing whitespace ends; untrimmed if it is all whitespace
spec fn trim_at(s: Seq<char>, a: int, b: int) -> int {
    let t = trimmed(sub(s, a, b));
    if t.len() == 0 { b } else { boff(s, char_at(s, a) + t.len()) as int }
}
/// C02: invalid spans denote nothing at the start of the source
spec fn start_of(s: Seq<char>, p: Span) -> int { if denotes(s, p.start as int, p.end as int) { p.start as int } else { 0 } }
spec fn end_of(s: Seq<char>, p: Span) -> int { if denotes(s, p.start as int, p.end as int) { trim_at(s, p.start as int, p.end as int) } else { 0 } }
/// the byte offset of each character
spec fn indices_of(v: Seq<usize>, s: Seq<char>) -> bool { v.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == boff(s, k) }
/// number of line ends
spec fn nl(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { nl(s.drop_last()) + (if s.last() == '\n' { 1nat } else { 0nat }) } }
spec fn newlines(s: Seq<char>, k: int) -> nat { nl(s.subrange(0, k)) }
broadcast proof fn sub_sub(s: Seq<char>, a: int, n: int, i: int, j: int)
    requires 0 <= a <= n <= s.len(), 0 <= i <= j <= n - a,
    ensures #[trigger] s.subrange(a, n).subrange(i, j) == s.subrange(a + i, a + j),
{ assert(s.subrange(a, n).subrange(i, j) =~= s.subrange(a + i, a + j)); }
broadcast proof fn nl_split(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures #[trigger] nl(s.subrange(0, a)) + #[trigger] nl(s.subrange(a, b)) == nl(s.subrange(0, b)),
    decreases b - a,
{
    if a == b { assert(s.subrange(a, b) =~= Seq::<char>::empty()); }
    else { nl_split(s, a, b - 1); assert(s.subrange(a, b).drop_last() =~= s.subrange(a, b - 1)); assert(s.subrange(0, b).drop_last() =~= s.subrange(0, b - 1)); }
}

// assumed: slice::partition_point, on a slice partitioned by the predicate
pub open spec fn cut(k: int) -> bool { true }
pub assume_specification<T, P: FnMut(&T) -> bool> [<[T]>::partition_point] (s: &[T], pred: P) -> (r: usize)
    requires forall|x: &T| #[trigger] pred.requires((x,)),
    ensures
        r <= s@.len(),
        forall|k: int| #[trigger] cut(k) && 0 <= k <= s@.len()
            && (forall|i: int| #![trigger s@[i]] 0 <= i < k ==> !pred.ensures((&s@[i],), false))
            && (forall|i: int| #![trigger s@[i]] k <= i < s@.len() ==> !pred.ensures((&s@[i],), true))
            ==> r == k,
;
// ---------------------------------------------------------------- extracted

#[derive(Clone, Copy)]
@@item src/types.rs Span;
@@fn src/trim.rs trim_trailing_whitespace
@ret r
@spec
    requires denotes(content@, start as int, end as int),
    ensures r == trim_at(content@, start as int, end as int), denotes(content@, start as int, r as int), start <= r <= end,
@start
    proof {
        let (s, i, j) = (content@, char_at(content@, start as int), char_at(content@, end as int));
        boff_inj(s);
        assert(at_char(s, start as int, i) && at_char(s, end as int, j));
        assert(i <= j);
        let t = trimmed(s.subrange(i, j));
        trimmed_prefix(s.subrange(i, j));
        boff_sub(s, i, j, i + t.len());
        boff_prefix(s.subrange(i, j), t.len() as int, t.len() as int);
        assert(at_char(s, boff(s, i + t.len()) as int, i + t.len()));
        assert(boff(s, i + t.len()) <= boff(s, j));
    }
@subst content[start..end].trim_end() =>> str_trim_end(str_slice(content, start, end))
@subst? trimmed.is_empty() =>> str_is_empty(trimmed)
@subst? trimmed.len() =>> str_len(trimmed)
@@end
@@fn src/sources.rs trimmed_span
@ret r
@spec
    ensures r.source == span.source, r.start == start_of(source@, span), r.end == end_of(source@, span),
        denotes(source@, r.start as int, r.end as int),
@start
    proof { char_at_is(source@, 0); }
@subst source.get(span.start..span.end) =>> str_get(source, span.start, span.end)
@@end
@@fn src/sources.rs byte_to_rune
@ret r
@spec
    requires exists|s: Seq<char>| #[trigger] indices_of(char_indices@, s) && denotes(s, byte_span.start as int, byte_span.end as int),
    ensures r.source == byte_span.source,
        forall|s: Seq<char>| #[trigger] indices_of(char_indices@, s) && denotes(s, byte_span.start as int, byte_span.end as int)
            ==> r.start == char_at(s, byte_span.start as int) && r.end == char_at(s, byte_span.end as int),
@start
    broadcast use boff_mono_b;
    proof {
        assert forall|s: Seq<char>| #[trigger] indices_of(char_indices@, s) && denotes(s, byte_span.start as int, byte_span.end as int)
            implies cut(char_at(s, byte_span.start as int)) && cut(char_at(s, byte_span.end as int))
                && at_char(s, byte_span.start as int, char_at(s, byte_span.start as int)) && at_char(s, byte_span.end as int, char_at(s, byte_span.end as int)) by {}
    }
@closure partition_point#0
    |i: &usize| -> (b: bool) ensures b == (*i < byte_span.start) { $bind0(i) $body }
@closure partition_point#1
    |i: &usize| -> (b: bool) ensures b == (*i < byte_span.end) { $bind0(i) $body }
@@end

// ---------------------------------------------------------------- assumed: paths, maps keyed by text, iteration over characters
trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for str { spec fn text(&self) -> Seq<char> { self@ } }
#[verifier::external_body] struct PathBuf { x: std::path::PathBuf }
#[verifier::external_body] struct Path { x: std::path::Path }
impl Text for Path { uninterp spec fn text(&self) -> Seq<char>; }
impl Path {
    #[verifier::external_body]
    fn new<'a>(s: &'a str) -> (r: &'a Path) ensures r.text() == s@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn get<Q: Text + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures r is Some == self@.contains_key(q.text()), r is Some ==> *r->0 == self@[q.text()],
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<Q: Text + ?Sized>(&mut self, q: &Q) -> (r: Option<&mut V>)
        ensures
            match r {
                None => !old(self)@.contains_key(q.text()) && final(self)@ == old(self)@,
                Some(v) => old(self)@.contains_key(q.text()) && *v == old(self)@[q.text()]
                    && final(self)@ == old(self)@.insert(q.text(), *final(v)),
            },
    { unimplemented!() }
}
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
    { unimplemented!() }
}
#[verifier::external_body] struct Chars<'a> { x: std::str::Chars<'a> }
#[verifier::external_body] struct Take { x: u8 }
#[verifier::external_body] struct Filter { x: u8 }
spec fn kept(f: Filter, s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { kept(f, s.drop_last()) + (if f.keeps(s.last()) { 1nat } else { 0nat }) } }
impl Take { uninterp spec fn view(&self) -> Seq<char>; }
impl Filter {
    uninterp spec fn view(&self) -> Seq<char>;
    uninterp spec fn keeps(&self, c: char) -> bool;
    #[verifier::external_body]
    fn count(self) -> (n: usize) ensures n == kept(self, self@), n <= self@.len() { unimplemented!() }
}
impl Take {
    #[verifier::external_body]
    fn filter<F: Fn(&char) -> bool>(self, f: F) -> (r: Filter)
        requires forall|c: &char| #[trigger] f.requires((c,)),
        ensures r@ == self@, forall|c: char| f.ensures((&c,), #[trigger] r.keeps(c)),
    { unimplemented!() }
}
impl<'a> Chars<'a> {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    // eager, where std's is lazy: the same, as every use is counted at once
    #[verifier::external_body]
    fn take(&mut self, n: usize) -> (r: Take)
        ensures n <= old(self)@.len() ==> r@ == old(self)@.subrange(0, n as int) && final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int),
            n > old(self)@.len() ==> r@ == old(self)@ && final(self)@ == Seq::<char>::empty(),
    { unimplemented!() }
}
// a text is at most isize::MAX bytes long
#[verifier::external_body]
fn str_chars<'a>(s: &'a str) -> (r: Chars<'a>) ensures r@ == s@, s@.len() <= isize::MAX { unimplemented!() }

// assumed: bool::then_some
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::marker::Destruct> [bool::then_some](b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None }),
;
// ---------------------------------------------------------------- resolving

/// what a resolver is given: text, name, bytes and characters of the span
type Adjusted<'a> = (&'a str, &'a str, Span, Span);
spec fn adjusted(s: Seq<char>, p: Span, byte: Span, rune: Span) -> bool {
    &&& byte.source == p.source && byte.start == start_of(s, p) && byte.end == end_of(s, p)
    &&& denotes(s, byte.start as int, byte.end as int)
    &&& rune.source == p.source && rune.start == char_at(s, byte.start as int) && rune.end == char_at(s, byte.end as int)
}
/// C02: the text from start to end less trailing whitespace, and the 1-based lines on which it starts and ends
spec fn resolved(s: Seq<char>, p: Span, r: SpannedSource) -> bool {
    &&& r.content@ == sub(s, start_of(s, p), end_of(s, p))
    &&& r.start_line == 1 + newlines(s, char_at(s, start_of(s, p)))
    &&& r.end_line == 1 + newlines(s, char_at(s, end_of(s, p)))
}
broadcast proof fn kept_nl(f: Filter, s: Seq<char>)
    requires forall|c: char| f.keeps(c) == (c == '\n'),
    ensures #[trigger] kept(f, s) == nl(s), nl(s) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { kept_nl(f, s.drop_last()); } }
broadcast proof fn adjusted_bounds(s: Seq<char>, p: Span, byte: Span, rune: Span)
    requires #[trigger] adjusted(s, p, byte, rune),
    ensures 0 <= rune.start <= rune.end <= s.len(),
{
    boff_inj(s);
    assert(at_char(s, byte.start as int, rune.start as int) && at_char(s, byte.end as int, rune.end as int));
}
broadcast group lines { sub_sub, nl_split, kept_nl, adjusted_bounds }

@@item src/types.rs SpannedSource;
@@fn src/sources.rs resolve_span
@ret r
@spec
    requires
        get_adjusted_source.requires((span,)),
        forall|x: Adjusted<'a>| get_adjusted_source.ensures((span,), x) ==> exists|p: Span| adjusted(x.0@, p, x.2, x.3),
    ensures
        exists|x: Adjusted<'a>| get_adjusted_source.ensures((span,), x)
            && (forall|p: Span| adjusted(x.0@, p, x.2, x.3) ==> resolved(x.0@, p, r))
            && r.file_name == (if source_id_is_file_name { Some(x.1) } else { None }),
@start
    broadcast use lines;
@closure filter#0
    |c: &char| -> (b: bool) ensures b == (*c == '\n') { $bind0(c) $body }
@closure filter#1
    |c: &char| -> (b: bool) ensures b == (*c == '\n') { $bind0(c) $body }
@subst source_content.chars() =>> str_chars(source_content)
@subst source_content.get(byte_span.start..byte_span.end) =>> str_get(source_content, byte_span.start, byte_span.end)
@@end

// ---------------------------------------------------------------- sources
#[derive(Clone, Copy)]
@@item src/types.rs SourceId;
// derived: SourceId is equal by its number, and its default is 0
impl PartialEqSpecImpl for SourceId {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &SourceId) -> bool { self.0 == o.0 }
}
impl PartialEq for SourceId {
    #[verifier::external_body]
    fn eq(&self, o: &SourceId) -> bool { self.0 == o.0 }
}
impl FromSpecImpl<usize> for SourceId {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: usize) -> Self { SourceId(v as u32) }
}
impl FromSpecImpl<SourceId> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: SourceId) -> Self { v.0 as usize }
}
impl From<usize> for SourceId {
@@fn src/types.rs From@SourceId::from
@@end
}
impl From<SourceId> for usize {
@@fn src/types.rs From@usize::from
@@end
}
#[verifier::external_body] struct IncludedGlob { x: u8 }
@@item src/sources.rs BeancountSources;
@@item src/sources.rs IncludedSource;

/// the file or inline text which a source number stands for
spec fn content_of(b: &BeancountSources, id: int) -> Seq<char> {
    if id == 0 { b.root_content@ }
    else { match b.included_content@[b.source_id_strings@[id]@] { IncludedSource::Content(_, c, _) => c@, _ => Seq::empty() } }
}
/// what reading the sources establishes
spec fn wf(b: &BeancountSources) -> bool {
    &&& 1 <= b.source_id_strings@.len() <= u32::MAX
    &&& b.root_source_id.0 == 0
    &&& indices_of(b.root_content_char_indices@, b.root_content@)
    &&& forall|id: int| 1 <= id < b.source_id_strings@.len() ==> included(b, #[trigger] b.source_id_strings@[id]@)
}
spec fn included(b: &BeancountSources, name: Seq<char>) -> bool {
    b.included_content@.contains_key(name)
        && (b.included_content@[name] matches IncludedSource::Content(_, c, v) ==> indices_of(v@, c@))
}
/// C02: a source number which is none collapses to nothing at the start of the first source
spec fn safe(b: &BeancountSources, p: Span) -> Span { if p.source >= b.source_id_strings@.len() { Span { source: 0, start: 0, end: 0 } } else { p } }

impl BeancountSources {
@@fn src/sources.rs BeancountSources::source_id_string
@ret r
@spec
    requires source_id.0 < self.source_id_strings@.len(),
    ensures r@ == self.source_id_strings@[source_id.0 as int]@,
@@end
@@fn src/sources.rs BeancountSources::get_adjusted_source
@ret r
@spec
    requires wf(self),
    ensures
        adjusted(content_of(self, safe(self, span).source as int), safe(self, span), r.2, r.3), r.0@ == content_of(self, safe(self, span).source as int),
        r.1@ == self.source_id_strings@[safe(self, span).source as int]@,
@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(indices_of(Seq::<usize>::empty(), Seq::<char>::empty())); }
@subst? Vec::default() =>> Vec::<usize>::new()
@@end
@@fn src/sources.rs BeancountSources::resolve_span
@ret r
@spec
    requires wf(self),
    ensures
        resolved(content_of(self, safe(self, *span).source as int), safe(self, *span), r),
        span.source < self.source_id_strings@.len() ==> r.file_name == (if span.source == 0 && self.root_path is None { None::<&str> } else { r.file_name }),
        span.source < self.source_id_strings@.len() && (span.source > 0 || self.root_path is Some) ==>
            r.file_name is Some && r.file_name->0@ == self.source_id_strings@[span.source as int]@,
@start
    broadcast use lines;
@closure filter#0
    |c: &char| -> (b: bool) ensures b == (*c == '\n') { $bind0(c) $body }
@closure filter#1
    |c: &char| -> (b: bool) ensures b == (*c == '\n') { $bind0(c) $body }
@subst source_content.chars() =>> str_chars(source_content)
@subst source_content.get(byte_span.start..byte_span.end) =>> str_get(source_content, byte_span.start, byte_span.end)
@@end

@@fn src/sources.rs BeancountSources::error_source_text
@ret r
@spec
    requires wf(self),
    ensures ({ let p = safe(self, error_or_warning.0.span); let s = content_of(self, p.source as int); r@ == sub(s, start_of(s, p), end_of(s, p)) }),
@subst? source_content[byte_span.start..byte_span.end] =>> *str_slice(source_content, byte_span.start, byte_span.end)
@@end
@@fn src/sources.rs BeancountSources::num_sources
@ret r
@spec
    ensures r == self.source_id_strings@.len(),
@@end
}
trait ErrorOrWarningKind {}
use std::marker::PhantomData;
@@item src/types.rs ErrorOrWarning;
@@item src/types.rs ErrorOrWarningImpl;

// ---------------------------------------------------------------- assumed: iterating over characters with their offsets
#[verifier::external_body] struct CharIndices<'a> { x: std::str::CharIndices<'a> }
#[verifier::external_body] struct Mapped { x: u8 }
impl<'a> CharIndices<'a> {
    uninterp spec fn view(&self) -> Seq<char>;
    // calls f on the offset and character of each in order
    #[verifier::external_body]
    fn map<F: Fn((usize, char)) -> usize>(self, f: F) -> (r: Mapped)
        requires forall|k: int| 0 <= k < self@.len() ==> f.requires(((#[trigger] boff(self@, k) as usize, self@[k]),)),
        ensures r@.len() == self@.len(), forall|k: int| #![trigger r@[k]] 0 <= k < self@.len() ==> f.ensures(((boff(self@, k) as usize, self@[k]),), r@[k]),
    { unimplemented!() }
}
impl Mapped {
    uninterp spec fn view(&self) -> Seq<usize>;
    #[verifier::external_body]
    fn collect<T: ExtendBy>(self) -> (r: T) ensures r.seq() == self@ { unimplemented!() }
}
// a text is at most isize::MAX bytes long
#[verifier::external_body]
fn str_char_indices<'a>(s: &'a str) -> (r: CharIndices<'a>) ensures r@ == s@, blen(s@) <= isize::MAX { unimplemented!() }
trait ExtendBy { spec fn seq(&self) -> Seq<usize>; fn extend_by(&mut self, m: Mapped) ensures final(self).seq() == old(self).seq() + m@; }
impl ExtendBy for Vec<usize> {
    spec fn seq(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn extend_by(&mut self, m: Mapped) { unimplemented!() }
}
#[verifier::external_body]
fn string_len(s: &String) -> (n: usize) ensures n == blen(s@), n <= isize::MAX { s.len() }
trait Len_ { spec fn bytes_(&self) -> nat; fn len_(&self) -> (n: usize) ensures n == self.bytes_(), n <= isize::MAX; }
impl Len_ for String { spec fn bytes_(&self) -> nat { blen(self@) as nat } #[verifier::external_body] fn len_(&self) -> (n: usize) { self.len() } }
impl Len_ for str { spec fn bytes_(&self) -> nat { blen(self@) as nat } #[verifier::external_body] fn len_(&self) -> (n: usize) { self.len() } }
#[verifier::external_body]
fn push_text(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }

proof fn boff_concat(s: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k <= s.len() + t.len(),
    ensures boff(s + t, k) == (if k <= s.len() { boff(s, k) } else { blen(s) + boff(t, k - s.len()) }),
    decreases k,
{ if k > 0 { boff_concat(s, t, k - 1); if k <= s.len() { assert((s + t)[k - 1] == s[k - 1]); } else { assert((s + t)[k - 1] == t[k - 1 - s.len()]); } } }
/// C03: what a span denotes survives appending
proof fn denotes_grow(s: Seq<char>, t: Seq<char>)
    ensures
        forall|a: int, b: int| #[trigger] denotes(s, a, b) ==> denotes(s + t, a, b) && sub(s + t, a, b) == sub(s, a, b),
        denotes(s + t, blen(s) as int, (blen(s) + blen(t)) as int), sub(s + t, blen(s) as int, (blen(s) + blen(t)) as int) == t,
{
    assert forall|k: int| 0 <= k <= s.len() + t.len() implies #[trigger] boff(s + t, k) == (if k <= s.len() { boff(s, k) } else { blen(s) + boff(t, k - s.len()) }) by { boff_concat(s, t, k); }
    assert forall|b: int| boundary(s, b) implies #[trigger] boundary(s + t, b) && char_at(s + t, b) == char_at(s, b) && char_at(s, b) <= s.len() by {
        let k = char_at(s, b);
        assert(at_char(s, b, k));
        assert(at_char(s + t, b, k));
        char_at_is(s + t, k);
    }
    assert forall|a: int, b: int| #[trigger] denotes(s, a, b) implies denotes(s + t, a, b) && sub(s + t, a, b) == sub(s, a, b) by {
        assert(boundary(s + t, a) && boundary(s + t, b));
        boff_inj(s);
        assert(at_char(s, a, char_at(s, a)) && at_char(s, b, char_at(s, b)));
        assert(sub(s + t, a, b) =~= sub(s, a, b));
    }
    char_at_is(s + t, s.len() as int);
    char_at_is(s + t, (s + t).len() as int);
    assert(sub(s + t, blen(s) as int, (blen(s) + blen(t)) as int) =~= t);
}

@@item src/sources.rs SyntheticSources;
spec fn swf(x: &SyntheticSources) -> bool {
    &&& wf(x.sources)
    &&& x.base_id == x.sources.source_id_strings@.len()
    &&& x.base_id + x.source_id_strings@.len() <= u32::MAX
    &&& forall|i: int| 0 <= i < x.source_id_strings@.len() ==> held(x, (#[trigger] x.source_id_strings@[i])@) && x.content@[x.source_id_strings@[i]@].0.0 == x.base_id + i
    &&& forall|n: Seq<char>| #[trigger] x.content@.contains_key(n) ==> x.base_id <= x.content@[n].0.0 < x.base_id + x.source_id_strings@.len()
            && x.source_id_strings@[x.content@[n].0.0 - x.base_id]@ == n
}
spec fn held(x: &SyntheticSources, n: Seq<char>) -> bool { x.content@.contains_key(n) && indices_of(x.content@[n].2@, x.content@[n].1@) }
spec fn is_synthetic(x: &SyntheticSources, p: Span) -> bool { x.base_id <= p.source < x.base_id + x.source_id_strings@.len() }
spec fn safe_syn(x: &SyntheticSources, p: Span) -> Span { if is_synthetic(x, p) { p } else { safe(x.sources, p) } }
spec fn name_syn(x: &SyntheticSources, p: Span) -> Seq<char> { if is_synthetic(x, p) { x.source_id_strings@[p.source - x.base_id]@ } else { x.sources.source_id_strings@[safe(x.sources, p).source as int]@ } }
spec fn content_syn(x: &SyntheticSources, p: Span) -> Seq<char> {
    if is_synthetic(x, p) { x.content@[name_syn(x, p)].1@ } else { content_of(x.sources, safe(x.sources, p).source as int) }
}
/// C03: a span which denoted text, in a source of either kind, denotes it still
spec fn keeps(x: &SyntheticSources, y: &SyntheticSources) -> bool {
    forall|p: Span| #![trigger safe_syn(y, p)] #![trigger content_syn(x, p)]
        (p.source < x.base_id || is_synthetic(x, p)) && denotes(content_syn(x, p), p.start as int, p.end as int) ==> safe_syn(y, p) == safe_syn(x, p) && safe_syn(x, p) == p && name_syn(y, p) == name_syn(x, p)
            && denotes(content_syn(y, p), p.start as int, p.end as int)
            && sub(content_syn(y, p), p.start as int, p.end as int) == sub(content_syn(x, p), p.start as int, p.end as int)
}
/// nothing but the text under that name grew, by that fragment, and the name was added last if new
spec fn grown(x: &SyntheticSources, y: &SyntheticSources, name: Seq<char>, fragment: Seq<char>) -> bool {
    &&& y.sources == x.sources && y.base_id == x.base_id
    &&& x.source_id_strings@.len() <= y.source_id_strings@.len()
    &&& forall|i: int| 0 <= i < x.source_id_strings@.len() ==> (#[trigger] y.source_id_strings@[i])@ == x.source_id_strings@[i]@
    &&& forall|n: Seq<char>| #[trigger] x.content@.contains_key(n) ==> y.content@.contains_key(n)
            && y.content@[n].1@ == (if n == name { x.content@[n].1@ + fragment } else { x.content@[n].1@ })
}
proof fn grown_keeps(x: &SyntheticSources, y: &SyntheticSources, name: Seq<char>, fragment: Seq<char>)
    requires swf(x), swf(y), grown(x, y, name, fragment),
    ensures keeps(x, y),
{
    if x.content@.contains_key(name) { denotes_grow(x.content@[name].1@, fragment); }
    assert forall|p: Span| #![trigger safe_syn(y, p)] #![trigger content_syn(x, p)]
        (p.source < x.base_id || is_synthetic(x, p)) && denotes(content_syn(x, p), p.start as int, p.end as int) implies safe_syn(y, p) == safe_syn(x, p) && safe_syn(x, p) == p && name_syn(y, p) == name_syn(x, p)
            && denotes(content_syn(y, p), p.start as int, p.end as int)
            && sub(content_syn(y, p), p.start as int, p.end as int) == sub(content_syn(x, p), p.start as int, p.end as int) by {
        if is_synthetic(x, p) { assert(y.source_id_strings@[p.source - x.base_id]@ == x.source_id_strings@[p.source - x.base_id]@); assert(held(x, name_syn(x, p))); }
    }
}
impl<'a> SyntheticSources<'a> {
@@fn src/sources.rs SyntheticSources::new
@ret r
@spec
    requires wf(sources),
    ensures swf(&r), r.sources == sources, r.source_id_strings@.len() == 0,
@subst? Vec::default() =>> Vec::new()
@@end
@@fn src/sources.rs SyntheticSources::create_synthetic_span
@ret r
@spec
    requires swf(old(self)), old(self).base_id + old(self).source_id_strings@.len() < u32::MAX,
    ensures
        swf(final(self)), final(self).sources == old(self).sources,
        is_synthetic(final(self), r), name_syn(final(self), r) == source_name@,
        denotes(content_syn(final(self), r), r.start as int, r.end as int),
        sub(content_syn(final(self), r), r.start as int, r.end as int) == content_fragment@,
        grown(old(self), final(self), source_name@, content_fragment@),
@start
    let ghost before = if self.content@.contains_key(source_name@) { self.content@[source_name@].1@ } else { Seq::empty() };
    proof {
        denotes_grow(before, content_fragment@);
        assert forall|k: int| 0 <= k <= before.len() + content_fragment@.len() implies
            #[trigger] boff(before + content_fragment@, k) == (if k <= before.len() { boff(before, k) } else { blen(before) + boff(content_fragment@, k - before.len()) })
        by { boff_concat(before, content_fragment@, k); }
        assert(Seq::<char>::empty() + content_fragment@ =~= content_fragment@);
        boff_inj(content_fragment@);
    }
@subst? content.len() =>> content.len_()
@subst? content_fragment.len() =>> content_fragment.len_()
@subst content_fragment.char_indices() =>> str_char_indices(content_fragment)
@subst content.char_indices() =>> str_char_indices(content.as_str())
@subst content.push_str(content_fragment) =>> push_text(content, content_fragment)
@subst char_indices.extend =>> char_indices.extend_by
@closure map#0
    |x: (usize, char)| -> (n: usize) requires x.0 + start <= usize::MAX, ensures n == x.0 + start { $bind0(x) $body }
@closure map#1
    |x: (usize, char)| -> (n: usize) ensures n == x.0 { $bind0(x) $body }
@@end
@@fn src/sources.rs SyntheticSources::get_adjusted_source
@ret r
@spec
    requires swf(self),
    ensures
        adjusted(content_syn(self, span), safe_syn(self, span), r.2, r.3), r.0@ == content_syn(self, span), r.1@ == name_syn(self, span),
@@end
@@fn src/sources.rs SyntheticSources::resolve_span
@ret r
@spec
    requires swf(self),
    ensures resolved(content_syn(self, *span), safe_syn(self, *span), r), r.file_name is Some && r.file_name->0@ == name_syn(self, *span),
@subst |span| self.get_adjusted_source(span) =>> |q: Span| -> (x: (&'s str, &'s str, Span, Span)) requires swf(self), ensures adjusted(content_syn(self, q), safe_syn(self, q), x.2, x.3), x.0@ == content_syn(self, q), x.1@ == name_syn(self, q) { self.get_adjusted_source(q) }
@@end
@@fn src/sources.rs SyntheticSources::error_source_text
@ret r
@spec
    requires swf(self),
    ensures ({ let p = safe_syn(self, error_or_warning.0.span); let s = content_syn(self, error_or_warning.0.span); r@ == sub(s, start_of(s, p), end_of(s, p)) }),
@subst? source_content[byte_span.start..byte_span.end] =>> *str_slice(source_content, byte_span.start, byte_span.end)
@@end
}

spec fn less_trailing(t: Seq<char>) -> Seq<char> { if trimmed(t).len() == 0 { t } else { trimmed(t) } }
/// what resolving gives is the text of the span less trailing whitespace
proof fn resolved_text(s: Seq<char>, p: Span, r: SpannedSource)
    requires resolved(s, p, r), denotes(s, p.start as int, p.end as int),
    ensures r.content@ == less_trailing(sub(s, p.start as int, p.end as int)),
{
    let (i, j) = (char_at(s, p.start as int), char_at(s, p.end as int));
    boff_inj(s);
    assert(at_char(s, p.start as int, i) && at_char(s, p.end as int, j));
    let t = trimmed(s.subrange(i, j));
    trimmed_prefix(s.subrange(i, j));
    char_at_is(s, i + t.len());
    assert(s.subrange(i, i + t.len()) =~= s.subrange(i, j).subrange(0, t.len() as int));
}
/// C03: a registered fragment resolves to its text, under its name, after any later registration (and by induction after any number of them)
proof fn theorem_c03(x: &SyntheticSources, y: &SyntheticSources, name: Seq<char>, other: Seq<char>, p: Span, fragment: Seq<char>, r: SpannedSource)
    requires
        swf(x), swf(y), grown(x, y, name, other), is_synthetic(x, p),
        denotes(content_syn(x, p), p.start as int, p.end as int), sub(content_syn(x, p), p.start as int, p.end as int) == fragment,
        resolved(content_syn(y, p), safe_syn(y, p), r),
    ensures
        r.content@ == less_trailing(fragment), name_syn(y, p) == name_syn(x, p),
        denotes(content_syn(y, p), p.start as int, p.end as int), sub(content_syn(y, p), p.start as int, p.end as int) == fragment,
{ grown_keeps(x, y, name, other); assert(safe_syn(y, p) == p); resolved_text(content_syn(y, p), p, r); }
/// C03: and so do spans of the files and the inline text
proof fn theorem_c03_files(x: &SyntheticSources, y: &SyntheticSources, name: Seq<char>, other: Seq<char>, p: Span, r: SpannedSource)
    requires swf(x), swf(y), grown(x, y, name, other), p.source < x.base_id, denotes(content_syn(x, p), p.start as int, p.end as int), resolved(content_syn(y, p), safe_syn(y, p), r),
    ensures r.content@ == less_trailing(sub(content_syn(x, p), p.start as int, p.end as int)), name_syn(y, p) == name_syn(x, p),
{ grown_keeps(x, y, name, other); assert(safe_syn(y, p) == p); resolved_text(content_syn(y, p), p, r); }
}
