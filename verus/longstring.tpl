// Unit longstring: over-long strings, and only those, draw a warning, src/parsers.rs string (C19)
#![allow(unused)]
#![feature(const_destruct)]
use vstd::prelude::*;
macro_rules! format { ($text:expr, $d:expr, $max:expr, $n:expr $(,)?) => { hint($d, $max, $n) }; }
verus! {
@@include mem.inc
@@include option.inc
@@include conv.inc
uninterp spec fn hinted(d: Seq<char>, max: usize, n: usize) -> Seq<char>;
#[verifier::external_body]
fn hint(d: &str, max: usize, n: usize) -> (r: String) ensures r@ == hinted(d@, max, n) { unimplemented!() }
// ---------------------------------------------------------------- assumed: the characters of a text
struct Chars_ { v: Ghost<Seq<char>> }
impl Chars_ {
    #[verifier::external_body]
    fn filter<F: FnMut(&char) -> bool>(self, f: F) -> (r: Chars_)
        requires forall|c: char| f.requires((&c,)),
        ensures forall|p: spec_fn(char) -> bool| #![trigger self.v@.filter(p)] (forall|c: char, b: bool| f.ensures((&c,), b) ==> b == p(c)) ==> r.v@ == self.v@.filter(p),
    { unimplemented!() }
    #[verifier::external_body]
    fn count(self) -> (r: usize) ensures r == self.v@.len(), r < usize::MAX { unimplemented!() }     // a text has at most isize::MAX bytes
}
#[verifier::external_body]
fn chars_(s: &str) -> (r: Chars_) ensures r.v@ == s@ { unimplemented!() }
spec fn newline() -> spec_fn(char) -> bool { |c: char| c == '\n' }
/// C19: the lines of a text
spec fn lines(s: Seq<char>) -> int { s.filter(newline()).len() as int + 1 }
// positions as chumsky has them, and what it hands to a closure
#[derive(Clone, Copy)]
struct Span_ { start: usize, end: usize, context: usize }
#[derive(Clone, Copy)]
@@item src/types.rs Span;
@@item src/types.rs Spanned;
spec fn span_of(s: Span_) -> Span { Span { source: s.context, start: s.start, end: s.end } }
impl From<Span_> for Span { spec fn made(v: Span_) -> Span { span_of(v) } fn from(v: Span_) -> (r: Span) { Span { source: v.context, start: v.start, end: v.end } } }
mod extra { pub type SimpleState<T> = T; }
struct MapExtra<'a> { span: Span_, state: ParserState<'a> }
impl<'a> MapExtra<'a> {
    fn span(&self) -> (r: Span_) ensures r == self.span { self.span }
    fn state<'f>(&'f mut self) -> (r: &'f mut ParserState<'a>)
        ensures *r == old(self).state, *final(r) == final(self).state, final(self).span == old(self).span,
    { &mut self.state }
}
// proved in unit diag
@@item src/types.rs AccountType;
struct AccountTypeNames<'a>(&'a str);
struct Warning { message: Ghost<Seq<char>>, reason: String, at: Span, related: Vec<Span> }
impl Warning {
    #[verifier::external_body]
    fn new(message: &str, reason: String, span: Span) -> (r: Warning) ensures r.reason == reason, r.at == span, r.related@ =~= Seq::<Span>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn related_to_named_span(self, name: &str, span: Span) -> (r: Warning) ensures r.reason == self.reason, r.at == self.at, r.related@ == self.related@.push(span) { unimplemented!() }
}
@@item src/parsers.rs ParserState;
@@item src/options.rs ParserOptions;
@@item src/options.rs Sourced;
#[derive(Clone, Copy)]
@@item src/options.rs Source;
@@item src/options.rs DEFAULT_LONG_STRING_MAXLINES;
impl<T> Sourced<T> {
@@fn src/options.rs Sourced::item
@ret r
@spec
    ensures *r == self.spanned.item, // [C19]
@@end
}
/// C19: the limit in force
spec fn limit(p: ParserOptions) -> usize { match p.long_string_maxlines { Some(x) => x.spanned.item, None => 64 } }
spec fn warns(w: Warning, s: Seq<char>, at: Span_, p: ParserOptions) -> bool {
    &&& w.at == span_of(at)
    &&& w.reason@ == hinted(if p.long_string_maxlines is None { "default "@ } else { ""@ }, limit(p), lines(s) as usize)
    &&& match p.long_string_maxlines { None => w.related@.len() == 0, Some(x) => w.related@ =~= Seq::empty().push(x.source.value) }
}
@@closure src/parsers.rs string map_with#0
@sig
fn string_checked<'s, 'a>(p0: &'s str, p1: &mut MapExtra<'a>) -> (r: &'s str)
@subst? s.chars() =>> chars_(s)
@subst? span.into() =>> span.into_()
@closure filter#0
|c: &char| -> (b: bool) ensures b == (*c == '\n') { $bind0(c) $body }
@closure map#0
|n: &Sourced<usize>| -> (q: usize) ensures q == n.spanned.item { $bind0(n) $body }
@closure map#1
|n: &Sourced<usize>| -> (q: Span) ensures q == n.source.value { $bind0(n) $body }
@start
    proof { let p = newline(); assert(forall|c: char| #[trigger] p(c) == (c == '\n')); let _ = p0@.filter(p); }
@spec
    ensures
        r == p0, // [C19]
        old(p1).state.options == final(p1).state.options, // [C19]
        lines(p0@) <= limit(old(p1).state.options) ==> final(p1).state.warnings@ == old(p1).state.warnings@, // [C19]
        lines(p0@) > limit(old(p1).state.options) ==> final(p1).state.warnings@.len() == old(p1).state.warnings@.len() + 1 // [C19]
            && final(p1).state.warnings@.drop_last() =~= old(p1).state.warnings@ // [C19]
            && warns(final(p1).state.warnings@.last(), p0@, old(p1).span, old(p1).state.options), // [C19]
@@end
}
