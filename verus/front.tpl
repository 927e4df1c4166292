// Unit front: from a text to its tokens, and to its includes, src/lib.rs (C05: positions; C17: which includes)
#![allow(unused)]
use std::ops::Range;
use vstd::prelude::*;
verus! {
@@include mem.inc
@@include token.inc
#[derive(Clone, Copy)]
@@item src/types.rs SourceId;
// positions as chumsky has them
#[derive(Clone, Copy)]
struct Span_ { start: usize, end: usize, context: SourceId }
mod chumsky {
    pub mod span { use vstd::prelude::*; use super::super::*; verus! {
        pub(crate) struct Span {}
        impl Span {
            pub(crate) fn new(context: SourceId, r: Range<usize>) -> (s: Span_) ensures s == (Span_ { start: r.start, end: r.end, context }) { Span_ { start: r.start, end: r.end, context } }
        } }
    }
    pub mod extra { use vstd::prelude::*; verus! { pub struct SimpleState<T>(pub T); } }
}
uninterp spec fn blen(s: &str) -> nat;
#[verifier::external_body]
fn str_len(s: &str) -> (n: usize) ensures n == blen(s) { s.len() }
/// the tokens of a text (units lexpipe, recovery, keyword, eolindent)
uninterp spec fn lexed<'a>(s: &'a str) -> Seq<RangedToken<'a>>;
#[verifier::external_body] struct Lexed<'a> { x: &'a u8 }
impl<'a> Lexed<'a> {
    uninterp spec fn all(&self) -> Seq<RangedToken<'a>>;
    // assumed: Iterator::map
    #[verifier::external_body]
    fn map<U, F: Fn(RangedToken<'a>) -> U>(self, f: F) -> (r: Mapped<U>)
        requires forall|x: RangedToken<'a>| f.requires((x,)),
        ensures r.all().len() == self.all().len(), forall|k: int| 0 <= k < self.all().len() ==> f.ensures((self.all()[k],), #[trigger] r.all()[k]),
    { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(U)] struct Mapped<U> { x: U }
impl<U> Mapped<U> {
    uninterp spec fn all(&self) -> Seq<U>;
    #[verifier::external_body]
    fn collect<V: Gathered<U>>(self) -> (r: V) ensures r.gathered() == self.all() { unimplemented!() }
}
trait Gathered<U> { spec fn gathered(&self) -> Seq<U>; }
impl<U> Gathered<U> for Vec<U> { spec fn gathered(&self) -> Seq<U> { self@ } }
#[verifier::external_body]
fn lex<'a>(s: &'a str) -> (r: Lexed<'a>) ensures r.all() == lexed(s) { unimplemented!() }
/// C05: every token at its own position in its own source
spec fn placed<'a>(id: SourceId, x: RangedToken<'a>) -> (Token<'a>, Span_) { (x.0, Span_ { start: x.1.start, end: x.1.end, context: id }) }
spec fn tokens_of<'a>(id: SourceId, s: &'a str) -> Seq<(Token<'a>, Span_)> { lexed(s).map_values(|x: RangedToken<'a>| placed(id, x)) }
@@fn src/lib.rs lex_with_source
@ret r
@closure map#0
|x: RangedToken<'a>| -> (q: (Token<'a>, Span_)) ensures q == placed(source_id, x) { $bind0(x) $body }
@wrapend
    assert(r_@ =~= tokens_of(source_id, s)); // [C02] [C05] [C17]
@spec
    ensures r@ == tokens_of(source_id, s), // [C02] [C05] [C17]
@@end
spec fn end_at(id: SourceId, s: &str) -> Span_ { Span_ { start: blen(s) as usize, end: blen(s) as usize, context: id } }
@@fn src/lib.rs end_of_input
@ret r
@subst? s.len() =>> str_len(s)
@spec
    ensures r == end_at(source_id, s), // [C02] [C05] [C17]
@@end
// ---------------------------------------------------------------- the includes of a text
#[verifier::external_body] struct ParserState<'s> { x: &'s u8 }
uninterp spec fn fresh<'s>() -> ParserState<'s>;
impl<'s> ParserState<'s> { #[verifier::external_body] fn default() -> (r: Self) ensures r == fresh::<'s>() { unimplemented!() } }
/// what the grammar of includes yields (unit grammar: the texts after `include`)
uninterp spec fn include_texts(id: SourceId, tokens: Seq<(Token, Span_)>, end: Span_) -> Option<Vec<String>>;
#[verifier::external_body] struct Input<'s> { x: &'s u8 }
impl<'s> Input<'s> {
    uninterp spec fn tokens(&self) -> Seq<(Token<'s>, Span_)>;
    uninterp spec fn end(&self) -> Span_;
    uninterp spec fn id(&self) -> SourceId;
    #[verifier::external_body]
    fn with_context(self, id: SourceId) -> (r: Input<'s>) ensures r.tokens() == self.tokens(), r.end() == self.end(), r.id() == id { unimplemented!() }
}
trait AsInput<'s>: Sized { spec fn all(&self) -> Seq<(Token<'s>, Span_)>;
    fn map<F: Fn(&'s (Token<'s>, Span_)) -> (&'s Token<'s>, &'s Span_)>(self, end: Span_, f: F) -> (r: Input<'s>)
        ensures r.end() == end, (forall|q: &'s (Token<'s>, Span_), w: (&'s Token<'s>, &'s Span_)| f.ensures((q,), w) ==> *w.0 == q.0 && *w.1 == q.1) ==> r.tokens() == self.all();
}
impl<'s> AsInput<'s> for Vec<(Token<'s>, Span_)> { spec fn all(&self) -> Seq<(Token<'s>, Span_)> { self@ }
    #[verifier::external_body]
    fn map<F: Fn(&'s (Token<'s>, Span_)) -> (&'s Token<'s>, &'s Span_)>(self, end: Span_, f: F) -> (r: Input<'s>) { unimplemented!() }
}
struct Grammar {}
impl Grammar {
    #[verifier::external_body]
    fn parse_with_state<'s>(self, i: Input<'s>, state: &mut chumsky::extra::SimpleState<ParserState<'s>>) -> (r: Outcome) ensures r.output() == include_texts(i.id(), i.tokens(), i.end()) { unimplemented!() }
}
fn includes() -> Grammar { Grammar {} }
#[verifier::external_body] struct Outcome { x: u8 }
impl Outcome {
    uninterp spec fn output(&self) -> Option<Vec<String>>;
    #[verifier::external_body]
    fn into_output(self) -> (r: Option<Vec<String>>) ensures r == self.output() { unimplemented!() }
}
@@fn src/lib.rs get_includes>get_includes_for_tokens
@ret r
@closure map#0
|q: &'_ (Token<'_>, Span_)| -> (w: (&Token<'_>, &Span_)) ensures *w.0 == q.0, *w.1 == q.1 { $bind0(q) $body }
@spec
    ensures include_texts(source_id, tokens@, end_of_input) matches Some(v) ==> r == v, // [C17]
@@end
/// C17: the includes found are those of the tokens of the whole text
@@fn src/lib.rs get_includes
@ret r
@dropfn get_includes_for_tokens
@spec
    ensures include_texts(source_id, tokens_of(source_id, content), end_at(source_id, content)) matches Some(v) ==> r == v, // [C17]
@@end
}
