// Unit lexpipe: how the stages of the lexer are put together (C04, C05)
#![allow(unused)]
use std::ops::Range;
use vstd::prelude::*;
verus! {
@@include mem.inc
@@include token.inc
@@include recovered.inc
@@include keyed.inc
@@include handled.inc
@@include lined.inc

// ---------------------------------------------------------------- the stages, by the contracts proved of them in units recovery, keyword and eolindent
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct Stage<T> { x: T }
struct Raw; struct Spanned_; struct Recovered; struct Keyed; struct Handled;
uninterp spec fn raw<'a>(s: &'a str) -> Seq<RangedTokenOrError<'a>>;
uninterp spec fn text<'a, T>(x: Stage<T>) -> &'a str;
uninterp spec fn errs<'a, T>(x: Stage<T>) -> Seq<RangedTokenOrError<'a>>;
uninterp spec fn toks<'a, T>(x: Stage<T>) -> Seq<RangedToken<'a>>;
#[verifier::external_body]
fn str_len(s: &str) -> (n: usize) ensures n == blen(s) { s.len() }
impl<'a> Token<'a> {
    #[verifier::external_body] fn lexer(s: &'a str) -> (r: Stage<Raw>) ensures text(r) == s { unimplemented!() }
}
/// assumed of the lexer which logos generates: it reads characters, its joint marker spans at least one, and it has no token for an indent by itself
spec fn raw1<'a>(x: RangedTokenOrError<'a>) -> bool { x.0 matches Ok(t) ==> !(t is Indent) && (t is EolThenIndent ==> x.1.end >= 1) }
spec fn sane_raw<'a>(s: Seq<RangedTokenOrError<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> raw1(#[trigger] s[i]) }
impl Stage<Raw> {
    #[verifier::external_body] fn spanned<'a>(self) -> (r: Stage<Spanned_>)
        ensures errs::<'a, _>(r) == raw(text::<'a, _>(self)), valid(text::<'a, _>(self), errs::<'a, _>(r)), sane_raw(errs::<'a, _>(r)) { unimplemented!() }
}
impl Stage<Spanned_> {
    #[verifier::external_body] fn attempt_recovery<'a>(self, source: &'a str) -> (r: Stage<Recovered>)
        requires valid(source, errs::<'a, _>(self)),
        ensures toks::<'a, _>(r) == recovered(source, errs::<'a, _>(self)) { unimplemented!() }
}
impl Stage<Recovered> {
    #[verifier::external_body] fn keyword_then_colon_to_key<'a>(self) -> (r: Stage<Keyed>) ensures toks::<'a, _>(r) == keyed(toks::<'a, _>(self)) { unimplemented!() }
}
impl Stage<Keyed> {
    #[verifier::external_body] fn handle_eol_indent<'a>(self, final_eol: Option<Range<usize>>) -> (r: Stage<Handled>)
        requires sane(toks::<'a, _>(self)),
        ensures toks::<'a, _>(r) == handled(toks::<'a, _>(self), final_eol) { unimplemented!() }
}
// ---------------------------------------------------------------- what one stage needs, the ones before it provide
proof fn recovered_sane<'a>(src: &str, s: Seq<RangedTokenOrError<'a>>)
    requires sane_raw(s),
    ensures sane(recovered(src, s)), no_indent(recovered(src, s)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies raw1(#[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
        recovered_sane(src, s.drop_first());
        assert(raw1(s[0]));
    }
}
broadcast proof fn stages_fit<'a>(src: &str, s: Seq<RangedTokenOrError<'a>>)
    requires sane_raw(s),
    ensures sane(#[trigger] keyed(recovered(src, s))), no_indent(keyed(recovered(src, s))),
{ recovered_sane(src, s); }
/// C04: what the stages yield together
broadcast proof fn all_lined<'a>(src: &str, s: Seq<RangedTokenOrError<'a>>, fe: Option<Range<usize>>)
    requires sane_raw(s),
    ensures
        lined(#[trigger] handled(keyed(recovered(src, s)), fe)),
        content(handled(keyed(recovered(src, s)), fe)) == lines(None, lead(keyed(recovered(src, s)))),
        fe is Some && handled(keyed(recovered(src, s)), fe).len() > 0 ==> handled(keyed(recovered(src, s)), fe).last().0 is Eol,
{ stages_fit(src, s); theorem_c04(keyed(recovered(src, s)), fe); }

/// C04, C05: every text goes through recovery, then keys, then lines, with a final end-of-line at its end
@@fn src/lexer.rs lex_with_final_eol
@sig
fn lex_with_final_eol<'a>(s: &'a str, final_eol: Option<Range<usize>>) -> (r: Stage<Handled>)
@spec
    ensures toks::<'a, _>(r) == handled(keyed(recovered(s, raw(s))), final_eol),
        lined(toks::<'a, _>(r)), content(toks::<'a, _>(r)) == lines(None, lead(keyed(recovered(s, raw(s))))),
        final_eol is Some && toks::<'a, _>(r).len() > 0 ==> toks::<'a, _>(r).last().0 is Eol,
@start
        broadcast use {stages_fit, all_lined};
@@end
@@fn src/lexer.rs lex
@sig
fn lex<'a>(s: &'a str) -> (r: Stage<Handled>)
@spec
    ensures toks::<'a, _>(r) == handled(keyed(recovered(s, raw(s))), Some(Range { start: blen(s) as usize, end: blen(s) as usize })),
        lined(toks::<'a, _>(r)), content(toks::<'a, _>(r)) == lines(None, lead(keyed(recovered(s, raw(s))))),
        toks::<'a, _>(r).len() > 0 ==> toks::<'a, _>(r).last().0 is Eol,
@subst? s.len() =>> str_len(s)
@@end
}
