// Unit eolindent: EolIndentHandler of src/lexer.rs (C04)
#![allow(unused)]
#![feature(const_destruct)]
use std::ops::Range;
use vstd::prelude::*;
verus! {
@@include mem.inc
@@include token.inc
@@include option.inc

@@include handled.inc

spec fn opt<T>(t: Option<T>) -> Seq<T> { match t { Some(t) => seq![t], None => seq![] } }

/// what is left to be folded when `f` has been read, and `g` too if `f` is an end-of-line
spec fn cur<'a>(f: Option<RT<'a>>, g: Option<RT<'a>>, s: Seq<RT<'a>>) -> Seq<RT<'a>> {
    match (f, g) {
        (None, _) => seq![],
        (Some(t), None) => if eolish(t.0) { seq![last(t)] } else { seq![t] + merged(s) },
        (Some(t), Some(u)) =>
            if eolish(u.0) { after(combine(t, u), s) } else if u.0 is Colon { merged(skip(s)) } else { emit(t) + seq![u] + merged(s) },
    }
}
/// `g` has been read exactly if `f` is an end-of-line, and neither if there was none left
spec fn reads<'a>(f: Option<RT<'a>>, g: Option<RT<'a>>, s: Seq<RT<'a>>) -> bool {
    &&& f is None ==> g is None && s.len() == 0
    &&& f matches Some(t) ==> sane1(t) && if eolish(t.0) { g is None ==> s.len() == 0 } else { g is None }
    &&& g matches Some(u) ==> sane1(u)
    &&& sane(s)
}

// ---------------------------------------------------------------- extracted

@@item src/lexer.rs EolIndentHandler;

impl<'a, I> EolIndentHandler<'a, I> where I: Iterator<Item = RangedToken<'a>> {
    spec fn tail(&self) -> Seq<RT<'a>> { opt(self.pending[0]) + opt(self.pending[1]) + merged(self.iter.rem()) }
    spec fn waiting(&self) -> Seq<RT<'a>> { opt(self.first_tok) + self.tail() }

@@fn src/lexer.rs EolIndentHandler::new
@ret r
@spec
    requires iter.wf(), sane(iter.rem()),
    ensures r.wf(), r.rem() == handled(iter.rem(), final_eol),
@start
        let ghost s0 = iter.rem();
        let ghost mut fresh = true;
        let ghost mut at = Seq::<RT<'a>>::empty();
@closure is_some_and#0
    |t: &RangedToken<'a>| -> (b: bool) ensures b == eolish(t.0) { let $p0 = t; $body }
@closure is_some_and#1
    |t: &RangedToken<'a>| -> (b: bool) ensures b == t.0 is Colon { let $p0 = t; $body }
@closure is_some_and#2
    |t: &RangedToken<'a>| -> (b: bool) ensures b == !eolish(t.0) { let $p0 = t; $body }
@loop 1 while
            invariant
                iter.wf(), sane(s0), sane(iter.rem()),
                fresh ==> !ready && iter.rem() == s0 && first_tok is Some && eolish((first_tok->0).0),
                !fresh ==> lead(at) == lead(s0) && pops(at, first_tok, iter.rem()),
                ready ==> !fresh && (first_tok matches Some(t) ==> !eolish(t.0) && !(t.0 is Colon)),
            decreases opt(first_tok).len() + iter.rem().len() + (if ready { 0int } else { 1int }),
@loopstart 1
            let ghost n0 = opt(first_tok).len() + iter.rem().len();
@loop 2 while
                invariant
                    iter.wf(), sane(iter.rem()), !ready,
                    fresh ==> iter.rem() == s0 && first_tok is Some && eolish((first_tok->0).0),
                    !fresh ==> lead(at) == lead(s0) && pops(at, first_tok, iter.rem()),
                    opt(first_tok).len() + iter.rem().len() <= n0,
                decreases iter.rem().len(), opt(first_tok).len(),
@loopstart 2
                proof { at = iter.rem(); }
@loopend 2
                proof { fresh = false; }
@afterloop 2
            proof { if first_tok is Some && (first_tok->0).0 is Colon { skip_len(iter.rem()); at = iter.rem(); } }
@loop 3 while
                invariant
                    iter.wf(), sane(iter.rem()), !ready, !fresh,
                    lead(skip(at)) == lead(s0), pops(at, first_tok, iter.rem()),
                    opt(first_tok).len() + iter.rem().len() < n0,
                decreases iter.rem().len(), opt(first_tok).len(),
@loopstart 3
                    proof { at = iter.rem(); }
@loops 3
@@end
@@fn src/lexer.rs EolIndentHandler::skip_to_end_of_line
@ret r
@spec
    requires old(self).iter.wf(), sane(old(self).iter.rem()),
    ensures final(self).iter.wf(), sane(final(self).iter.rem()), *final(self) == (EolIndentHandler { iter: final(self).iter, ..*old(self) }),
        pops(skip(old(self).iter.rem()), r, final(self).iter.rem()),
        r matches Some(t) ==> eolish(t.0) && sane1(t),
@start
        let ghost s0 = self.iter.rem();
        let ghost mut at = s0;
@closure is_some_and#0
    |t: &RangedToken<'a>| -> (b: bool) ensures b == !eolish(t.0) { let $p0 = t; $body }
@loop 1 while
            invariant
                self.iter.wf(), sane(at), *self == (EolIndentHandler { iter: self.iter, ..*old(self) }),
                skip(at) == skip(s0), pops(at, tok, self.iter.rem()),
            decreases at.len(),
@loopstart 1
            proof { at = self.iter.rem(); }
@@end
@@fn src/lexer.rs EolIndentHandler::get_second_tok_if_required
@ret r
@spec
    requires old(self).iter.wf(), sane(old(self).iter.rem()),
    ensures final(self).iter.wf(), sane(final(self).iter.rem()), *final(self) == (EolIndentHandler { iter: final(self).iter, ..*old(self) }),
        first_tok is Some && eolish((first_tok->0).0) ==> pops(old(self).iter.rem(), r, final(self).iter.rem()),
        first_tok is None || !eolish((first_tok->0).0) ==> r is None && *final(self) == *old(self),
        r matches Some(t) ==> sane1(t),
@closure is_some_and#0
    |t: &RangedToken<'a>| -> (b: bool) ensures b == eolish(t.0) { let $p0 = t; $body }
@@end
@@fn src/lexer.rs EolIndentHandler::merge
@ret r
@spec
    requires old(self).iter.wf(), sane(old(self).iter.rem()), old(self).pending[0] is None, old(self).pending[1] is None,
    ensures final(self).iter.wf(), sane(final(self).iter.rem()),
        *final(self) == (EolIndentHandler { iter: final(self).iter, pending: final(self).pending, ..*old(self) }),
        final(self).pending[1] is Some ==> final(self).pending[0] is Some,
        pops(merged(old(self).iter.rem()), r, final(self).tail()),
@start
        let ghost s0 = self.iter.rem();
        proof { reveal_with_fuel(merged, 3); reveal_with_fuel(after, 3); }
@loop 1 while
            invariant
                self.iter.wf(), *self == (EolIndentHandler { iter: self.iter, ..*old(self) }),
                reads(first_tok, second_tok, self.iter.rem()),
                cur(first_tok, second_tok, self.iter.rem()) == merged(s0),
                !merging ==> second_tok is None || !eolish((second_tok->0).0) && !((second_tok->0).0 is Colon),
            decreases opt(first_tok).len() + opt(second_tok).len() + self.iter.rem().len(), (if merging { 1nat } else { 0nat }),
@loopstart 1
            proof { reveal_with_fuel(merged, 3); reveal_with_fuel(after, 3); skip_len(self.iter.rem()); }
@afterloop 1
        proof { assert(merged(Seq::<RT<'a>>::empty()) =~= Seq::empty()); }
        let ghost all = merged(s0);
        let ghost f = first_tok;
@subst? (&mut first_tok, &mut second_tok) =>> (&first_tok, &second_tok)
@@end
@@fn src/lexer.rs EolIndentHandler::next_merged
@ret r
@spec
    requires old(self).iter.wf(), sane(old(self).iter.rem()), old(self).pending[1] is Some ==> old(self).pending[0] is Some,
    ensures final(self).iter.wf(), sane(final(self).iter.rem()),
        *final(self) == (EolIndentHandler { iter: final(self).iter, pending: final(self).pending, ..*old(self) }),
        final(self).pending[1] is Some ==> final(self).pending[0] is Some,
        pops(old(self).tail(), r, final(self).tail()),
@subst? [self.pending[0].take(), self.pending[1].take()] =>> (self.pending[0].take(), self.pending[1].take())
@subst? [Some(first), second] =>> (Some(first), second)
@@end
}

impl<'a, I> Iterator for EolIndentHandler<'a, I> where I: Iterator<Item = RangedToken<'a>> {
    type Item = RangedToken<'a>;
    spec fn wf(&self) -> bool {
        &&& self.iter.wf() && sane(self.iter.rem())
        &&& self.pending[1] is Some ==> self.pending[0] is Some
    }
    spec fn rem(&self) -> Seq<RangedToken<'a>> { out(self.previous_was_eol, self.any, self.final_eol, self.waiting()) }
@@fn src/lexer.rs Iterator@EolIndentHandler::next
@start
        let ghost w0 = self.waiting();
@after? let next =
        let ghost w1 = self.waiting();
        proof {
            reveal_with_fuel(out, 3);
            assert(pops(w0, next, w1));
            assert(next is Some ==> w1 == w0.drop_first());
            assert(next is None ==> w1 == w0);
        }
@@end
}
trait EolIndentHandlerIteratorAdaptor<'a>: Iterator<Item = RangedToken<'a>> + Sized {
@@fn src/lexer.rs EolIndentHandlerIteratorAdaptor::handle_eol_indent
@ret r
@spec
    requires self.wf(), sane(self.rem()),
    ensures r.wf(), r.rem() == handled(self.rem(), final_eol),
@@end
}
}
