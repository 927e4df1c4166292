// Unit recovery: RecoveryAttempter of src/lexer.rs (C05)
#![allow(unused)]
use std::ops::Range;
use vstd::prelude::*;
verus! {
@@include mem.inc
@@include token.inc

@@include recovered.inc

impl vstd::std_specs::convert::FromSpecImpl<RecoveryToken> for Token<'_> {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: RecoveryToken) -> Self { full(v) }
}
impl From<RecoveryToken> for Token<'_> {
@@fn src/lexer.rs From@Token::from
@@end
}

@@item src/lexer.rs RecoveryAttempter;

@@fn src/lexer.rs RecoveryAttempter::next_recovery_item>offset
@ret x
@spec
    requires r.start + o <= usize::MAX, r.end + o <= usize::MAX,
    ensures x.start == r.start + o, x.end == r.end + o,
@@end

impl<'a, I> RecoveryAttempter<'a, I> where I: Iterator<Item = RangedTokenOrError<'a>> {
    spec fn again(&self) -> Seq<RangedToken<'a>> {
        match self.recovery { Some((it, o)) => places(it.rem(), o as int), None => seq![] }
    }
@@fn src/lexer.rs RecoveryAttempter::new
@ret r
@spec
    requires iter.wf(), valid(source, iter.rem()),
    ensures r.wf(), r.rem() == recovered(source, iter.rem()),
@@end
@@fn src/lexer.rs RecoveryAttempter::create_recovery_lexer
@spec
    requires on_chars(old(self).source, failed_span.start as int, failed_span.end as int), old(self).wf(),
    ensures final(self).wf(), *final(self) == (RecoveryAttempter { recovery: final(self).recovery, ..*old(self) }),
        final(self).again() == places(relex(slice(old(self).source, failed_span.start as int, failed_span.end as int)), failed_span.start as int),
@start
        proof { slices(self.source, failed_span.start as int, failed_span.end as int); }
@subst &self.source[failed_span.start..failed_span.end] =>> str_slice(self.source, failed_span.start, failed_span.end)
@@end
@@fn src/lexer.rs RecoveryAttempter::next_primary_item
@ret r
@spec
    requires old(self).wf(), old(self).recovery is None,
    ensures final(self).wf(), pops(old(self).rem(), r, final(self).rem()),
    decreases old(self).primary_iter.rem().len(), 0nat,
@@end
@@fn src/lexer.rs RecoveryAttempter::next_recovery_item
@ret r
@dropfn offset
@spec
    requires old(self).wf(),
    ensures final(self).wf(), pops(old(self).rem(), r, final(self).rem()),
    decreases old(self).primary_iter.rem().len(), 1nat,
@@end
}
impl<'a, I> Iterator for RecoveryAttempter<'a, I> where I: Iterator<Item = RangedTokenOrError<'a>> {
    type Item = RangedToken<'a>;
    spec fn wf(&self) -> bool {
        &&& self.primary_iter.wf() && valid(self.source, self.primary_iter.rem())
        &&& self.recovery matches Some((it, o)) ==> it.wf()
            && bounded(it.rem(), (usize::MAX - o) as nat)
    }
    spec fn rem(&self) -> Seq<RangedToken<'a>> { self.again() + recovered(self.source, self.primary_iter.rem()) }
@@fn src/lexer.rs Iterator@RecoveryAttempter::next
@@end
}
trait RecoveryAttempterIteratorAdaptor<'a>: Iterator<Item = RangedTokenOrError<'a>> + Sized {
@@fn src/lexer.rs RecoveryAttempterIteratorAdaptor::attempt_recovery
@ret r
@spec
    requires self.wf(), valid(source, self.rem()),
    ensures r.wf(), r.rem() == recovered(source, self.rem()),
@@end
}
}
