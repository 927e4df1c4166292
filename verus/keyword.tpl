// Unit keyword: KeywordThenColonToKey of src/lexer.rs (C05)
#![allow(unused)]
use std::ops::Range;
use vstd::prelude::*;
verus! {
@@include mem.inc
@@include token.inc

@@include keyed.inc

// ---------------------------------------------------------------- extracted

@@item src/lexer.rs KeywordThenColonToKey;

impl<'a, I> KeywordThenColonToKey<'a, I> where I: Iterator<Item = RangedToken<'a>> {
    spec fn ahead(&self) -> Seq<RangedToken<'a>> {
        match self.pending_tok { Some((t, _)) => seq![t] + self.iter.rem(), None => self.iter.rem() }
    }
@@fn src/lexer.rs KeywordThenColonToKey::new
@ret r
@spec
    requires iter.wf(),
    ensures r.wf(), r.rem() == keyed(iter.rem()),
@@end
@@fn src/lexer.rs KeywordThenColonToKey::potential_key
@ret r
@spec
    ensures r == keyword(*tok),
@@end
}

impl<'a, I> Iterator for KeywordThenColonToKey<'a, I> where I: Iterator<Item = RangedToken<'a>> {
    type Item = RangedToken<'a>;
    spec fn wf(&self) -> bool {
        &&& self.iter.wf()
        &&& self.pending_tok matches Some((t, k)) ==> k == keyword(t.0)
    }
    spec fn rem(&self) -> Seq<RangedToken<'a>> { keyed(self.ahead()) }
@@fn src/lexer.rs Iterator@KeywordThenColonToKey::next
@start
        let ghost s = self.ahead();
        let ghost rest = if s.len() > 0 { s.drop_first() } else { s };
        proof {
            if s.len() > 0 { assert(keyed(s).drop_first() =~= keyed(rest)); }
            assert(self.pending_tok is None ==> s == self.iter.rem());
            assert(self.pending_tok matches Some((t, _)) ==> rest =~= self.iter.rem() && s[0] == t);
        }
@before? match self.pending_tok.take()
        proof {
            assert(self.ahead() =~= s);
            assert(self.iter.rem() =~= rest);
        }
        let ghost r1 = if rest.len() > 0 { rest.drop_first() } else { rest };
        proof { if rest.len() > 0 { assert(seq![rest[0]] + r1 =~= rest); } }
@@end
}
trait KeywordThenColonToKeyIteratorAdaptor<'a>: Iterator<Item = RangedToken<'a>> + Sized {
@@fn src/lexer.rs KeywordThenColonToKeyIteratorAdaptor::keyword_then_colon_to_key
@ret r
@spec
    requires self.wf(),
    ensures r.wf(), r.rem() == keyed(self.rem()),
@@end
}
}
