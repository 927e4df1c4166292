// ---------------------------------------------------------------- specification

type RT<'a> = RangedToken<'a>;

/// the joint marker stands for an end-of-line and the indent after it
spec fn emit<'a>(t: RT<'a>) -> Seq<RT<'a>> {
    if t.0 is EolThenIndent { seq![(Token::Eol, t.1), (Token::Indent, Range { start: (t.1.end - 1) as usize, end: t.1.end })] } else { seq![t] }
}
/// two ends of line in a row: the second kind, over both spans, except that a comment does not count
spec fn combine<'a>(a: RT<'a>, b: RT<'a>) -> RT<'a> {
    (b.0, Range { start: a.1.start, end: if b.0 is EolComment { b.1.start } else { b.1.end } })
}
/// at the end, blanks are not an indent
spec fn last<'a>(t: RT<'a>) -> RT<'a> { if t.0 is EolThenIndent { (Token::Eol, t.1) } else { t } }
/// what remains from the next end-of-line on
spec fn skip<'a>(s: Seq<RT<'a>>) -> Seq<RT<'a>> decreases s.len() {
    if s.len() == 0 || eolish(s[0].0) { s } else { skip(s.drop_first()) }
}
proof fn skip_len<'a>(s: Seq<RT<'a>>)
    ensures skip(s).len() <= s.len(), skip(s).len() == 0 || eolish(skip(s)[0].0), sane(s) ==> sane(skip(s)),
    decreases s.len(),
{ if s.len() == 0 || eolish(s[0].0) {} else { skip_len(s.drop_first()); } }

/// folding of ends of line and ignored lines
spec fn merged<'a>(s: Seq<RT<'a>>) -> Seq<RT<'a>> decreases s.len(), 0nat {
    if s.len() == 0 { seq![] } else if !eolish(s[0].0) { seq![s[0]] + merged(s.drop_first()) } else { after(s[0], s.drop_first()) }
}
/// the same, after an end-of-line
spec fn after<'a>(t: RT<'a>, s: Seq<RT<'a>>) -> Seq<RT<'a>> decreases s.len(), 1nat via after_dec {
    if s.len() == 0 { seq![last(t)] }
    else if eolish(s[0].0) { after(combine(t, s[0]), s.drop_first()) }
    else if s[0].0 is Colon { merged(skip(s.drop_first())) }
    else { emit(t) + seq![s[0]] + merged(s.drop_first()) }
}
#[via_fn]
proof fn after_dec<'a>(t: RT<'a>, s: Seq<RT<'a>>) { if s.len() > 0 { skip_len(s.drop_first()); } }

/// initial ends of line and ignored lines are dropped
spec fn lead<'a>(s: Seq<RT<'a>>) -> Seq<RT<'a>> decreases s.len() via lead_dec {
    if s.len() == 0 { s } else if eolish(s[0].0) { lead(s.drop_first()) } else if s[0].0 is Colon { lead(skip(s.drop_first())) } else { s }
}
#[via_fn]
proof fn lead_dec<'a>(s: Seq<RT<'a>>) { if s.len() > 0 { skip_len(s.drop_first()); } }

/// comment ends of line become plain ones, and a final end-of-line is supplied if need be
spec fn fin<'a>(t: RT<'a>) -> RT<'a> { if t.0 is EolComment { (Token::Eol, Range { start: t.1.start, end: t.1.start }) } else { t } }
spec fn out<'a>(prev: bool, any: bool, fe: Option<Range<usize>>, m: Seq<RT<'a>>) -> Seq<RT<'a>> decreases m.len() {
    if m.len() == 0 { if fe is Some && !prev && any { seq![(Token::Eol, fe->0)] } else { seq![] } }
    else { seq![fin(m[0])] + out(fin(m[0]).0 is Eol, true, fe, m.drop_first()) }
}
/// the whole adaptor: on the first token of a ledger there is nothing to fold
spec fn handled<'a>(s: Seq<RT<'a>>, fe: Option<Range<usize>>) -> Seq<RT<'a>> { out(false, false, fe, merged(lead(s))) }

/// assumed of the lexer: a joint marker spans at least one character
spec fn sane1<'a>(t: RT<'a>) -> bool { t.0 is EolThenIndent ==> t.1.end >= 1 }
spec fn sane<'a>(s: Seq<RT<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> sane1(#[trigger] s[i]) }
