// ---------------------------------------------------------------- C04 as a theorem over the contracts

/// the stream is cleanly structured into lines
spec fn lined<'a>(o: Seq<RT<'a>>) -> bool {
    &&& o.len() > 0 ==> !(o[0].0 is Eol)
    &&& forall|i: int| 0 < i < o.len() && (#[trigger] o[i]).0 is Eol ==> !(o[i - 1].0 is Eol)
    &&& forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 is Indent ==> i > 0 && o[i - 1].0 is Eol
    &&& forall|i: int| 0 <= i < o.len() ==> !((#[trigger] o[i]).0 is EolThenIndent) && !(o[i].0 is EolComment)
}
/// the tokens other than Eol which a ledger should yield, line by line; `start` is the kind of the last end-of-line, at the start of a line
spec fn lines<'a>(start: Option<Token<'a>>, s: Seq<RT<'a>>) -> Seq<RT<'a>> decreases s.len() via lines_dec {
    if s.len() == 0 { seq![] }
    else if eolish(s[0].0) { lines(Some(s[0].0), s.drop_first()) }
    else if start is Some && s[0].0 is Colon { lines(None, skip(s.drop_first())) }
    else { (if start is Some && start->0 is EolThenIndent { seq![indent()] } else { seq![] }) + seq![s[0]] + lines(None, s.drop_first()) }
}
#[via_fn]
proof fn lines_dec<'a>(start: Option<Token<'a>>, s: Seq<RT<'a>>) { if s.len() > 0 { skip_len(s.drop_first()); } }
spec fn indent<'a>() -> RT<'a> { (Token::Indent, Range { start: 0, end: 0 }) }
/// the stream without its ends of line, positions of indents disregarded
spec fn content<'a>(o: Seq<RT<'a>>) -> Seq<RT<'a>> decreases o.len() {
    if o.len() == 0 { seq![] }
    else if eolish(o[0].0) { content(o.drop_first()) }
    else { seq![if o[0].0 is Indent { indent() } else { o[0] }] + content(o.drop_first()) }
}
spec fn no_indent<'a>(s: Seq<RT<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]).0 is Indent) }
/// as folded, before the last step
spec fn folded<'a>(m: Seq<RT<'a>>) -> bool {
    &&& forall|i: int| 0 < i < m.len() && eolish((#[trigger] m[i]).0) ==> !eolish(m[i - 1].0)
    &&& forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 is Indent ==> i > 0 && m[i - 1].0 is Eol
    &&& forall|i: int| 0 <= i < m.len() ==> !((#[trigger] m[i]).0 is EolThenIndent)
}
proof fn skip_no_indent<'a>(s: Seq<RT<'a>>)
    requires no_indent(s),
    ensures no_indent(skip(s)),
    decreases s.len(),
{ if s.len() == 0 || eolish(s[0].0) {} else { skip_no_indent(s.drop_first()); } }

proof fn lead_no_indent<'a>(s: Seq<RT<'a>>)
    requires no_indent(s),
    ensures no_indent(lead(s)), lead(s).len() > 0 ==> !eolish(lead(s)[0].0) && !(lead(s)[0].0 is Colon),
    decreases s.len(),
{
    if s.len() == 0 {} else if eolish(s[0].0) { lead_no_indent(s.drop_first()); }
    else if s[0].0 is Colon { skip_len(s.drop_first()); skip_no_indent(s.drop_first()); lead_no_indent(skip(s.drop_first())); }
}
proof fn content_cat<'a>(a: Seq<RT<'a>>, b: Seq<RT<'a>>)
    ensures content(a + b) == content(a) + content(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(content(a) + content(b) =~= content(b)); }
    else {
        content_cat(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert(content(a + b) =~= content(a) + content(b));
    }
}
proof fn emit_content<'a>(t: RT<'a>)
    requires eolish(t.0),
    ensures content(emit(t)) =~= (if t.0 is EolThenIndent { seq![indent()] } else { seq![] }),
{ reveal_with_fuel(content, 3); assert(emit(t).drop_first().len() + 1 == emit(t).len()); }

proof fn lemma_merged<'a>(s: Seq<RT<'a>>)
    requires no_indent(s),
    ensures folded(merged(s)), content(merged(s)) == lines(None, s), merged(s).len() > 0 ==> !(merged(s)[0].0 is Indent),
        s.len() > 0 && !eolish(s[0].0) ==> merged(s).len() > 0 && merged(s)[0] == s[0],
    decreases s.len(), 0nat,
{
    if s.len() == 0 {} else if !eolish(s[0].0) {
        let r = s.drop_first();
        lemma_merged(r);
        content_cat(seq![s[0]], merged(r));
        reveal_with_fuel(content, 2);
        assert(content(seq![s[0]]) =~= seq![s[0]]) by { assert(seq![s[0]].drop_first() =~= Seq::empty()); }
        assert(lines(None, s) =~= seq![s[0]] + lines(None, r));
    } else { lemma_after(s[0], s.drop_first()); }
}
proof fn lemma_after<'a>(t: RT<'a>, s: Seq<RT<'a>>)
    requires no_indent(s), eolish(t.0),
    ensures folded(after(t, s)), content(after(t, s)) == lines(Some(t.0), s), after(t, s).len() > 0 ==> !(after(t, s)[0].0 is Indent),
    decreases s.len(), 1nat,
{
    emit_content(t);
    if s.len() == 0 { reveal_with_fuel(content, 2); assert(seq![last(t)].drop_first() =~= Seq::empty()); }
    else if eolish(s[0].0) { lemma_after(combine(t, s[0]), s.drop_first()); }
    else if s[0].0 is Colon { skip_len(s.drop_first()); skip_no_indent(s.drop_first()); lemma_merged(skip(s.drop_first())); }
    else {
        let r = s.drop_first();
        lemma_merged(r);
        content_cat(emit(t) + seq![s[0]], merged(r));
        content_cat(emit(t), seq![s[0]]);
        reveal_with_fuel(content, 2);
        assert(content(seq![s[0]]) =~= seq![s[0]]) by { assert(seq![s[0]].drop_first() =~= Seq::empty()); }
        let o = after(t, s);
        let k = emit(t).len() as int;
        assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 is Indent implies i > 0 && o[i - 1].0 is Eol by {
            if i > k { assert(o[i] == merged(r)[i - k - 1]); assert(o[i - 1] == merged(r)[i - k - 2]); }
        }
        assert forall|i: int| 0 < i < o.len() && eolish((#[trigger] o[i]).0) implies !eolish(o[i - 1].0) by {
            if i > k { assert(o[i] == merged(r)[i - k - 1]); if i > k + 1 { assert(o[i - 1] == merged(r)[i - k - 2]); } }
        }
        assert forall|i: int| 0 <= i < o.len() implies !((#[trigger] o[i]).0 is EolThenIndent) by {
            if i > k { assert(o[i] == merged(r)[i - k - 1]); }
        }
    }
}
proof fn lemma_out<'a>(prev: bool, any: bool, fe: Option<Range<usize>>, m: Seq<RT<'a>>)
    requires folded(m) || (prev && m.len() > 0 && m[0].0 is Indent && folded(seq![(Token::Eol, m[0].1)] + m)), prev && m.len() > 0 ==> !eolish(m[0].0), 
    ensures ({
        let o = out(prev, any, fe, m);
        &&& prev && o.len() > 0 ==> !(o[0].0 is Eol)
        &&& forall|i: int| 0 < i < o.len() && (#[trigger] o[i]).0 is Eol ==> !(o[i - 1].0 is Eol)
        &&& forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 is Indent ==> (i == 0 && prev) || (i > 0 && o[i - 1].0 is Eol)
        &&& forall|i: int| 0 <= i < o.len() ==> !((#[trigger] o[i]).0 is EolThenIndent) && !(o[i].0 is EolComment)
        &&& content(o) == content(m)
        &&& fe is Some && (o.len() > 0) ==> o.last().0 is Eol
        &&& o.len() == 0 ==> m.len() == 0
    }),
    decreases m.len(),
{
    reveal_with_fuel(content, 2);
    let o = out(prev, any, fe, m);
    if m.len() == 0 {
        if o.len() > 0 { assert(o.drop_first() =~= Seq::empty()); }
    } else {
        let r = m.drop_first();
        let e = fin(m[0]);
        let mm = if folded(m) { m } else { seq![(Token::Eol, m[0].1)] + m };
        let d = mm.len() - r.len();
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == mm[i + d] by {}
        if r.len() > 0 && r[0].0 is Indent { 
            assert(mm[d].0 is Indent);
            assert(mm[d - 1].0 is Eol);
            assert(m[0].0 is Eol);
            assert(seq![(Token::Eol, r[0].1)] + r =~= seq![(Token::Eol, r[0].1)] + r);
            let q = seq![(Token::<'a>::Eol, r[0].1)] + r;
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 == mm[i + d - 1].0 by { if i > 0 { assert(q[i] == r[i - 1]); } }
            assert(folded(q));
        } else {
            assert(folded(r)) by {
                assert forall|i: int| 0 < i < r.len() && eolish((#[trigger] r[i]).0) implies !eolish(r[i - 1].0) by { assert(r[i] == mm[i + d]); assert(r[i - 1] == mm[i + d - 1]); }
                assert forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 is Indent implies i > 0 && r[i - 1].0 is Eol by { assert(r[i] == mm[i + d]); if i > 0 { assert(r[i - 1] == mm[i + d - 1]); } }
            }
        }
        if r.len() > 0 && eolish(e.0) { assert(r[0] == mm[d]); assert(mm[d - 1] == m[0]); }
        lemma_out(e.0 is Eol, true, fe, r);
        let o1 = out(e.0 is Eol, true, fe, r);
        assert(o =~= seq![e] + o1);
        assert(o.drop_first() =~= o1);
        assert forall|i: int| 0 < i < o.len() && (#[trigger] o[i]).0 is Eol implies !(o[i - 1].0 is Eol) by { assert(o[i] == o1[i - 1]); if i > 1 { assert(o[i - 1] == o1[i - 2]); } }
        assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 is Indent implies (i == 0 && prev) || (i > 0 && o[i - 1].0 is Eol) by {
            if i > 0 { assert(o[i] == o1[i - 1]); if i > 1 { assert(o[i - 1] == o1[i - 2]); } } else { assert(m[0].0 is Indent); }
        }
        if fe is Some { if o1.len() > 0 { assert(o.last() == o1.last()); } else { assert(r.len() == 0); } }
    }
}

/// C04: for every stream of tokens from the lexer, what the handler yields is cleanly structured into lines,
/// ends with an end-of-line, and keeps every token of every line which is not ignored, with indents where lines begin with blanks
proof fn theorem_c04<'a>(s: Seq<RT<'a>>, fe: Option<Range<usize>>)
    requires no_indent(s),
    ensures
        lined(handled(s, fe)),
        content(handled(s, fe)) == lines(None, lead(s)),
        fe is Some && handled(s, fe).len() > 0 ==> handled(s, fe).last().0 is Eol,
{
    lead_no_indent(s);
    lemma_merged(lead(s));
    lemma_out(false, false, fe, merged(lead(s)));
    let m = merged(lead(s));
    if m.len() > 0 { assert(handled(s, fe)[0] == fin(m[0])); }
    if lead(s).len() == 0 { assert(m.len() == 0); }
}
