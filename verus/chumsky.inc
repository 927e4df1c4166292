// ---------------------------------------------------------------- assumed: chumsky's combinators, each by what it does with a sequence of tokens
// A parser, run on the tokens i from position a with the parser state st, yields a value and the position it got to, or fails; either way it leaves
// a parser state (which is not rewound on failure), and it emits a number of errors (which are dropped on failure).
type In<'s> = Seq<(Token<'s>, Span)>;
#[verifier::external_body] struct St { x: u8 }
struct Res<O> { out: Option<(O, int)>, st: St, errs: int }
impl<O> Res<O> {
    spec fn ok(self) -> bool { self.out is Some }
    spec fn end(self) -> int { (self.out->0).1 }
    spec fn val(self) -> O { (self.out->0).0 }
}
type Sem<'s, O> = spec_fn(In<'s>, int, St) -> Res<O>;
#[verifier::external_body] #[verifier::reject_recursive_types(O)] struct P<'s, O> { x: &'s O }
impl<'s, O> P<'s, O> {
    uninterp spec fn sem(self) -> Sem<'s, O>;
    spec fn run(self, i: In<'s>, a: int, st: St) -> Res<O> { (self.sem())(i, a, st) }
}
proof fn same<'s, O>(p: P<'s, O>, s: Sem<'s, O>)
    requires forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == s(i, a, st),
    ensures p.sem() == s,
{
    assert forall|i: In<'s>, a: int, st: St| #[trigger] (p.sem())(i, a, st) == s(i, a, st) by { assert(p.run(i, a, st) == s(i, a, st)); }
    assert(p.sem() =~= s);
}

// ---- what the combinators do
spec fn fails<O>(st: St) -> Res<O> { Res { out: None, st, errs: 0 } }
spec fn yields<O>(v: O, end: int, st: St) -> Res<O> { Res { out: Some((v, end)), st, errs: 0 } }
/// the result x with the value v in place of its own
spec fn with<A, B>(x: Res<A>, v: B) -> Res<B> { if x.ok() { Res { out: Some((v, x.end())), st: x.st, errs: x.errs } } else { fails(x.st) } }
/// x, then y from where x ended
spec fn seq2<A, B>(x: Res<A>, y: Res<B>) -> Res<(A, B)> {
    if !x.ok() { fails(x.st) } else if !y.ok() { fails(y.st) } else { Res { out: Some(((x.val(), y.val()), y.end())), st: y.st, errs: x.errs + y.errs } }
}
spec fn seq_last<A, B>(x: Res<A>, y: Res<B>) -> Res<B> { let z = seq2(x, y); with(z, z.val().1) }
spec fn seq_first<A, B>(x: Res<A>, y: Res<B>) -> Res<A> { let z = seq2(x, y); with(z, z.val().0) }
spec fn opt<A>(x: Res<A>, a: int) -> Res<Option<A>> { if x.ok() { with(x, Some(x.val())) } else { yields(None, a, x.st) } }
spec fn alt<A>(x: Res<A>, y: Res<A>) -> Res<A> { if x.ok() { x } else { y } }
spec fn token_g<'s>(t: Token<'s>, i: In<'s>, a: int, st: St) -> Res<Token<'s>> { if 0 <= a < i.len() && i[a].0 == t { yields(t, a + 1, st) } else { fails(st) } }
spec fn end_g<'s>(i: In<'s>, a: int, st: St) -> Res<()> { if a >= i.len() { yields((), a, st) } else { fails(st) } }
spec fn any_g<'s>(i: In<'s>, a: int, st: St) -> Res<Token<'s>> { if 0 <= a < i.len() { yields(i[a].0, a + 1, st) } else { fails(st) } }
/// p as often as it succeeds
spec fn many<'s, O>(p: Sem<'s, O>, i: In<'s>, a: int, st: St) -> Res<Seq<O>> decreases i.len() - a {
    let x = p(i, a, st);
    if !x.ok() || x.end() <= a || x.end() > i.len() { yields(seq![], a, x.st) }
    else { let y = many(p, i, x.end(), x.st); Res { out: Some((seq![x.val()] + y.val(), y.end())), st: y.st, errs: x.errs + y.errs } }
}
/// on failure, p from a later position, the first at which it succeeds without an error; which is an error
spec fn retry<'s, O>(p: Sem<'s, O>, i: In<'s>, a: int, st: St) -> Res<O> decreases i.len() - a {
    if a >= i.len() { fails(st) } else {
        let x = p(i, a + 1, st);
        if x.ok() && x.errs == 0 { Res { out: x.out, st: x.st, errs: 1 } } else { retry(p, i, a + 1, x.st) }
    }
}
/// where the tokens from a up to b stand in the source
spec fn span_of<'s>(i: In<'s>, a: int, b: int) -> Span {
    if 0 <= a < b <= i.len() { Span { source: i[a].1.source, start: i[a].1.start, end: i[b - 1].1.end } } else { span_of_none(i, a) }
}
uninterp spec fn span_of_none<'s>(i: In<'s>, a: int) -> Span;
spec fn with_span<'s, A>(x: Res<A>, i: In<'s>, a: int) -> Res<Spanned<A>> { with(x, Spanned { item: x.val(), span: span_of(i, a, x.end()) }) }

// ---- functions given to combinators
spec fn mapped<A, B, F: Fn(A) -> B>(f: F, x: Res<A>, y: Res<B>) -> bool {
    &&& y == with(x, y.val())
    &&& x.ok() ==> f.ensures((x.val(),), y.val())
}
spec fn mapped_with<'s, A, B, F: Fn(A, MapExtra) -> B>(f: F, i: In<'s>, a: int, x: Res<A>, y: Res<B>) -> bool {
    &&& y == with(x, y.val())
    &&& x.ok() ==> f.ensures((x.val(), MapExtra { at: Ghost(span_of(i, a, x.end())) }), y.val())
}
spec fn tried<'s, A, B, F: Fn(A, Span_) -> Result<B, ParserError<'s>>>(f: F, i: In<'s>, a: int, x: Res<A>, y: Res<B>) -> bool {
    &&& !x.ok() ==> y == fails::<B>(x.st)
    &&& x.ok() && y.ok() ==> y == with(x, y.val()) && f.ensures((x.val(), Span_ { at: Ghost(span_of(i, a, x.end())) }), Ok(y.val()))
    &&& x.ok() && !y.ok() ==> y == fails::<B>(x.st) && exists|e: ParserError<'s>| #[trigger] f.ensures((x.val(), Span_ { at: Ghost(span_of(i, a, x.end())) }), Err(e))
}
spec fn selected<'s, U, F: Fn(&Token<'s>) -> Option<U>>(f: F, i: In<'s>, a: int, st: St, y: Res<U>) -> bool {
    if 0 <= a < i.len() {
        &&& y.ok() ==> f.ensures((&i[a].0,), Some(y.val())) && y == yields(y.val(), a + 1, st)
        &&& !y.ok() ==> f.ensures((&i[a].0,), None) && y == fails::<U>(st)
    } else { y == fails::<U>(st) }
}
/// a function which also emits errors, or reads or changes the parser state: by the contract proved of it
trait Checks<A, B> { spec fn made(self, x: A) -> (B, int); }
trait Reads<A, B> { spec fn got(self, x: A, st: St) -> Option<B>; }
trait Notes<A, B> { spec fn noted(self, x: A, span: Span, st: St) -> (B, int, St); }

// the span which map_with gives, and that which try_map gives
struct MapExtra { at: Ghost<Span> }
struct Span_ { at: Ghost<Span> }
impl MapExtra {
    spec fn span_s(self) -> Span_ { Span_ { at: self.at } }
    #[verifier::when_used_as_spec(span_s)]
    fn span(self) -> (r: Span_) ensures r == self.span_s() { Span_ { at: self.at } }
}

// ---- the combinators
#[verifier::external_body]
fn just<'s>(t: Token<'s>) -> (p: P<'s, Token<'s>>) ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == token_g(t, i, a, st) { unimplemented!() }
#[verifier::external_body]
fn any_ref<'s>() -> (p: P<'s, Token<'s>>) ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == any_g(i, a, st) { unimplemented!() }
#[verifier::external_body]
fn end<'s>() -> (p: P<'s, ()>) ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == end_g(i, a, st) { unimplemented!() }
#[verifier::external_body]
fn select<'s, U, F: Fn(&Token<'s>) -> Option<U>>(f: F) -> (p: P<'s, U>)
    requires forall|x: &Token<'s>| f.requires((x,)),
    ensures forall|i: In<'s>, a: int, st: St| selected(f, i, a, st, #[trigger] p.run(i, a, st)),
{ unimplemented!() }
struct SkipThenRetryUntil<'s> { skip: P<'s, ()>, until: P<'s, ()> }
fn skip_then_retry_until<'s>(skip: P<'s, ()>, until: P<'s, ()>) -> (r: SkipThenRetryUntil<'s>) ensures r.skip == skip, r.until == until { SkipThenRetryUntil { skip, until } }
impl<'s, O> P<'s, O> {
    #[verifier::external_body]
    fn map<U, F: Fn(O) -> U>(self, f: F) -> (p: P<'s, U>)
        requires forall|x: O| f.requires((x,)),
        ensures forall|i: In<'s>, a: int, st: St| mapped(f, self.run(i, a, st), #[trigger] p.run(i, a, st)),
    { unimplemented!() }
    #[verifier::external_body]
    fn map_with<U, F: Fn(O, MapExtra) -> U>(self, f: F) -> (p: P<'s, U>)
        requires forall|x: O, e: MapExtra| f.requires((x, e)),
        ensures forall|i: In<'s>, a: int, st: St| mapped_with(f, i, a, self.run(i, a, st), #[trigger] p.run(i, a, st)),
    { unimplemented!() }
    #[verifier::external_body]
    fn try_map<U, F: Fn(O, Span_) -> Result<U, ParserError<'s>>>(self, f: F) -> (p: P<'s, U>)
        requires forall|x: O, e: Span_| f.requires((x, e)),
        ensures forall|i: In<'s>, a: int, st: St| tried(f, i, a, self.run(i, a, st), #[trigger] p.run(i, a, st)),
    { unimplemented!() }
    #[verifier::external_body]
    fn validate<U, F: Checks<O, U>>(self, f: F) -> (p: P<'s, U>)
        ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == checked(f, self.run(i, a, st)),
    { unimplemented!() }
    #[verifier::external_body]
    fn try_map_with<U, F: Reads<O, U>>(self, f: F) -> (p: P<'s, U>)
        ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == read_with(f, self.run(i, a, st)),
    { unimplemented!() }
    // a map_with or validate which changes the parser state
    #[verifier::external_body]
    fn noting<U, F: Notes<O, U>>(self, f: F) -> (p: P<'s, U>)
        ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == noted_with(f, i, a, self.run(i, a, st)),
    { unimplemented!() }
    #[verifier::external_body]
    fn to<U>(self, u: U) -> (p: P<'s, U>) ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == with(self.run(i, a, st), u) { unimplemented!() }
    #[verifier::external_body]
    fn ignored(self) -> (p: P<'s, ()>) ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == with(self.run(i, a, st), ()) { unimplemented!() }
    #[verifier::external_body]
    fn then<U>(self, o: P<'s, U>) -> (p: P<'s, (O, U)>)
        ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == ({ let x = self.run(i, a, st); seq2(x, o.run(i, x.end(), x.st)) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn ignore_then<U>(self, o: P<'s, U>) -> (p: P<'s, U>)
        ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == ({ let x = self.run(i, a, st); seq_last(x, o.run(i, x.end(), x.st)) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn then_ignore<U>(self, o: P<'s, U>) -> (p: P<'s, O>)
        ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == ({ let x = self.run(i, a, st); seq_first(x, o.run(i, x.end(), x.st)) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn delimited_by<U, V>(self, l: P<'s, U>, r: P<'s, V>) -> (p: P<'s, O>)
        ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == ({ let x = l.run(i, a, st); let y = self.run(i, x.end(), x.st); let z = seq_last(x, y); seq_first(z, r.run(i, z.end(), z.st)) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn or(self, o: P<'s, O>) -> (p: P<'s, O>)
        ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == ({ let x = self.run(i, a, st); alt(x, o.run(i, a, x.st)) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn or_not(self) -> (p: P<'s, Option<O>>) ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == opt(self.run(i, a, st), a) { unimplemented!() }
    #[verifier::external_body]
    fn recover_with(self, s: SkipThenRetryUntil<'s>) -> (p: P<'s, O>)
        requires
            forall|i: In<'s>, a: int, st: St| #[trigger] s.skip.run(i, a, st) == ({ let x = any_g(i, a, st); with(x, ()) }),
            forall|i: In<'s>, a: int, st: St| #[trigger] s.until.run(i, a, st) == end_g(i, a, st),
        ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == ({ let x = self.run(i, a, st); alt(x, retry(self.sem(), i, a, x.st)) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn labelled(self, l: &str) -> (p: P<'s, O>) ensures p == self { unimplemented!() }
    #[verifier::external_body]
    fn as_context(self) -> (p: P<'s, O>) ensures p == self { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (p: P<'s, O>) ensures p == *self { unimplemented!() }
    #[verifier::external_body]
    fn repeated(self) -> (p: Rep<'s, O>) ensures p.item() == self.sem() { unimplemented!() }
    // itself, which does s
    fn known_as(self, Ghost(s): Ghost<Sem<'s, O>>) -> (p: P<'s, O>)
        requires forall|i: In<'s>, a: int, st: St| #[trigger] self.run(i, a, st) == s(i, a, st),
        ensures p == self, p.sem() == s,
    { proof { same(self, s); } self }
}
spec fn checked<A, B, F: Checks<A, B>>(f: F, x: Res<A>) -> Res<B> {
    if x.ok() { let m = f.made(x.val()); Res { out: Some((m.0, x.end())), st: x.st, errs: x.errs + m.1 } } else { fails(x.st) }
}
spec fn read_with<A, B, F: Reads<A, B>>(f: F, x: Res<A>) -> Res<B> {
    if x.ok() && f.got(x.val(), x.st) is Some { with(x, f.got(x.val(), x.st)->0) } else { fails(x.st) }
}
spec fn noted_with<'s, A, B, F: Notes<A, B>>(f: F, i: In<'s>, a: int, x: Res<A>) -> Res<B> {
    if x.ok() { let m = f.noted(x.val(), span_of(i, a, x.end()), x.st); Res { out: Some((m.0, x.end())), st: m.2, errs: x.errs + m.1 } } else { fails(x.st) }
}
#[verifier::external_body] #[verifier::reject_recursive_types(O)] struct Rep<'s, O> { x: &'s O }
trait OfSeq<O>: Sized { spec fn of(s: Seq<O>) -> Self; }
impl<O> OfSeq<O> for Vec<O> { spec fn of(s: Seq<O>) -> Vec<O> { vec_of(s) } }
uninterp spec fn vec_of<O>(s: Seq<O>) -> Vec<O>;
broadcast axiom fn vec_of_view<O>(s: Seq<O>) ensures #[trigger] vec_of(s)@ == s;
spec fn many_of<'s, O, C: OfSeq<O>>(p: Sem<'s, O>, i: In<'s>, a: int, st: St) -> Res<C> { let x = many(p, i, a, st); with(x, C::of(x.val())) }
impl<'s, O> Rep<'s, O> {
    uninterp spec fn item(self) -> Sem<'s, O>;
    #[verifier::external_body]
    fn collect<C: OfSeq<O>>(self) -> (p: P<'s, C>) ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == many_of::<O, C>(self.item(), i, a, st) { unimplemented!() }
}
// choice and group, of tuples of parsers
trait Choice<'s, O>: Sized { spec fn first(self, i: In<'s>, a: int, st: St) -> Res<O>; }
trait Group<'s, O>: Sized { spec fn all(self, i: In<'s>, a: int, st: St) -> Res<O>; }
#[verifier::external_body]
fn choice<'s, O, T: Choice<'s, O>>(t: T) -> (p: P<'s, O>) ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == t.first(i, a, st) { unimplemented!() }
#[verifier::external_body]
fn group<'s, O, T: Group<'s, O>>(t: T) -> (p: P<'s, O>) ensures forall|i: In<'s>, a: int, st: St| #[trigger] p.run(i, a, st) == t.all(i, a, st) { unimplemented!() }
impl<'s, O> Choice<'s, O> for (P<'s, O>, P<'s, O>) { spec fn first(self, i: In<'s>, a: int, st: St) -> Res<O> { let x0 = self.0.run(i, a, st); let x1 = alt(x0, self.1.run(i, a, x0.st)); x1 } }
impl<'s, O> Choice<'s, O> for (P<'s, O>, P<'s, O>, P<'s, O>) { spec fn first(self, i: In<'s>, a: int, st: St) -> Res<O> { let x0 = self.0.run(i, a, st); let x1 = alt(x0, self.1.run(i, a, x0.st)); let x2 = alt(x1, self.2.run(i, a, x1.st)); x2 } }
impl<'s, O> Choice<'s, O> for (P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>) { spec fn first(self, i: In<'s>, a: int, st: St) -> Res<O> { let x0 = self.0.run(i, a, st); let x1 = alt(x0, self.1.run(i, a, x0.st)); let x2 = alt(x1, self.2.run(i, a, x1.st)); let x3 = alt(x2, self.3.run(i, a, x2.st)); x3 } }
impl<'s, O> Choice<'s, O> for (P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>) { spec fn first(self, i: In<'s>, a: int, st: St) -> Res<O> { let x0 = self.0.run(i, a, st); let x1 = alt(x0, self.1.run(i, a, x0.st)); let x2 = alt(x1, self.2.run(i, a, x1.st)); let x3 = alt(x2, self.3.run(i, a, x2.st)); let x4 = alt(x3, self.4.run(i, a, x3.st)); let x5 = alt(x4, self.5.run(i, a, x4.st)); let x6 = alt(x5, self.6.run(i, a, x5.st)); x6 } }
impl<'s, O> Choice<'s, O> for (P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>) { spec fn first(self, i: In<'s>, a: int, st: St) -> Res<O> { let x0 = self.0.run(i, a, st); let x1 = alt(x0, self.1.run(i, a, x0.st)); let x2 = alt(x1, self.2.run(i, a, x1.st)); let x3 = alt(x2, self.3.run(i, a, x2.st)); let x4 = alt(x3, self.4.run(i, a, x3.st)); let x5 = alt(x4, self.5.run(i, a, x4.st)); let x6 = alt(x5, self.6.run(i, a, x5.st)); let x7 = alt(x6, self.7.run(i, a, x6.st)); let x8 = alt(x7, self.8.run(i, a, x7.st)); x8 } }
impl<'s, O> Choice<'s, O> for (P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>, P<'s, O>) { spec fn first(self, i: In<'s>, a: int, st: St) -> Res<O> { let x0 = self.0.run(i, a, st); let x1 = alt(x0, self.1.run(i, a, x0.st)); let x2 = alt(x1, self.2.run(i, a, x1.st)); let x3 = alt(x2, self.3.run(i, a, x2.st)); let x4 = alt(x3, self.4.run(i, a, x3.st)); let x5 = alt(x4, self.5.run(i, a, x4.st)); let x6 = alt(x5, self.6.run(i, a, x5.st)); let x7 = alt(x6, self.7.run(i, a, x6.st)); let x8 = alt(x7, self.8.run(i, a, x7.st)); let x9 = alt(x8, self.9.run(i, a, x8.st)); let x10 = alt(x9, self.10.run(i, a, x9.st)); x10 } }
impl<'s, A, B> Group<'s, (A, B)> for (P<'s, A>, P<'s, B>) { spec fn all(self, i: In<'s>, a: int, st: St) -> Res<(A, B)> { let x0 = self.0.run(i, a, st); let x1 = seq2(x0, self.1.run(i, x0.end(), x0.st)); with(x1, ((x1.val()).0, (x1.val()).1)) } }
impl<'s, A, B, C> Group<'s, (A, B, C)> for (P<'s, A>, P<'s, B>, P<'s, C>) { spec fn all(self, i: In<'s>, a: int, st: St) -> Res<(A, B, C)> { let x0 = self.0.run(i, a, st); let x1 = seq2(x0, self.1.run(i, x0.end(), x0.st)); let x2 = seq2(x1, self.2.run(i, x1.end(), x1.st)); with(x2, (((x2.val()).0).0, ((x2.val()).0).1, (x2.val()).1)) } }
impl<'s, A, B, C, D> Group<'s, (A, B, C, D)> for (P<'s, A>, P<'s, B>, P<'s, C>, P<'s, D>) { spec fn all(self, i: In<'s>, a: int, st: St) -> Res<(A, B, C, D)> { let x0 = self.0.run(i, a, st); let x1 = seq2(x0, self.1.run(i, x0.end(), x0.st)); let x2 = seq2(x1, self.2.run(i, x1.end(), x1.st)); let x3 = seq2(x2, self.3.run(i, x2.end(), x2.st)); with(x3, ((((x3.val()).0).0).0, (((x3.val()).0).0).1, ((x3.val()).0).1, (x3.val()).1)) } }
impl<'s, A, B, C, D, E> Group<'s, (A, B, C, D, E)> for (P<'s, A>, P<'s, B>, P<'s, C>, P<'s, D>, P<'s, E>) { spec fn all(self, i: In<'s>, a: int, st: St) -> Res<(A, B, C, D, E)> { let x0 = self.0.run(i, a, st); let x1 = seq2(x0, self.1.run(i, x0.end(), x0.st)); let x2 = seq2(x1, self.2.run(i, x1.end(), x1.st)); let x3 = seq2(x2, self.3.run(i, x2.end(), x2.st)); let x4 = seq2(x3, self.4.run(i, x3.end(), x3.st)); with(x4, (((((x4.val()).0).0).0).0, ((((x4.val()).0).0).0).1, (((x4.val()).0).0).1, ((x4.val()).0).1, (x4.val()).1)) } }
impl<'s, A, B, C, D, E, F> Group<'s, (A, B, C, D, E, F)> for (P<'s, A>, P<'s, B>, P<'s, C>, P<'s, D>, P<'s, E>, P<'s, F>) { spec fn all(self, i: In<'s>, a: int, st: St) -> Res<(A, B, C, D, E, F)> { let x0 = self.0.run(i, a, st); let x1 = seq2(x0, self.1.run(i, x0.end(), x0.st)); let x2 = seq2(x1, self.2.run(i, x1.end(), x1.st)); let x3 = seq2(x2, self.3.run(i, x2.end(), x2.st)); let x4 = seq2(x3, self.4.run(i, x3.end(), x3.st)); let x5 = seq2(x4, self.5.run(i, x4.end(), x4.st)); with(x5, ((((((x5.val()).0).0).0).0).0, (((((x5.val()).0).0).0).0).1, ((((x5.val()).0).0).0).1, (((x5.val()).0).0).1, ((x5.val()).0).1, (x5.val()).1)) } }
