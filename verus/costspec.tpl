// Unit costspec: cost specifications, src/types.rs CostSpecBuilder and src/parsers.rs cost_spec (C12)
#![allow(unused)]
use vstd::prelude::*;
use std::mem::swap;
verus! {
@@include mem.inc
// ---------------------------------------------------------------- stubs
#[verifier::external_body] struct ExprValue { x: u8 }
#[verifier::external_body] struct Date { x: u8 }
#[verifier::external_body] struct Currency<'a> { x: &'a u8 }
#[derive(Clone, Copy)] struct Span_ { start: usize, end: usize, context: usize }
// an error of chumsky's
struct Rich { at: Span_, says: String }
impl Rich {
    fn custom(span: Span_, m: String) -> (r: Rich) ensures r.at == span, r.says == m { Rich { at: span, says: m } }
}
#[derive(Clone, Copy)]
@@item src/types.rs Span;
@@item src/types.rs Spanned;
@@item src/types.rs CompoundExprValue;
@@item src/types.rs CompoundAmount;
@@item src/types.rs CostSpec;
@@item src/types.rs CostSpecBuilder;
@@item src/types.rs CostSpecError;
@@item src/types.rs CostSpecErrorKind;
@@item src/types.rs CostSpecErrors;
@@item src/parsers.rs CostComp;
uninterp spec fn rendered(e: Seq<CostSpecError>) -> Seq<char>;
impl CostSpecErrors {
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == rendered(self.0@) { unimplemented!() }
}
// derived
impl<'a> CostSpecBuilder<'a> {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r.per_unit is None, r.total is None, r.currency is None, r.date is None, r.label is None, !r.merge, r.errors@ =~= Seq::<CostSpecError>::empty(),
    { unimplemented!() }
}
// iterators: one thing, then others; folding
struct Things<T> { v: Vec<T> }
#[verifier::external_body]
fn once<T>(x: T) -> (r: Things<T>) ensures r.v@ == seq![x] { unimplemented!() }
spec fn folded<B, T, F: FnOnce(B, T) -> B>(f: F, s: Seq<T>, init: B, r: B) -> bool decreases s.len() {
    if s.len() == 0 { r == init } else { exists|m: B| folded(f, s.drop_last(), init, m) && #[trigger] f.ensures((m, s.last()), r) }
}
impl<T> Things<T> {
    #[verifier::external_body]
    fn chain(self, tail: Vec<T>) -> (r: Things<T>) ensures r.v@ == self.v@ + tail@ { unimplemented!() }
    #[verifier::external_body]
    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, x: T| f.requires((b, x)),
        ensures folded(f, self.v@, init, r),
    { unimplemented!() }
}
@@fn src/types.rs spanned
@ret r
@spec
    ensures r.item == item, r.span == span,
@@end

// ---------------------------------------------------------------- specification
/// a component given: its kind, and what it contributes
enum Given<'a> { PerUnit(Spanned<ExprValue>), Total(Spanned<ExprValue>), Currency(Spanned<Currency<'a>>), Date(Spanned<Date>), Label(Spanned<&'a str>), Merge }
type K = CostSpecErrorKind;
spec fn kind_of(g: Given) -> K {
    match g { Given::PerUnit(_) => K::PerUnit, Given::Total(_) => K::Total, Given::Currency(_) => K::Currency, Given::Date(_) => K::Date, Given::Label(_) => K::Label, Given::Merge => K::MergeCost }
}
/// what a cost expression gives
spec fn gives_expr<'a>(v: CompoundExprValue, s: Span) -> Seq<Given<'a>> {
    match v {
        CompoundExprValue::PerUnit(x) => Seq::empty().push(Given::PerUnit(Spanned { item: x, span: s })),
        CompoundExprValue::Total(x) => Seq::empty().push(Given::Total(Spanned { item: x, span: s })),
        CompoundExprValue::PerUnitAndTotal(x, y) => Seq::empty().push(Given::PerUnit(Spanned { item: x, span: s })).push(Given::Total(Spanned { item: y, span: s })),
    }
}
/// what a component gives
spec fn gives<'a>(c: Spanned<CostComp<'a>>) -> Seq<Given<'a>> {
    match c.item {
        CostComp::CompoundAmount(CompoundAmount::BareCurrency(x)) => Seq::empty().push(Given::Currency(Spanned { item: x, span: c.span })),
        CostComp::CompoundAmount(CompoundAmount::BareAmount(v)) => gives_expr(v, c.span),
        CostComp::CompoundAmount(CompoundAmount::CurrencyAmount(v, x)) => gives_expr(v, c.span).push(Given::Currency(Spanned { item: x, span: c.span })),
        CostComp::Date(x) => Seq::empty().push(Given::Date(Spanned { item: x, span: c.span })),
        CostComp::Label(x) => Seq::empty().push(Given::Label(Spanned { item: x, span: c.span })),
        CostComp::Merge => Seq::empty().push(Given::Merge),
    }
}
spec fn gives_all<'a>(s: Seq<Spanned<CostComp<'a>>>) -> Seq<Given<'a>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { gives_all(s.drop_last()) + gives(s.last()) }
}
/// how often kind k is given
spec fn count(s: Seq<Given>, k: K) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { count(s.drop_last(), k) + if kind_of(s.last()) == k { 1nat } else { 0 } }
}
/// the first given of kind k
spec fn first<'a>(s: Seq<Given<'a>>, k: K) -> Option<Given<'a>> decreases s.len() {
    if s.len() == 0 { None } else {
        match first(s.drop_last(), k) { Some(g) => Some(g), None => if kind_of(s.last()) == k { Some(s.last()) } else { None } }
    }
}
/// kinds given again, in order
spec fn again(s: Seq<Given>) -> Seq<CostSpecError> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if count(s.drop_last(), kind_of(s.last())) > 0 { again(s.drop_last()).push(CostSpecError(kind_of(s.last()))) }
    else { again(s.drop_last()) }
}
/// the builder holds what was given so far
spec fn holds<'a>(b: CostSpecBuilder<'a>, s: Seq<Given<'a>>) -> bool {
    &&& holds_field(b.per_unit, first(s, K::PerUnit), |g: Given<'a>| g->PerUnit_0)
    &&& holds_field(b.total, first(s, K::Total), |g: Given<'a>| g->Total_0)
    &&& holds_field(b.currency, first(s, K::Currency), |g: Given<'a>| g->Currency_0)
    &&& holds_field(b.date, first(s, K::Date), |g: Given<'a>| g->Date_0)
    &&& holds_field(b.label, first(s, K::Label), |g: Given<'a>| g->Label_0)
    &&& b.merge == (first(s, K::MergeCost) is Some)
    &&& b.errors@ =~= again(s)
}
spec fn holds_field<'a, T>(f: Option<T>, g: Option<Given<'a>>, of: spec_fn(Given<'a>) -> T) -> bool {
    match g { Some(g) => f == Some(of(g)), None => f is None }
}
proof fn first_is(s: Seq<Given>, k: K)
    ensures (first(s, k) is Some) == (count(s, k) > 0), first(s, k) is Some ==> kind_of(first(s, k)->0) == k,
    decreases s.len(),
{ if s.len() > 0 { first_is(s.drop_last(), k); } }
proof fn firsts(s: Seq<Given>)
    ensures forall|k: K| (#[trigger] first(s, k) is Some) == (count(s, k) > 0) && (first(s, k) is Some ==> kind_of(first(s, k)->0) == k),
{ assert forall|k: K| (#[trigger] first(s, k) is Some) == (count(s, k) > 0) && (first(s, k) is Some ==> kind_of(first(s, k)->0) == k) by { first_is(s, k); } }
/// giving one more
proof fn one_more<'a>(s: Seq<Given<'a>>, g: Given<'a>)
    ensures
        forall|k: K| #[trigger] first(s.push(g), k) == (if first(s, k) is Some { first(s, k) } else if kind_of(g) == k { Some(g) } else { None }),
        again(s.push(g)) == (if first(s, kind_of(g)) is Some { again(s).push(CostSpecError(kind_of(g))) } else { again(s) }),
{
    firsts(s);
    assert(s.push(g).drop_last() =~= s);
    assert(s.push(g).last() == g);
    assert forall|k: K| #[trigger] first(s.push(g), k) == (if first(s, k) is Some { first(s, k) } else if kind_of(g) == k { Some(g) } else { None }) by {}
}
/// for every history
proof fn one_more_all<'a>(b: CostSpecBuilder<'a>)
    ensures
        forall|s: Seq<Given<'a>>| #[trigger] holds(b, s) ==> again(s) == b.errors@,
        forall|s: Seq<Given<'a>>, g: Given<'a>, k: K| #[trigger] first(s.push(g), k) == (if first(s, k) is Some { first(s, k) } else if kind_of(g) == k { Some(g) } else { None }),
        forall|s: Seq<Given<'a>>, g: Given<'a>| #[trigger] again(s.push(g)) == (if first(s, kind_of(g)) is Some { again(s).push(CostSpecError(kind_of(g))) } else { again(s) }),
{
    assert forall|s: Seq<Given<'a>>| #[trigger] holds(b, s) implies again(s) == b.errors@ by { assert(again(s) =~= b.errors@); }
    assert forall|s: Seq<Given<'a>>, g: Given<'a>, k: K| #[trigger] first(s.push(g), k) == (if first(s, k) is Some { first(s, k) } else if kind_of(g) == k { Some(g) } else { None }) by { one_more(s, g); }
    assert forall|s: Seq<Given<'a>>, g: Given<'a>| #[trigger] again(s.push(g)) == (if first(s, kind_of(g)) is Some { again(s).push(CostSpecError(kind_of(g))) } else { again(s) }) by { one_more(s, g); }
}
impl<'a> CostSpecBuilder<'a> {
@@fn src/types.rs CostSpecBuilder::per_unit
@ret r
@spec
    ensures forall|s: Seq<Given<'a>>| #[trigger] holds(self, s) ==> holds(r, s.push(Given::PerUnit(value))), // [C12]
@start
    proof { one_more_all(self); }
@@end
@@fn src/types.rs CostSpecBuilder::total
@ret r
@spec
    ensures forall|s: Seq<Given<'a>>| #[trigger] holds(self, s) ==> holds(r, s.push(Given::Total(value))), // [C12]
@start
    proof { one_more_all(self); }
@@end
@@fn src/types.rs CostSpecBuilder::currency
@ret r
@spec
    ensures forall|s: Seq<Given<'a>>| #[trigger] holds(self, s) ==> holds(r, s.push(Given::Currency(Spanned { item: value, span }))), // [C12]
@start
    proof { one_more_all(self); }
@@end
@@fn src/types.rs CostSpecBuilder::date
@ret r
@spec
    ensures forall|s: Seq<Given<'a>>| #[trigger] holds(self, s) ==> holds(r, s.push(Given::Date(Spanned { item: value, span }))), // [C12]
@start
    proof { one_more_all(self); }
@@end
@@fn src/types.rs CostSpecBuilder::label
@ret r
@spec
    ensures forall|s: Seq<Given<'a>>| #[trigger] holds(self, s) ==> holds(r, s.push(Given::Label(Spanned { item: value, span }))), // [C12]
@start
    proof { one_more_all(self); }
@@end
@@fn src/types.rs CostSpecBuilder::merge
@ret r
@spec
    ensures forall|s: Seq<Given<'a>>| #[trigger] holds(self, s) ==> holds(r, s.push(Given::Merge)), // [C12]
@start
    proof { one_more_all(self); }
@@end
@@fn src/types.rs CostSpecBuilder::compound_expr
@ret r
@spec
    ensures forall|s: Seq<Given<'a>>| #[trigger] holds(self, s) ==> holds(r, s + gives_expr(value, span)), // [C12]
@start
    proof { sums::<Given<'a>>(); }
@@end
@@fn src/types.rs CostSpecBuilder::build
@ret r
@spec
    ensures forall|s: Seq<Given<'a>>| #[trigger] holds(*old(self), s) ==> built(s, r), // [C12]
@start
    proof { one_more_all(*self); }
@@end
}
/// C12: what was given, or the kinds given again
spec fn built<'a>(s: Seq<Given<'a>>, r: Result<CostSpec<'a>, CostSpecErrors>) -> bool {
    match r {
        Ok(c) => {
            &&& again(s).len() == 0
            &&& holds_field(c.per_unit, first(s, K::PerUnit), |g: Given<'a>| g->PerUnit_0)
            &&& holds_field(c.total, first(s, K::Total), |g: Given<'a>| g->Total_0)
            &&& holds_field(c.currency, first(s, K::Currency), |g: Given<'a>| g->Currency_0)
            &&& holds_field(c.date, first(s, K::Date), |g: Given<'a>| g->Date_0)
            &&& holds_field(c.label, first(s, K::Label), |g: Given<'a>| g->Label_0)
            &&& c.merge == (first(s, K::MergeCost) is Some)
        },
        Err(e) => again(s).len() > 0 && e.0@ =~= again(s),
    }
}
proof fn sums<T>()
    ensures forall|s: Seq<T>| #[trigger] (s + Seq::<T>::empty()) == s, forall|s: Seq<T>, t: Seq<T>, x: T| #[trigger] (s + t.push(x)) == (s + t).push(x),
{
    assert forall|s: Seq<T>| #[trigger] (s + Seq::<T>::empty()) == s by { assert(s + Seq::<T>::empty() =~= s); }
    assert forall|s: Seq<T>, t: Seq<T>, x: T| #[trigger] (s + t.push(x)) == (s + t).push(x) by { assert(s + t.push(x) =~= (s + t).push(x)); }
}

// ---------------------------------------------------------------- collecting the components
/// folding a step which records what each component gives records what all of them give
proof fn fold_holds<'a, F: FnMut(CostSpecBuilder<'a>, Spanned<CostComp<'a>>) -> CostSpecBuilder<'a>>(f: F, s: Seq<Spanned<CostComp<'a>>>, init: CostSpecBuilder<'a>, r: CostSpecBuilder<'a>)
    requires
        folded(f, s, init, r), holds(init, Seq::<Given<'a>>::empty()),
        forall|b: CostSpecBuilder<'a>, c: Spanned<CostComp<'a>>, q: CostSpecBuilder<'a>, h: Seq<Given<'a>>| #[trigger] f.ensures((b, c), q) && #[trigger] holds(b, h) ==> holds(q, h + gives(c)),
    ensures holds(r, gives_all(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let m = choose|m: CostSpecBuilder<'a>| folded(f, s.drop_last(), init, m) && #[trigger] f.ensures((m, s.last()), r);
        fold_holds(f, s.drop_last(), init, m);
    }
}
broadcast proof fn fold_holds_b<'a, F: FnMut(CostSpecBuilder<'a>, Spanned<CostComp<'a>>) -> CostSpecBuilder<'a>>(f: F, s: Seq<Spanned<CostComp<'a>>>, init: CostSpecBuilder<'a>, r: CostSpecBuilder<'a>)
    requires
        #[trigger] folded(f, s, init, r), holds(init, Seq::<Given<'a>>::empty()),
        forall|b: CostSpecBuilder<'a>, c: Spanned<CostComp<'a>>, q: CostSpecBuilder<'a>, h: Seq<Given<'a>>| #[trigger] f.ensures((b, c), q) && #[trigger] holds(b, h) ==> holds(q, h + gives(c)),
    ensures holds(r, gives_all(s)),
{ fold_holds(f, s, init, r); }
spec fn components<'a>(c: Option<(Spanned<CostComp<'a>>, Vec<Spanned<CostComp<'a>>>)>) -> Seq<Spanned<CostComp<'a>>> {
    match c { Some((head, tail)) => seq![head] + tail@, None => Seq::empty() }
}
@@closure src/parsers.rs cost_spec try_map#0
@sig
fn cost_spec_of<'a>(p0: Option<(Spanned<CostComp<'a>>, Vec<Spanned<CostComp<'a>>>)>, p1: Span_) -> (r: Result<CostSpec<'a>, Rich>)
@spec
    ensures
        r is Ok ==> built(gives_all(components(p0)), Ok(r->Ok_0)), // [C12]
        r is Err ==> (r->Err_0).at == p1 && exists|e: CostSpecErrors| built(gives_all(components(p0)), Err(e)) && (r->Err_0).says@ == rendered(e.0@), // [C12]
@start
    use self::CompoundAmount::*;
    use CostComp::*;
    broadcast use fold_holds_b;
    proof { sums::<Given<'a>>(); }
@closure fold#0
|builder: CostSpecBuilder<'a>, cost_comp: Spanned<CostComp<'a>>| -> (q: CostSpecBuilder<'a>)
    ensures forall|h: Seq<Given<'a>>| #[trigger] holds(builder, h) ==> holds(q, h + gives(cost_comp))
    { proof { sums::<Given<'a>>(); } $body }
@before? builder.build()
    proof { assert(components(p0).len() == 0 ==> holds(builder, Seq::empty())); assert(components(p0).len() > 0 ==> holds(builder, gives_all(components(p0)))); }
@closure map_err#0
|e: CostSpecErrors| -> (q: Rich) ensures q.at == span, q.says@ == rendered(e.0@) { $body }
@@end
impl<'a> CostSpec<'a> {
@@fn src/types.rs CostSpec::per_unit
@ret r
@spec
    ensures (r is Some) == (self.per_unit is Some), r is Some ==> *r->0 == self.per_unit->0, // [C12]
@@end
@@fn src/types.rs CostSpec::total
@ret r
@spec
    ensures (r is Some) == (self.total is Some), r is Some ==> *r->0 == self.total->0, // [C12]
@@end
@@fn src/types.rs CostSpec::currency
@ret r
@spec
    ensures (r is Some) == (self.currency is Some), r is Some ==> *r->0 == self.currency->0, // [C12]
@@end
@@fn src/types.rs CostSpec::date
@ret r
@spec
    ensures (r is Some) == (self.date is Some), r is Some ==> *r->0 == self.date->0, // [C12]
@@end
@@fn src/types.rs CostSpec::label
@ret r
@spec
    ensures (r is Some) == (self.label is Some), r is Some ==> *r->0 == self.label->0, // [C12]
@@end
@@fn src/types.rs CostSpec::merge
@ret r
@spec
    ensures r == self.merge, // [C12]
@@end
}
// the pieces of a component
@@closure src/parsers.rs compound_expr map#0
@sig
fn both_of(p0: (ExprValue, ExprValue)) -> (r: CompoundExprValue)
@spec
    ensures r == CompoundExprValue::PerUnitAndTotal(p0.0, p0.1), // [C12]
@start
    use CompoundExprValue::*;
@@end
@@closure src/parsers.rs compound_amount map#0
@sig
fn amount_of<'a>(p0: (CompoundExprValue, Currency<'a>)) -> (r: CompoundAmount<'a>)
@spec
    ensures r == CompoundAmount::CurrencyAmount(p0.0, p0.1), // [C12]
@start
    use CompoundAmount::*;
@@end
// ---------------------------------------------------------------- the property
/// refused exactly if some component is given more than once, naming exactly those
proof fn theorem_c12(s: Seq<Given>)
    ensures
        forall|k: K| (#[trigger] count(s, k) > 1) == again(s).contains(CostSpecError(k)),
        (again(s).len() == 0) == (forall|k: K| #[trigger] count(s, k) <= 1),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        let g = kind_of(s.last());
        theorem_c12(t);
        assert forall|k: K| (#[trigger] count(s, k) > 1) == again(s).contains(CostSpecError(k)) by {
            assert((count(t, k) > 1) == again(t).contains(CostSpecError(k)));
            if count(t, g) > 0 {
                let a = again(t).push(CostSpecError(g));
                assert(again(s) == a);
                if again(t).contains(CostSpecError(k)) { let i = again(t).index_of(CostSpecError(k)); assert(a[i] == CostSpecError(k)); }
                if k == g { assert(a[again(t).len() as int] == CostSpecError(k)); }
                if a.contains(CostSpecError(k)) && k != g { let i = a.index_of(CostSpecError(k)); assert(again(t)[i] == CostSpecError(k)); }
            }
        }
        if again(s).len() > 0 { let CostSpecError(k) = again(s)[0]; assert(again(s).contains(CostSpecError(k))); assert(count(s, k) > 1); }
        if exists|k: K| count(s, k) > 1 { let k = choose|k: K| count(s, k) > 1; assert(again(s).contains(CostSpecError(k))); }
    } else {
        assert forall|k: K| (#[trigger] count(s, k) > 1) == again(s).contains(CostSpecError(k)) by {}
    }
}
}
