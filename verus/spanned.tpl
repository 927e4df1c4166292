// Unit spanned: source positions are transparent, src/types.rs Spanned (C18)
#![allow(unused)]
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- stubs: the traits of std, each with what an implementation means
/// what an element is compared by
trait PartialEq: Sized {
    spec fn same(&self, other: &Self) -> bool;
    fn eq(&self, other: &Self) -> (r: bool) ensures r == self.same(other);
    // the provided method
    fn ne(&self, other: &Self) -> (r: bool) ensures r == !self.same(other) { !self.eq(other) }
}
@@include conv.inc
trait Hasher: Sized { spec fn fed(&self) -> Seq<int>; }
/// what an element feeds to a hasher
trait Hash: Sized {
    spec fn feeds(&self) -> Seq<int>;
    fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + self.feeds();
}
// positions as chumsky has them
#[derive(Clone, Copy)]
struct Span_ { start: usize, end: usize, context: SourceId }
#[derive(Clone, Copy)]
@@item src/types.rs SourceId;
#[derive(Clone, Copy)]
@@item src/types.rs Span;
@@item src/types.rs Spanned;
spec fn span_of(s: Span_) -> Span { Span { source: s.context.0 as usize, start: s.start, end: s.end } }
impl From<SourceId> for usize {
    spec fn made(v: SourceId) -> usize { v.0 as usize }
@@fn src/types.rs From@usize::from
@ret r
@@end
}
impl From<Span_> for Span {
    // C18: a position is the start, end and source which the parser had
    spec fn made(v: Span_) -> Span { span_of(v) }
@@fn src/types.rs From<Span_>@Span::from
@ret r
@subst? .into() =>> .into_()
@@end
}

@@fn src/types.rs spanned
@ret r
@spec
    ensures r.item == item, r.span == span, // [C18]
@@end
@@fn src/types.rs spanned_
@subst? .into() =>> .into_()
@ret r
@spec
    ensures r.item == item, r.span == span_of(span), // [C18]
@@end
impl<T> Spanned<T> {
@@fn src/types.rs Deref@Spanned::deref
@sigsubst &Self::Target =>> &T
@ret r
@spec
    ensures *r == self.item, // [C18]
@@end
}
impl<T> Spanned<T> {
@@fn src/types.rs DerefMut@Spanned::deref_mut
@sigsubst &mut Self::Target =>> &mut T
@ret r
@spec
    ensures *r == old(self).item, *final(r) == final(self).item, final(self).span == old(self).span, // [C18]
@@end
@@fn src/types.rs Spanned::item
@ret r
@spec
    ensures *r == self.item, // [C18]
@@end
@@fn src/types.rs Spanned::span
@ret r
@spec
    ensures *r == self.span, // [C18]
@@end
@@fn src/types.rs Spanned::as_ref
@ret r
@spec
    ensures *r.item == self.item, r.span == self.span, // [C18]
@@end
@@fn src/types.rs Spanned::map
@ret r
@spec
    requires f.requires((&self.item,)),
    ensures f.ensures((&self.item,), r.item), r.span == self.span, // [C18]
@@end
@@fn src/types.rs Spanned::map_into
@ret r
@spec
    requires f.requires((self.item,)),
    ensures f.ensures((self.item,), r.item), r.span == self.span, // [C18]
@@end
}
impl<T> PartialEq for Spanned<T> where T: PartialEq {
    // C18: equal exactly if the contents are
    spec fn same(&self, other: &Self) -> bool { self.item.same(&other.item) }
@@fn src/types.rs PartialEq@Spanned::eq
@ret r
@@end
}
impl<T> Hash for Spanned<T> where T: Hash {
    // C18: feeds the hasher what the content feeds it
    spec fn feeds(&self) -> Seq<int> { self.item.feeds() }
@@fn src/types.rs Hash@Spanned::hash
@@end
}
trait OptionalItem<T> {
    spec fn content(&self) -> Option<T>;
    fn item(&self) -> (r: Option<&T>) ensures (r is Some) == (self.content() is Some), r is Some ==> *r->0 == self.content()->0;
}
impl<T> OptionalItem<T> for Option<&Spanned<T>> {
    spec fn content(&self) -> Option<T> { match *self { Some(s) => Some(s.item), None => None } }
@@fn src/types.rs OptionalItem@Option::item
@ret r
@closure map#0
|spanned: &Spanned<T>| -> (r: &T) ensures *r == spanned.item { $body }
@@end
}
// ---------------------------------------------------------------- the property
/// elements equal in content are equal wherever they are, and hash alike; unequal contents make unequal elements
proof fn theorem_c18<T: PartialEq + Hash>(x: T, y: T, p: Span, q: Span)
    ensures
        (Spanned { item: x, span: p }).same(&Spanned { item: y, span: q }) == x.same(&y),
        (Spanned { item: x, span: p }).feeds() == (Spanned { item: x, span: q }).feeds(),
{}
}
