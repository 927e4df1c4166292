// Unit diag: errors and warnings, src/types.rs ErrorOrWarning, AnnotatedErrorOrWarning, Spanned::{error,warning} (C15)
#![allow(unused)]
use vstd::prelude::*;
use std::marker::PhantomData;
// the two texts which are made from an element's kind
macro_rules! format {
    ("invalid {}", $e:expr) => { worded(true, $e) };
    ("questionable {}", $e:expr) => { worded(false, $e) };
}
verus! {
@@include mem.inc
@@include conv.inc
@@include things.inc
uninterp spec fn wording(invalid: bool, kind: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn worded(invalid: bool, kind: &str) -> (r: String) ensures r@ == wording(invalid, kind@) { unimplemented!() }
trait ErrorOrWarningKind {}
trait ElementType<'a> {
    spec fn kind(&self) -> Seq<char>;
    fn element_type(&self) -> (r: &'a str) ensures r@ == self.kind();
}
#[derive(Clone, Copy)]
@@item src/types.rs Span;
@@item src/types.rs Spanned;
@@item src/types.rs ErrorKind;
@@item src/types.rs WarningKind;
@@item src/types.rs ErrorOrWarningImpl;
@@item src/types.rs ErrorOrWarning;
@@item src/types.rs AnnotatedErrorOrWarning;
type Error = ErrorOrWarning<ErrorKind>;
type Warning = ErrorOrWarning<WarningKind>;
impl ErrorOrWarningKind for ErrorKind {}
impl ErrorOrWarningKind for WarningKind {}

// ---------------------------------------------------------------- specification
spec fn attached(v: Option<Vec<(String, Span)>>) -> Seq<(Seq<char>, Span)> {
    match v { None => Seq::empty(), Some(v) => v@.map_values(|p: (String, Span)| (p.0@, p.1)) }
}
spec fn kinds_of<'a, 'b, T: ElementType<'a>>(s: Seq<&'b Spanned<T>>) -> Seq<(Seq<char>, Span)> { s.map_values(|e: &Spanned<T>| (e.item.kind(), e.span)) }
impl<K> ErrorOrWarning<K> {
    spec fn contexts_(&self) -> Seq<(Seq<char>, Span)> { attached(self.0.contexts) }
    spec fn related_(&self) -> Seq<(Seq<char>, Span)> { attached(self.0.related) }
    /// the message, reason and position of o
    spec fn kept(&self, o: &Self) -> bool { self.0.message@ == o.0.message@ && self.0.reason@ == o.0.reason@ && self.0.span == o.0.span }
}
impl<K> From<ErrorOrWarningImpl<K>> for ErrorOrWarning<K> {
    spec fn made(v: ErrorOrWarningImpl<K>) -> Self { ErrorOrWarning(Box::new(v)) }
@@fn src/types.rs From<ErrorOrWarningImpl<K>>@ErrorOrWarning::from
@ret r
@@end
}
impl<K> ErrorOrWarning<K> where K: ErrorOrWarningKind {
@@fn src/types.rs ErrorOrWarning::new
@ret r
@subst? .into() =>> .into_()
@spec
    ensures r.0.message@ == message.into_made()@, r.0.reason@ == reason.into_made()@, r.0.span == span, r.contexts_() == Seq::<(Seq<char>, Span)>::empty(), r.related_() == Seq::<(Seq<char>, Span)>::empty(), // [C15]
@@end
@@fn src/types.rs ErrorOrWarning::related_to
@ret r
@subst? element.element_type() =>> element.item.element_type()
@spec
    ensures r.kept(&self), r.contexts_() == self.contexts_(), r.related_() =~= self.related_().push((element.item.kind(), element.span)), // [C15]
@@end
@@fn src/types.rs ErrorOrWarning::related_to_named_span
@ret r
@sigsubst S: ToString =>> S: Texted
@spec
    ensures r.kept(&self), r.contexts_() == self.contexts_(), r.related_() =~= self.related_().push((name.text(), span)), // [C15]
@@end
@@fn src/types.rs ErrorOrWarning::related_to_all
@ret r
@sigsubst IntoIterator<Item = &'b Spanned<T>> =>> Listed<&'b Spanned<T>>
@closure map#0
|element: &'b Spanned<T>| -> (q: (String, Span)) ensures q.0@ == element.item.kind(), q.1 == element.span { $body }
@subst? element.element_type() =>> element.item.element_type()
@spec
    ensures r.kept(&self), r.contexts_() == self.contexts_(), r.related_() =~= self.related_() + kinds_of(elements.listed()), // [C15]
@@end
@@fn src/types.rs ErrorOrWarning::in_context
@ret r
@subst? element.element_type() =>> element.item.element_type()
@spec
    ensures r.kept(&self), r.related_() == self.related_(), r.contexts_() =~= self.contexts_().push((element.item.kind(), element.span)), // [C15]
@@end
@@fn src/types.rs ErrorOrWarning::in_contexts
@ret r
@sigsubst IntoIterator<Item = &'b Spanned<T>> =>> Listed<&'b Spanned<T>>
@closure map#0
|element: &'b Spanned<T>| -> (q: (String, Span)) ensures q.0@ == element.item.kind(), q.1 == element.span { $body }
@subst? element.element_type() =>> element.item.element_type()
@spec
    ensures r.kept(&self), r.related_() == self.related_(), r.contexts_() =~= self.contexts_() + kinds_of(elements.listed()), // [C15]
@@end
@@fn src/types.rs ErrorOrWarning::in_explicitly_labelled_contexts
@ret r
@sigsubst IntoIterator<Item = (String, Span)> =>> Listed<(String, Span)>
@spec
    ensures r.kept(&self), r.related_() == self.related_(), r.contexts_() =~= self.contexts_() + elements.listed().map_values(|p: (String, Span)| (p.0@, p.1)), // [C15]
@@end
@@fn src/types.rs ErrorOrWarning::with_annotation
@ret r
@subst? .into() =>> .into_()
@spec
    ensures r.error_or_warning == self, r.annotation is Some, r.annotation->0@ == annotation.into_made()@, // [C15]
@@end
}
trait Texted: Sized {
    spec fn text(&self) -> Seq<char>;
    fn to_string(&self) -> (r: String) ensures r@ == self.text();
}
// assumed: borrowing an optional text
trait Borrowed { fn as_deref_(&self) -> (r: Option<&str>); }
impl Borrowed for Option<String> {
    #[verifier::external_body]
    fn as_deref_(&self) -> (r: Option<&str>) ensures *self is None ==> r is None, *self is Some ==> r is Some && r->0@ == (*self)->0@ { unimplemented!() }
}
// assumed: iterating an optional vector
trait OptIter<T> {
    spec fn opt(&self) -> Option<Vec<T>>;
    fn iter_(&self) -> (r: Things<&Vec<T>>)
        ensures self.opt() is None ==> r.v@.len() == 0, self.opt() is Some ==> r.v@.len() == 1 && *r.v@[0] == self.opt()->0;
}
impl<T> OptIter<T> for Option<Vec<T>> {
    spec fn opt(&self) -> Option<Vec<T>> { *self }
    #[verifier::external_body]
    fn iter_(&self) -> (r: Things<&Vec<T>>) { unimplemented!() }
}
impl<'a, T> Things<&'a Vec<T>> {
    #[verifier::external_body]
    fn flatten(self) -> (r: Things<&'a T>)
        ensures self.v@.len() == 0 ==> r.v@.len() == 0,
            self.v@.len() == 1 ==> r.v@.len() == self.v@[0]@.len() && forall|i: int| 0 <= i < r.v@.len() ==> *#[trigger] r.v@[i] == self.v@[0]@[i],
    { unimplemented!() }
}
spec fn shown<'a>(s: Seq<(&'a str, Span)>) -> Seq<(Seq<char>, Span)> { s.map_values(|p: (&'a str, Span)| (p.0@, p.1)) }
impl<K> ErrorOrWarning<K> {
@@fn src/types.rs Report@ErrorOrWarning::message
@ret r
@spec
    ensures r@ == self.0.message@, // [C15]
@@end
@@fn src/types.rs Report@ErrorOrWarning::reason
@ret r
@spec
    ensures r@ == self.0.reason@, // [C15]
@@end
@@fn src/types.rs Report@ErrorOrWarning::span
@ret r
@spec
    ensures r == self.0.span, // [C15]
@@end
@@fn src/types.rs Report@ErrorOrWarning::contexts
@sig
fn contexts(&self) -> (r: Things<(&str, Span)>)
@subst? .iter() =>> .iter_()
@closure map#0
|e: &(String, Span)| -> (q: (&str, Span)) ensures q.0@ == e.0@, q.1 == e.1 { $bind0(e) $body }
@spec
    ensures shown(r.v@) =~= self.contexts_(), // [C15]
@@end
@@fn src/types.rs Report@ErrorOrWarning::related
@sig
fn related(&self) -> (r: Things<(&str, Span)>)
@subst? .iter() =>> .iter_()
@closure map#0
|e: &(String, Span)| -> (q: (&str, Span)) ensures q.0@ == e.0@, q.1 == e.1 { $bind0(e) $body }
@spec
    ensures shown(r.v@) =~= self.related_(), // [C15]
@@end
}
impl<K: ErrorOrWarningKind> From<ErrorOrWarning<K>> for AnnotatedErrorOrWarning<K> {
    spec fn made(v: ErrorOrWarning<K>) -> Self { AnnotatedErrorOrWarning { error_or_warning: v, annotation: None } }
@@fn src/types.rs From<ErrorOrWarning<K>>@AnnotatedErrorOrWarning::from
@ret r
@@end
}
impl<K: ErrorOrWarningKind> AnnotatedErrorOrWarning<K> {
@@fn src/types.rs Deref@AnnotatedErrorOrWarning::deref
@sig
fn deref(&self) -> (r: &ErrorOrWarning<K>)
@spec
    ensures *r == self.error_or_warning, // [C15]
@@end
@@fn src/types.rs AnnotatedErrorOrWarning::annotation
@ret r
@subst? .as_deref() =>> .as_deref_()
@spec
    ensures self.annotation is None ==> r is None, self.annotation is Some ==> r is Some && r->0@ == self.annotation->0@, // [C15]
@@end
}
impl<'a, T: ElementType<'a>> Spanned<T> {
@@fn src/types.rs Spanned::error
@ret r
@subst? self.element_type() =>> self.item.element_type()
@spec
    ensures r.0.message@ == wording(true, self.item.kind()), r.0.reason@ == reason.into_made()@, r.0.span == self.span, r.contexts_() == Seq::<(Seq<char>, Span)>::empty(), r.related_() == Seq::<(Seq<char>, Span)>::empty(), // [C15]
@@end
@@fn src/types.rs Spanned::warning
@ret r
@subst? self.element_type() =>> self.item.element_type()
@spec
    ensures r.0.message@ == wording(false, self.item.kind()), r.0.reason@ == reason.into_made()@, r.0.span == self.span, r.contexts_() == Seq::<(Seq<char>, Span)>::empty(), r.related_() == Seq::<(Seq<char>, Span)>::empty(), // [C15]
@@end
}
impl From<String> for String {
    spec fn made(v: String) -> Self { v }
    fn from(v: String) -> (r: String) { v }
}

// ---------------------------------------------------------------- the kinds of elements
@@include kinds.inc

// ---------------------------------------------------------------- errors of the grammar
// what chumsky reports: a text, a reason, a position, and labelled contexts
#[derive(Clone, Copy)]
struct Span_ { start: usize, end: usize, context: usize }
spec fn of_span_(s: Span_) -> Span { Span { source: s.context, start: s.start, end: s.end } }
impl From<Span_> for Span { spec fn made(v: Span_) -> Span { of_span_(v) } fn from(v: Span_) -> (r: Span) { Span { source: v.context, start: v.start, end: v.end } } }
impl<'b> From<&'b Span_> for Span { spec fn made(v: &'b Span_) -> Span { of_span_(*v) } fn from(v: &'b Span_) -> (r: Span) { Span { source: v.context, start: v.start, end: v.end } } }
struct Label {} struct Reason {} struct Token {}
impl Label { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl Reason { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl Token { #[verifier::external_body] fn to_string(&self) -> (r: String) { unimplemented!() } }
struct ParserError {}
impl ParserError {
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn why(&self) -> Reason;
    uninterp spec fn at(&self) -> Span_;
    uninterp spec fn within(&self) -> Seq<(Label, Span_)>;
    #[verifier::external_body]
    fn map_token<F: FnMut(Token) -> String>(self, f: F) -> (r: ParserError) ensures r.at() == self.at(), r.within() == self.within(), r.text() == self.text(), r.why() == self.why() { unimplemented!() }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    fn reason(&self) -> (r: &Reason) ensures *r == self.why() { unimplemented!() }
    #[verifier::external_body]
    fn span(&self) -> (r: &Span_) ensures *r == self.at() { unimplemented!() }
    #[verifier::external_body]
    fn contexts(&self) -> (r: Things<(&Label, &Span_)>) ensures r.v@.len() == self.within().len(), forall|i: int| 0 <= i < r.v@.len() ==> *(#[trigger] r.v@[i]).0 == self.within()[i].0 && *r.v@[i].1 == self.within()[i].1 { unimplemented!() }
}
impl<T> Listed<T> for Things<T> { spec fn listed(&self) -> Seq<T> { self.v@ } fn into_iter(self) -> (r: Things<T>) { self } }
impl ErrorOrWarning<ErrorKind> {
/// C15: an error of the grammar keeps its position, its texts and its contexts, in order
@@fn src/parsers.rs From@Error::from
@ret r
@subst? .into() =>> .into_()
@closure map_token#0
|tok: Token| -> (q: String) { $bind0(tok) $body }
@closure map#0
|x: (&Label, &Span_)| -> (q: (String, Span)) ensures q.0@ == (*x.0).text(), q.1 == of_span_(*x.1) { $bind0(x) $body }
@spec
    ensures
        r.0.message@ == error.text(), r.0.reason@ == error.why().text(), r.0.span == of_span_(error.at()), // [C15]
        r.related_() == Seq::<(Seq<char>, Span)>::empty(), // [C15]
        r.contexts_() =~= error.within().map_values(|x: (Label, Span_)| (x.0.text(), of_span_(x.1))), // [C15]
@@end
}
}
