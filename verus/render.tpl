// Unit render: what is written of a report, src/sources.rs write_report and its callers (C15)
#![allow(unused)]
use vstd::prelude::*;
use std::marker::PhantomData;
use vstd::std_specs::iter::IteratorSpec;
// the text made of one argument
macro_rules! lazy_format { ($f:literal, $e:expr) => { worded($f, $e) }; }
macro_rules! write {
    ($f:expr, $t:literal, $a:expr, $b:expr) => { verus_exec_expr!($f.put2(&$a, &$b)) };
    ($f:expr, $t:literal, $a:expr, $b:expr, $c:expr) => { verus_exec_expr!($f.put3(&$a, &$b, &$c)) };
}
verus! {
@@include mem.inc
@@include conv.inc
@@include things.inc
#[derive(Clone, Copy)]
@@item src/types.rs Span;

// ---------------------------------------------------------------- assumed: what a writer has been given, the crate ariadne, text formatting
/// a text which is written as a whole, by what it is made of
uninterp spec fn mentions(text: Seq<char>, part: Seq<char>) -> bool;
#[verifier::external_body]
fn worded(f: &str, part: &str) -> (r: String) ensures mentions(r@, part@) { unimplemented!() }
/// what one label says of which characters of which source
pub struct Noted { pub source: Seq<char>, pub start: usize, pub end: usize, pub text: Seq<char> }
/// a report, or a line of its own
pub enum Piece { Shown { kind: ariadne::ReportKind, source: Seq<char>, start: usize, end: usize, message: Seq<char>, labels: Seq<Noted>, texts: Seq<(Seq<char>, Seq<char>)> }, Line(Seq<char>) }
pub mod io { pub struct Error; pub type Result<T> = core::result::Result<T, Error>; }
#[verifier::external_body] struct LineArgs { x: u8 }
impl LineArgs { uninterp spec fn line(&self) -> Seq<char>; }
#[verifier::external_body]
fn line_of(s: &String) -> (r: LineArgs) ensures r.line() == s@ { unimplemented!() }
trait Write: Sized {
    spec fn given(&self) -> Seq<Piece>;
    fn write_fmt(&mut self, a: LineArgs) -> (r: io::Result<()>) ensures r is Ok ==> final(self).given() == old(self).given().push(Piece::Line(a.line()));
}
type Texts<'a> = Vec<(String, &'a str)>;
spec fn texts_(v: Seq<(String, &str)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|q: (String, &str)| (q.0@, q.1@)) }
use ariadne::{Color, Label};
type Place = (String, core::ops::Range<usize>);
mod ariadne {
    use super::*;
    #[derive(Clone, Copy)] #[verifier::external_body] pub struct Color { x: u8 }
    impl Color { #[verifier::external_body] #[allow(non_upper_case_globals)] pub exec const Yellow: Color = Color { x: 0 }; }
    #[verifier::external_body] pub struct ReportKind { x: u8 }
    pub struct Label { pub n: Ghost<Noted> }
    pub struct Report { pub kind: Ghost<ReportKind>, pub place: Ghost<(Seq<char>, usize, usize)>, pub message: Ghost<Seq<char>>, pub labels: Ghost<Seq<Noted>> }
    pub struct Cache { pub texts: Ghost<Seq<(Seq<char>, Seq<char>)>> }
    #[verifier::external_body]
    pub(super) fn sources(v: Vec<(String, &str)>) -> (r: Cache) ensures r.texts@ == texts_(v@) { unimplemented!() }
    impl Label {
        #[verifier::external_body]
        pub(super) fn new(p: Place) -> (r: Label) ensures r.n@.source == p.0@, r.n@.start == p.1.start, r.n@.end == p.1.end { unimplemented!() }
        #[verifier::external_body]
        pub(super) fn with_message<M: Worded>(self, m: M) -> (r: Label) ensures r.n@ == (Noted { text: m.words(), ..self.n@ }) { unimplemented!() }
        #[verifier::external_body]
        pub(super) fn with_color(self, c: Color) -> (r: Label) ensures r == self { unimplemented!() }
    }
    impl Report {
        #[verifier::external_body]
        pub(super) fn build(kind: ReportKind, p: Place) -> (r: Report) ensures r.kind@ == kind, r.place@ == (p.0@, p.1.start, p.1.end), r.labels@ == Seq::<Noted>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub(super) fn with_message<M: Worded>(self, m: M) -> (r: Report) ensures r == (Report { message: Ghost(m.words()), ..self }) { unimplemented!() }
        #[verifier::external_body]
        pub(super) fn with_labels<L: Labels>(self, l: L) -> (r: Report) ensures r == (Report { labels: Ghost(self.labels@ + l.notes()), ..self }) { unimplemented!() }
        #[verifier::external_body]
        pub(super) fn with_label(self, l: Label) -> (r: Report) ensures r == (Report { labels: Ghost(self.labels@.push(l.n@)), ..self }) { unimplemented!() }
        #[verifier::external_body]
        pub(super) fn finish(self) -> (r: Report) ensures r == self { unimplemented!() }
        #[verifier::external_body]
        pub(super) fn write<W: Write>(self, c: Cache, w: &mut W) -> (r: io::Result<()>)
            ensures r is Ok ==> final(w).given() == old(w).given().push(Piece::Shown { kind: self.kind@, source: self.place@.0, start: self.place@.1, end: self.place@.2, message: self.message@, labels: self.labels@, texts: c.texts@ }),
        { unimplemented!() }
    }
}
trait Worded: Sized { spec fn words(&self) -> Seq<char>; }
impl Worded for String { spec fn words(&self) -> Seq<char> { self@ } }
impl<'a> Worded for &'a str { spec fn words(&self) -> Seq<char> { self@ } }
trait Labels: Sized { spec fn notes(&self) -> Seq<Noted>; }
impl Labels for Option<Label> { spec fn notes(&self) -> Seq<Noted> { match self { None => Seq::empty(), Some(l) => seq![l.n@] } } }
impl Labels for Things<Label> { spec fn notes(&self) -> Seq<Noted> { self.v@.map_values(|l: Label| l.n@) } }
impl Labels for Vec<Label> { spec fn notes(&self) -> Seq<Noted> { self@.map_values(|l: Label| l.n@) } }
trait ErrorOrWarningKind: Sized {
    spec fn kind_() -> ariadne::ReportKind;
    fn color() -> (r: Color);
    fn report_kind() -> (r: ariadne::ReportKind) ensures r == Self::kind_();
}
// as proved of ErrorOrWarning in unit diag
trait Report {
    spec fn message_(&self) -> Seq<char>;
    spec fn reason_(&self) -> Seq<char>;
    spec fn span_(&self) -> Span;
    spec fn contexts_(&self) -> Seq<(Seq<char>, Span)>;
    spec fn related_(&self) -> Seq<(Seq<char>, Span)>;
    fn message(&self) -> (r: &str) ensures r@ == self.message_();
    fn reason(&self) -> (r: &str) ensures r@ == self.reason_();
    fn span(&self) -> (r: Span) ensures r == self.span_();
    fn contexts(&self) -> (r: Things<(&str, Span)>) ensures shown(r.v@) == self.contexts_();
    fn related(&self) -> (r: Things<(&str, Span)>) ensures shown(r.v@) == self.related_();
}
spec fn shown<'a>(s: Seq<(&'a str, Span)>) -> Seq<(Seq<char>, Span)> { s.map_values(|p: (&'a str, Span)| (p.0@, p.1)) }

// ---------------------------------------------------------------- specification
type Adjusted<'a> = (&'a str, &'a str, Span, Span);
/// the source and the characters which a span means, as its resolver says
spec fn located<'a, F: Fn(Span) -> Adjusted<'a>>(f: F, p: Span, source: Seq<char>, start: usize, end: usize) -> bool {
    exists|q: Adjusted<'a>| #[trigger] f.ensures((p,), q) && q.1@ == source && q.3.start == start && q.3.end == end
}
/// C15: a label for each thing attached, in order, at its place, mentioning its kind
spec fn noted<'a, F: Fn(Span) -> Adjusted<'a>>(f: F, s: Seq<(Seq<char>, Span)>, l: Seq<Noted>) -> bool {
    l.len() == s.len() && forall|i: int| #![trigger l[i]] 0 <= i < s.len() ==> located(f, s[i].1, l[i].source, l[i].start, l[i].end) && mentions(l[i].text, s[i].0)
}
/// C15: the report says its message and, at its place, its reason, and everything attached
spec fn portrayed<'a, K: ErrorOrWarningKind, R: Report, F: Fn(Span) -> Adjusted<'a>>(k: PhantomData<K>, r: &R, f: F, texts: Seq<(Seq<char>, Seq<char>)>, p: Piece) -> bool {
    p matches Piece::Shown { kind, source, start, end, message, labels, texts: t } && {
        &&& kind == K::kind_() && message == r.message_() && t == texts
        &&& located(f, r.span_(), source, start, end)
        &&& labels.len() == 1 + r.contexts_().len() + r.related_().len()
        &&& labels[0] == (Noted { source, start, end, text: r.reason_() })
        &&& noted(f, r.contexts_(), labels.subrange(1, 1 + r.contexts_().len() as int))
        &&& noted(f, r.related_(), labels.subrange(1 + r.contexts_().len() as int, labels.len() as int))
    }
}

@@fn src/sources.rs source_id_string_and_adjusted_rune_span
@ret r
@spec
    requires get_adjusted_source.requires((span,)),
    ensures located(*get_adjusted_source, span, r.0@, r.1.start, r.1.end), // [C15]
@@end
@@fn src/sources.rs write_report
@ret r
@closure map#0
|q: (&str, Span)| -> (l: Label) ensures located(*get_adjusted_source, q.1, l.n@.source, l.n@.start, l.n@.end), mentions(l.n@.text, q.0@) { $bind0(q) $body }
@closure map#1
|q: (&str, Span)| -> (l: Label) ensures located(*get_adjusted_source, q.1, l.n@.source, l.n@.start, l.n@.end), mentions(l.n@.text, q.0@) { $bind0(q) $body }
@spec
    requires forall|p: Span| #[trigger] get_adjusted_source.requires((p,)),
    ensures r is Ok ==> final(w).given().len() == old(w).given().len() + 1 && final(w).given().drop_last() =~= old(w).given() && portrayed(PhantomData::<K>, report, *get_adjusted_source, texts_(sources@), final(w).given().last()), // [C15]
@@end

// ---------------------------------------------------------------- assumed: maps as the pairs in them, iterators by what they yield
#[verifier::external_body] struct PathBuf { x: std::path::PathBuf }
#[verifier::external_body] struct IncludedGlob { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Set<(K, V)>;
    #[verifier::external_body]
    fn iter<'b>(&'b self) -> (r: Things<(&'b K, &'b V)>)
        ensures listing(r.v@, self@),
    { unimplemented!() }
}
#[verifier::opaque]
spec fn listing<K, V>(s: Seq<(&K, &V)>, m: Set<(K, V)>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains((*s[i].0, *s[i].1))
    &&& forall|q: (K, V)| #[trigger] m.contains(q) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == q.0 && *s[i].1 == q.1
}
#[verifier::opaque]
spec fn filtered<T, U, F: Fn(T) -> Option<U>>(f: F, s: Seq<T>, r: Seq<U>) -> bool {
    &&& forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> exists|i: int| 0 <= i < s.len() && f.ensures((#[trigger] s[i],), Some(r[j]))
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> exists|o: Option<U>| #[trigger] f.ensures((s[i],), o) && (o is Some ==> r.contains(o->0))
}
impl<T> Things<T> {
    #[verifier::external_body]
    fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Things<U>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> #[trigger] f.requires((self.v@[i],)),
        ensures filtered(f, self.v@, r.v@),
    { unimplemented!() }
    #[verifier::external_body]
    fn chain(self, o: Things<T>) -> (r: Things<T>) ensures r.v@ == self.v@ + o.v@ { unimplemented!() }
}
#[verifier::external_body]
fn once<T>(x: T) -> (r: Things<T>) ensures r.v@ == seq![x] { unimplemented!() }
trait Extended<T> { fn extend_(&mut self, t: Things<T>); }
impl<T> Extended<T> for Vec<T> {
    #[verifier::external_body]
    fn extend_(&mut self, t: Things<T>) ensures final(self)@ == old(self)@ + t.v@ { unimplemented!() }
}
#[derive(Clone, Copy)]
@@item src/types.rs SourceId;
@@item src/sources.rs BeancountSources;
@@item src/sources.rs IncludedSource;
@@item src/sources.rs SyntheticSources;
/// the source and the characters which a span means; an invalid one nothing at the start of the root (proved in unit spans)
uninterp spec fn means(b: &BeancountSources, p: Span) -> (Seq<char>, Span);
uninterp spec fn means_syn(b: &SyntheticSources, p: Span) -> (Seq<char>, Span);
spec fn name_of(b: &BeancountSources, id: SourceId) -> Seq<char> { b.source_id_strings@[id.0 as int]@ }
spec fn wf(b: &BeancountSources) -> bool {
    &&& b.root_source_id.0 < b.source_id_strings@.len()
    &&& forall|q: (PathBuf, IncludedSource)| #[trigger] b.included_content@.contains(q) ==> (q.1 matches IncludedSource::Content(id, _, _) ==> id.0 < b.source_id_strings@.len())
}
spec fn root_of(b: &BeancountSources) -> (Seq<char>, Seq<char>) { (name_of(b, b.root_source_id), b.root_content@) }
/// the file by its name and text
spec fn file_of(b: &BeancountSources, q: IncludedSource, x: (Seq<char>, Seq<char>)) -> bool { q matches IncludedSource::Content(id, c, _) && x == (name_of(b, id), c@) }
/// every included file and nothing else
#[verifier::opaque]
spec fn all_files(b: &BeancountSources, t: Seq<(Seq<char>, Seq<char>)>) -> bool {
    &&& forall|q: (PathBuf, IncludedSource)| #[trigger] b.included_content@.contains(q) && q.1 is Content ==> has_entry(b, q, t)
    &&& forall|i: int| 0 <= i < t.len() ==> has_file(b, #[trigger] t[i])
}
spec fn has_entry(b: &BeancountSources, q: (PathBuf, IncludedSource), t: Seq<(Seq<char>, Seq<char>)>) -> bool { exists|i: int| 0 <= i < t.len() && file_of(b, q.1, #[trigger] t[i]) }
spec fn has_file(b: &BeancountSources, x: (Seq<char>, Seq<char>)) -> bool { exists|q: (PathBuf, IncludedSource)| #[trigger] b.included_content@.contains(q) && file_of(b, q.1, x) }
spec fn entry(x: (String, &str)) -> (Seq<char>, Seq<char>) { (x.0@, x.1@) }
/// C15: the text of every source is at hand under its name, and nothing else
spec fn at_hand(b: &BeancountSources, t: Seq<(Seq<char>, Seq<char>)>) -> bool {
    t.len() >= 1 && t[0] == root_of(b) && all_files(b, t.drop_first())
}
broadcast proof fn picked_b<'b, F: Fn((&'b PathBuf, &'b IncludedSource)) -> Option<(String, &'b str)>>(b: &BeancountSources, f: F, s: Seq<(&'b PathBuf, &'b IncludedSource)>, r: Seq<(String, &'b str)>)
    requires #[trigger] filtered(f, s, r), #[trigger] listing(s, b.included_content@),
        forall|q: (&'b PathBuf, &'b IncludedSource), v: Option<(String, &'b str)>| #[trigger] f.ensures((q,), v) ==> v is Some == q.1 is Content && (v matches Some(x) ==> file_of(b, *q.1, entry(x))),
    ensures all_files(b, texts_(r)),
{
    let t = texts_(r); let m = b.included_content@;
    assert forall|q: (PathBuf, IncludedSource)| #[trigger] m.contains(q) && q.1 is Content implies has_entry(b, q, t) by {
        assert(exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == q.0 && *s[i].1 == q.1) by { reveal(listing); }
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == q.0 && *s[i].1 == q.1;
        assert(exists|o: Option<(String, &'b str)>| #[trigger] f.ensures((s[i],), o) && (o is Some ==> r.contains(o->0))) by { reveal(filtered); }
        let o = choose|o: Option<(String, &'b str)>| #[trigger] f.ensures((s[i],), o) && (o is Some ==> r.contains(o->0));
        let k = r.index_of(o->0); assert(t[k] == entry(r[k]));
    }
    assert forall|j: int| 0 <= j < t.len() implies has_file(b, #[trigger] t[j]) by {
        assert(exists|i: int| 0 <= i < s.len() && f.ensures((#[trigger] s[i],), Some(r[j]))) by { reveal(filtered); }
        let i = choose|i: int| 0 <= i < s.len() && f.ensures((#[trigger] s[i],), Some(r[j]));
        assert(t[j] == entry(r[j]));
        assert(m.contains((*s[i].0, *s[i].1))) by { reveal(listing); }
    }
    reveal(all_files);
}
broadcast proof fn after_one(x: (String, &str), s: Seq<(String, &str)>)
    ensures texts_(#[trigger] (seq![x] + s)).drop_first() == texts_(s), texts_(seq![x] + s).len() == s.len() + 1, texts_(seq![x] + s)[0] == entry(x),
{ assert(texts_(seq![x] + s).drop_first() =~= texts_(s)); }
impl BeancountSources {
    #[verifier::external_body]
    fn get_adjusted_source(&self, span: Span) -> (r: (&str, &str, Span, Span)) ensures (r.1@, r.3) == means(self, span) { unimplemented!() }
    // as proved in unit spans
    #[verifier::external_body]
    fn source_id_string(&self, source_id: SourceId) -> (r: &str)
        requires source_id.0 < self.source_id_strings@.len(),
        ensures r@ == name_of(self, source_id),
    { unimplemented!() }
@@fn src/sources.rs BeancountSources::sources
@ret r
@subst? .collect() =>> .collect::<Vec<_>>()
@closure filter_map#0
|q: (&PathBuf, &IncludedSource)| -> (v: Option<(String, &str)>)
    requires q.1 matches IncludedSource::Content(id, _, _) ==> id.0 < self.source_id_strings@.len(),
    ensures v is Some == q.1 is Content, v matches Some(x) ==> file_of(self, *q.1, entry(x)) { $bind0(q) $body }
@spec
    requires wf(self),
    ensures at_hand(self, texts_(r@)), // [C15]
@start
    broadcast use {picked_b, after_one};
    proof { reveal(listing); }
@@end
@@fn src/sources.rs BeancountSources::write_report
@ret r
@subst |span| self.get_adjusted_source(span) =>> |q: Span| -> (x: (&str, &str, Span, Span)) ensures (x.1@, x.3) == means(self, q) { self.get_adjusted_source(q) }
@spec
    requires wf(self),
    ensures r is Ok ==> final(w).given().len() == old(w).given().len() + 1 && final(w).given().drop_last() =~= old(w).given() && told(self, PhantomData::<K>, report, final(w).given().last()), // [C15]
@@end
}
/// as portrayed, of these sources
spec fn told<K: ErrorOrWarningKind, R: Report>(b: &BeancountSources, k: PhantomData<K>, r: &R, p: Piece) -> bool {
    p matches Piece::Shown { kind, source, start, end, message, labels, texts } && {
        &&& at_hand(b, texts)
        &&& says(k, r, |s: Span| means(b, s), p)
    }
}
spec fn says<K: ErrorOrWarningKind, R: Report>(k: PhantomData<K>, r: &R, m: spec_fn(Span) -> (Seq<char>, Span), p: Piece) -> bool {
    p matches Piece::Shown { kind, source, start, end, message, labels, texts } && {
        &&& kind == K::kind_() && message == r.message_()
        &&& located_by(m, r.span_(), source, start, end)
        &&& labels.len() == 1 + r.contexts_().len() + r.related_().len()
        &&& labels[0] == (Noted { source, start, end, text: r.reason_() })
        &&& noted_by(m, r.contexts_(), labels.subrange(1, 1 + r.contexts_().len() as int))
        &&& noted_by(m, r.related_(), labels.subrange(1 + r.contexts_().len() as int, labels.len() as int))
    }
}
spec fn located_by(m: spec_fn(Span) -> (Seq<char>, Span), p: Span, source: Seq<char>, start: usize, end: usize) -> bool { m(p).0 == source && m(p).1.start == start && m(p).1.end == end }
spec fn noted_by(m: spec_fn(Span) -> (Seq<char>, Span), s: Seq<(Seq<char>, Span)>, l: Seq<Noted>) -> bool {
    l.len() == s.len() && forall|i: int| #![trigger l[i]] 0 <= i < s.len() ==> located_by(m, s[i].1, l[i].source, l[i].start, l[i].end) && mentions(l[i].text, s[i].0)
}

// ---------------------------------------------------------------- a list of errors or warnings
@@item src/types.rs ErrorOrWarningImpl;
@@item src/types.rs ErrorOrWarning;
@@item src/types.rs AnnotatedErrorOrWarning;
spec fn attached(v: Option<Vec<(String, Span)>>) -> Seq<(Seq<char>, Span)> {
    match v { None => Seq::empty(), Some(v) => v@.map_values(|p: (String, Span)| (p.0@, p.1)) }
}
// proved in unit diag
impl<K> Report for ErrorOrWarning<K> {
    spec fn message_(&self) -> Seq<char> { self.0.message@ }
    spec fn reason_(&self) -> Seq<char> { self.0.reason@ }
    spec fn span_(&self) -> Span { self.0.span }
    spec fn contexts_(&self) -> Seq<(Seq<char>, Span)> { attached(self.0.contexts) }
    spec fn related_(&self) -> Seq<(Seq<char>, Span)> { attached(self.0.related) }
    #[verifier::external_body] fn message(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn reason(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn span(&self) -> (r: Span) { unimplemented!() }
    #[verifier::external_body] fn contexts(&self) -> (r: Things<(&str, Span)>) { unimplemented!() }
    #[verifier::external_body] fn related(&self) -> (r: Things<(&str, Span)>) { unimplemented!() }
}
trait Owned<T>: Sized { fn owned(self) -> (r: std::vec::IntoIter<T>); }
impl<T> Owned<T> for Vec<T> {
    #[verifier::external_body]
    fn owned(self) -> (r: std::vec::IntoIter<T>)
    ensures r.remaining() == self@, r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}
/// C15: one report for each, in order, followed by its annotation if it has one
spec fn all_told<K: ErrorOrWarningKind>(at: spec_fn(ErrorOrWarning<K>, Piece) -> bool, s: Seq<AnnotatedErrorOrWarning<K>>, from: Seq<Piece>, to: Seq<Piece>) -> bool decreases s.len() {
    if s.len() == 0 { to == from } else {
        let x = s.last();
        let n = if x.annotation is Some { 2int } else { 1int };
        to.len() >= n && at(x.error_or_warning, to[to.len() - n]) && (x.annotation is Some ==> to.last() == Piece::Line(x.annotation->0@)) && all_told(at, s.drop_last(), from, to.subrange(0, to.len() - n))
    }
}
spec fn made_of<E: Into<AnnotatedErrorOrWarning<K>>, K: ErrorOrWarningKind>(s: Seq<E>) -> Seq<AnnotatedErrorOrWarning<K>> { s.map_values(|e: E| e.into_made()) }
broadcast proof fn made_push<E: Into<AnnotatedErrorOrWarning<K>>, K: ErrorOrWarningKind>(s: Seq<E>, n: int)
    requires 0 <= n < s.len(),
    ensures (#[trigger] made_of::<E, K>(s.subrange(0, n + 1))).drop_last() == made_of::<E, K>(s.subrange(0, n)), made_of::<E, K>(s.subrange(0, n + 1)).last() == s[n].into_made(), made_of::<E, K>(s.subrange(0, n + 1)).len() == n + 1,
{ assert(made_of::<E, K>(s.subrange(0, n + 1)).drop_last() =~= made_of::<E, K>(s.subrange(0, n))); }
impl BeancountSources {
@@fn src/sources.rs BeancountSources::write_errors_or_warnings
@ret r
@subst? .into() =>> .into_()
@subst? core::format_args!("{}\n", &annotation) =>> line_of(&annotation)
@subst? errors_or_warnings.into_iter() =>> errors_or_warnings.owned()
@start
    broadcast use made_push;
    let ghost s0 = errors_or_warnings@;
    let ghost from = w.given();
    let ghost mut n: int = 0;
    proof { assert(made_of::<E, K>(s0.subrange(0, 0)).len() == 0); }
@loop 1 for y .owned()
    invariant n == y.history().len(), y.seq() == s0, 0 <= n <= s0.len(), wf(self),
        all_told(|e: ErrorOrWarning<K>, p: Piece| told(self, PhantomData::<K>, &e, p), made_of(s0.subrange(0, n)), from, w.given()),
@loopstart 1
    let ghost g0 = w.given();
    let ghost x0 = s0[n];
@loopend 1
    proof {
        made_push::<E, K>(s0, n);
        n = n + 1;
        let m = made_of::<E, K>(s0.subrange(0, n));
        assert(m.last() == x0.into_made());
        let k = if x0.into_made().annotation is Some { 2int } else { 1int };
        assert(w.given().subrange(0, w.given().len() - k) =~= g0);
        assert(told(self, PhantomData::<K>, &x0.into_made().error_or_warning, w.given()[w.given().len() - k]));
    }
@afterloop 1
    proof { assert(s0.subrange(0, n) =~= s0); }
@spec
    requires wf(self),
    ensures r is Ok ==> all_told(|e: ErrorOrWarning<K>, p: Piece| told(self, PhantomData::<K>, &e, p), made_of(errors_or_warnings@), old(w).given(), final(w).given()), // [C15]
@@end
}

// ---------------------------------------------------------------- the same of synthetic sources
// assumed: String::to_string
trait Copied { fn copied(&self) -> (r: String); }
impl Copied for String { #[verifier::external_body] fn copied(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
type Fragments = (SourceId, String, Vec<usize>);
/// the synthetic text by its name
spec fn synthetic_of(q: (String, Fragments)) -> (Seq<char>, Seq<char>) { (q.0@, q.1.1@) }
#[verifier::opaque]
spec fn all_synthetic(m: Set<(String, Fragments)>, t: Seq<(Seq<char>, Seq<char>)>) -> bool {
    &&& forall|q: (String, Fragments)| #[trigger] m.contains(q) ==> t.contains(synthetic_of(q))
    &&& forall|i: int| 0 <= i < t.len() ==> has_synthetic(m, #[trigger] t[i])
}
spec fn has_synthetic(m: Set<(String, Fragments)>, x: (Seq<char>, Seq<char>)) -> bool { exists|q: (String, Fragments)| #[trigger] m.contains(q) && x == synthetic_of(q) }
/// C15: the text of every source and of every synthetic one is at hand under its name, and nothing else
spec fn at_hand_syn(b: &SyntheticSources, t: Seq<(Seq<char>, Seq<char>)>) -> bool { exists|n: int| 0 <= n <= t.len() && #[trigger] halves(b, t, n) }
spec fn halves(b: &SyntheticSources, t: Seq<(Seq<char>, Seq<char>)>, n: int) -> bool { at_hand(b.sources, t.subrange(0, n)) && all_synthetic(b.content@, t.subrange(n, t.len() as int)) }
spec fn told_syn<K: ErrorOrWarningKind, R: Report>(b: &SyntheticSources, k: PhantomData<K>, r: &R, p: Piece) -> bool {
    p matches Piece::Shown { kind, source, start, end, message, labels, texts } && {
        &&& at_hand_syn(b, texts)
        &&& says(k, r, |s: Span| means_syn(b, s), p)
    }
}
broadcast proof fn mapped_b<'b, F: FnOnce((&'b String, &'b Fragments)) -> (String, &'b str)>(f: F, s: Seq<(&'b String, &'b Fragments)>, r: Seq<(String, &'b str)>, m: Set<(String, Fragments)>)
    requires #[trigger] mapped(f, s, r), #[trigger] listing(s, m),
        forall|q: (&'b String, &'b Fragments), v: (String, &'b str)| #[trigger] f.ensures((q,), v) ==> entry(v) == synthetic_of((*q.0, *q.1)),
    ensures all_synthetic(m, texts_(r)),
{
    let t = texts_(r);
    assert forall|q: (String, Fragments)| #[trigger] m.contains(q) implies t.contains(synthetic_of(q)) by {
        assert(exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == q.0 && *s[i].1 == q.1) by { reveal(listing); }
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == q.0 && *s[i].1 == q.1;
        assert(f.ensures((s[i],), r[i])); assert(t[i] == entry(r[i]));
    }
    assert forall|i: int| 0 <= i < t.len() implies has_synthetic(m, #[trigger] t[i]) by {
        assert(m.contains((*s[i].0, *s[i].1))) by { reveal(listing); }
        assert(f.ensures((s[i],), r[i])); assert(t[i] == entry(r[i]));
    }
    reveal(all_synthetic);
}
broadcast proof fn joined_b(b: &SyntheticSources, x: Seq<(String, &str)>, y: Seq<(String, &str)>)
    requires at_hand(b.sources, texts_(x)), #[trigger] all_synthetic(b.content@, texts_(y)),
    ensures at_hand_syn(b, texts_(#[trigger] (x + y))),
{
    let t = texts_(x + y); let n = x.len() as int;
    assert(t.subrange(0, n) =~= texts_(x)); assert(t.subrange(n, t.len() as int) =~= texts_(y)); assert(halves(b, t, n));
}
impl<'a> SyntheticSources<'a> {
    #[verifier::external_body]
    fn get_adjusted_source(&self, span: Span) -> (r: (&str, &str, Span, Span)) ensures (r.1@, r.3) == means_syn(self, span) { unimplemented!() }
@@fn src/sources.rs SyntheticSources::sources
@ret r
@subst? .extend =>> .extend_
@subst? .to_string() =>> .copied()
@closure map#0
|q: (&String, &Fragments)| -> (v: (String, &str)) ensures entry(v) == synthetic_of((*q.0, *q.1)) { $bind0(q) $body }
@start
    broadcast use {mapped_b, joined_b};
@spec
    requires wf(self.sources),
    ensures at_hand_syn(self, texts_(r@)), // [C15]
@@end
@@fn src/sources.rs SyntheticSources::write_report
@ret r
@subst |span| self.get_adjusted_source(span) =>> |q: Span| -> (x: (&str, &str, Span, Span)) ensures (x.1@, x.3) == means_syn(self, q) { self.get_adjusted_source(q) }
@spec
    requires wf(self.sources),
    ensures r is Ok ==> final(w).given().len() == old(w).given().len() + 1 && final(w).given().drop_last() =~= old(w).given() && told_syn(self, PhantomData::<K>, report, final(w).given().last()), // [C15]
@@end
}
impl<'a> SyntheticSources<'a> {
@@fn src/sources.rs SyntheticSources::write_errors_or_warnings
@ret r
@subst? .into() =>> .into_()
@subst? core::format_args!("{}\n", &annotation) =>> line_of(&annotation)
@subst? errors_or_warnings.into_iter() =>> errors_or_warnings.owned()
@start
    broadcast use made_push;
    let ghost s0 = errors_or_warnings@;
    let ghost from = w.given();
    let ghost mut n: int = 0;
    proof { assert(made_of::<E, K>(s0.subrange(0, 0)).len() == 0); }
@loop 1 for y .owned()
    invariant n == y.history().len(), y.seq() == s0, 0 <= n <= s0.len(), wf(self.sources),
        all_told(|e: ErrorOrWarning<K>, p: Piece| told_syn(self, PhantomData::<K>, &e, p), made_of(s0.subrange(0, n)), from, w.given()),
@loopstart 1
    let ghost g0 = w.given();
    let ghost x0 = s0[n];
@loopend 1
    proof {
        made_push::<E, K>(s0, n);
        n = n + 1;
        let m = made_of::<E, K>(s0.subrange(0, n));
        assert(m.last() == x0.into_made());
        let k = if x0.into_made().annotation is Some { 2int } else { 1int };
        assert(w.given().subrange(0, w.given().len() - k) =~= g0);
        assert(told_syn(self, PhantomData::<K>, &x0.into_made().error_or_warning, w.given()[w.given().len() - k]));
    }
@afterloop 1
    proof { assert(s0.subrange(0, n) =~= s0); }
@spec
    requires wf(self.sources),
    ensures r is Ok ==> all_told(|e: ErrorOrWarning<K>, p: Piece| told_syn(self, PhantomData::<K>, &e, p), made_of(errors_or_warnings@), old(w).given(), final(w).given()), // [C15]
@@end
}

// ---------------------------------------------------------------- Display
/// assumed: what a formatter has been given, as pieces: numbers and texts in the order written
enum Part { Text(Seq<char>), Number(int), Place(Span) }
struct Failed;
mod fmt { pub type Result = core::result::Result<(), super::Failed>; }
struct Formatter<'a> { given: Ghost<Seq<Part>>, x: PhantomData<&'a u8> }
trait Piecewise { spec fn part(&self) -> Part; }
impl Piecewise for String { spec fn part(&self) -> Part { Part::Text(self@) } }
impl Piecewise for usize { spec fn part(&self) -> Part { Part::Number(*self as int) } }
impl Piecewise for Span { spec fn part(&self) -> Part { Part::Place(*self) } }
impl<'a> Formatter<'a> {
    #[verifier::external_body]
    fn put2<A: Piecewise, B: Piecewise>(&mut self, a: &A, b: &B) -> (r: fmt::Result) ensures r is Ok ==> final(self).given@ == old(self).given@ + seq![a.part(), b.part()] { unimplemented!() }
    #[verifier::external_body]
    fn put3<A: Piecewise, B: Piecewise, C: Piecewise>(&mut self, a: &A, b: &B, c: &C) -> (r: fmt::Result) ensures r is Ok ==> final(self).given@ == old(self).given@ + seq![a.part(), b.part(), c.part()] { unimplemented!() }
}
spec fn context_parts(s: Seq<(String, Span)>) -> Seq<Part> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { context_parts(s.drop_last()) + seq![Part::Text(s.last().0@), Part::Place(s.last().1)] }
}
@@fn src/types.rs fmt_error_or_warning
@ret r
@loop 1 for y
    invariant n == y.history().len(), y.seq().len() == s0.len(), forall|i: int| #![trigger y.seq()[i]] 0 <= i < s0.len() ==> *y.seq()[i] == s0[i], 0 <= n <= s0.len(), Some(s0) == opt_view(value.0.contexts),
        f.given@ =~= head + context_parts(s0.subrange(0, n)),
@loopend 1
    proof { assert(y.seq()[n] == s0[n]); assert(s0.subrange(0, n + 1).drop_last() =~= s0.subrange(0, n)); n = n + 1; }
@afterloop 1
    proof { assert(s0.subrange(0, n) =~= s0); }
@start
    let ghost s0 = listed_(value.0.contexts);
    let ghost mut n: int = 0;
    let ghost head = f.given@ + seq![Part::Text(value.0.message@), Part::Text(value.0.reason@), Part::Number(value.0.span.start as int), Part::Number(value.0.span.end as int), Part::Number(value.0.span.source as int)];
@spec
    ensures r is Ok ==> final(f).given@ =~= old(f).given@ + seq![Part::Text(value.0.message@), Part::Text(value.0.reason@), Part::Number(value.0.span.start as int), Part::Number(value.0.span.end as int), Part::Number(value.0.span.source as int)]
        + context_parts(listed_(value.0.contexts)), // [C15]
@@end
spec fn listed_(v: Option<Vec<(String, Span)>>) -> Seq<(String, Span)> { match v { Some(v) => v@, None => Seq::empty() } }
spec fn opt_view(v: Option<Vec<(String, Span)>>) -> Option<Seq<(String, Span)>> { match v { Some(v) => Some(v@), None => None } }
}
fn main() {}
