// Unit assembly: gathering tags, links, keys, currencies and putting directives together, src/parsers.rs and src/types.rs (C13, C20)
#![allow(unused)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
macro_rules! format { ($($t:tt)*) => { formatted() } }
verus! {
@@include mem.inc
@@include hashed.inc
@@include entry.inc

// ---------------------------------------------------------------- stubs
#[verifier::external_body] fn formatted() -> String { unimplemented!() }
#[verifier::external_body] #[derive(Clone, Copy)] struct Date { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Decimal { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Flag { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Booking { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Account<'a> { x: &'a u8 }
#[verifier::external_body] struct Token<'a> { x: &'a u8 }
#[verifier::external_body] struct ExprValue { x: u8 }
// chumsky: an error, and the collector of errors of validate, which counts what it is given
#[verifier::external_body] struct Span_ { x: u8 }
#[verifier::external_body] struct ParserError<'a> { x: &'a u8 }
struct Rich {}
impl Rich {
    #[verifier::external_body]
    fn custom<'a>(span: Span_, message: String) -> ParserError<'a> { unimplemented!() }
}
impl Span {
    #[verifier::external_body]
    fn into_(self) -> Span_ { unimplemented!() }
}
#[verifier::external_body] struct MapExtra { x: u8 }
impl MapExtra {
    uninterp spec fn at(&self) -> Span;
    #[verifier::external_body]
    fn span(&self) -> (r: Span_) ensures r.as_span() == self.at() { unimplemented!() }
}
impl Span_ { uninterp spec fn as_span(&self) -> Span; }
#[verifier::external_body]
fn spanned_<T>(item: T, span: Span_) -> (r: Spanned<T>) ensures r.item == item, r.span == span.as_span() { unimplemented!() }
// proved in unit spanned
#[verifier::external_body]
fn spanned_extra<T>(item: T, e: &mut MapExtra) -> (r: Spanned<T>) ensures r.item == item, r.span == old(e).at(), final(e).at() == old(e).at() { unimplemented!() }
#[verifier::external_body]
fn or_empty<T: Content>(o: Option<HashSet<T>>) -> (r: HashSet<T>) ensures o is Some ==> r == o->0, o is None ==> r@ == Map::<T::C, T>::empty() { unimplemented!() }
trait Emit<T>: Sized {
    spec fn emitted(&self) -> int;
    fn emit(&mut self, err: T) ensures final(self).emitted() == old(self).emitted() + 1; // [C13]
}
#[verifier::reject_recursive_types(T)] #[verifier::external_body] struct Emitter<T> { x: T }
impl<T> Emitter<T> {
    uninterp spec fn count(&self) -> int;
    #[verifier::external_body]
    fn emit(&mut self, err: T) ensures final(self).count() == old(self).count() + 1 { unimplemented!() }
}
impl<E> Emit<E> for Emitter<E> {
    spec fn emitted(&self) -> int { self.count() }
@@fn src/parsers.rs Emit@Emitter::emit
@@end
}
#[verifier::external_body]
fn owned<T>(v: Vec<T>) -> (r: std::vec::IntoIter<T>)
    ensures r.remaining() == v@, r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
{ unimplemented!() }

@@include types.inc
@@fn src/types.rs spanned
@ret r
@spec
    ensures r.item == item, r.span == span,
@@end
impl<T> Spanned<T> {
@@fn src/types.rs Spanned::item
@ret r
@spec
    ensures *r == self.item,
@@end
@@fn src/types.rs Spanned::span
@ret r
@spec
    ensures *r == self.span,
@@end
@@fn src/types.rs Spanned::map_into
@ret r
@spec
    requires f.requires((self.item,)),
    ensures f.ensures((self.item,), r.item), r.span == self.span,
@@end
}
impl<'a> Metadata<'a> {
    // derived
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r.key_values@ == Map::<Seq<char>, (Spanned<Key<'a>>, Spanned<MetaValue<'a>>)>::empty(), r.tags@ == Map::<Seq<char>, Spanned<Tag<'a>>>::empty(), r.links@ == Map::<Seq<char>, Spanned<Link<'a>>>::empty(),
    { unimplemented!() }
}

// ---------------------------------------------------------------- specification

@@include made.inc
proof fn listed_push<T: Content>(s: Seq<T>, x: T, c: T::C) ensures listed(s.push(x), c) <==> listed(s, c) || x.content() == c {
    let p = s.push(x);
    if listed(s, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].content() == c; assert(p[i].content() == c); }
    if x.content() == c { assert(p[s.len() as int].content() == c); }
}
proof fn has_push<'a>(s: Seq<TagLink<'a>>, x: TagLink<'a>, c: Seq<char>)
    ensures has_tag(s.push(x), c) <==> has_tag(s, c) || tag_at(x, c), has_link(s.push(x), c) <==> has_link(s, c) || link_at(x, c),
{
    let p = s.push(x);
    assert(p[s.len() as int] == x);
    if has_tag(s, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] tag_at(s[i], c); assert(tag_at(p[i], c)); }
    if has_link(s, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] link_at(s[i], c); assert(link_at(p[i], c)); }
    if tag_at(x, c) { assert(tag_at(p[s.len() as int], c)); }
    if link_at(x, c) { assert(link_at(p[s.len() as int], c)); }
}
proof fn has_meta_push<'a>(s: Seq<Metadatum<'a>>, x: Metadatum<'a>, c: Seq<char>)
    ensures
        has_meta_tag(s.push(x), c) <==> has_meta_tag(s, c) || meta_tag_at(x, c),
        has_meta_link(s.push(x), c) <==> has_meta_link(s, c) || meta_link_at(x, c),
        has_meta_key(s.push(x), c) <==> has_meta_key(s, c) || meta_key_at(x, c),
{
    let p = s.push(x);
    assert(p[s.len() as int] == x);
    if has_meta_tag(s, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] meta_tag_at(s[i], c); assert(meta_tag_at(p[i], c)); }
    if has_meta_link(s, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] meta_link_at(s[i], c); assert(meta_link_at(p[i], c)); }
    if has_meta_key(s, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] meta_key_at(s[i], c); assert(meta_key_at(p[i], c)); }
    if meta_tag_at(x, c) { assert(meta_tag_at(p[s.len() as int], c)); }
    if meta_link_at(x, c) { assert(meta_link_at(p[s.len() as int], c)); }
    if meta_key_at(x, c) { assert(meta_key_at(p[s.len() as int], c)); }
}

// ---------------------------------------------------------------- the code

@@closure src/parsers.rs tags_links validate#0
@as tags_links_gather
@sig
fn tags_links_gather<'s>(p0: Vec<TagLink<'s>>, p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>))
@subst? .into() =>> .into_()
@subst? tags_or_links.into_iter() =>> owned(tags_or_links)
@spec
    ensures
        forall|c: Seq<char>| #[trigger] r.0@.contains_key(c) <==> has_tag(p0@, c), // [C13]
        forall|c: Seq<char>| #[trigger] r.1@.contains_key(c) <==> has_link(p0@, c), // [C13]
        keyed_set(r.0@), keyed_set(r.1@),
        final(p2).emitted() == old(p2).emitted() + p0@.len() - r.0@.dom().len() - r.1@.dom().len(), // [C13]
        gathered_tags_links(p0@, r, final(p2).emitted() - old(p2).emitted()), // [C13]
@start
    let ghost e0 = p2.emitted();
    let ghost mut h = Seq::<TagLink<'s>>::empty();
@unfold fold#0 y
    invariant
        h == y.history(), y.seq() == p0@, h.len() <= p0@.len(), h == p0@.take(h.len() as int),
        forall|c: Seq<char>| #[trigger] acc_.0@.contains_key(c) <==> has_tag(h, c),
        forall|c: Seq<char>| #[trigger] acc_.1@.contains_key(c) <==> has_link(h, c),
        keyed_set(acc_.0@), keyed_set(acc_.1@),
        emitter.emitted() == e0 + h.len() - acc_.0@.dom().len() - acc_.1@.dom().len(),
@unfoldstart fold#0
    let ghost x0 = x_;
    proof { assert forall|c: Seq<char>| #![trigger has_tag(h.push(x_), c)] #![trigger has_link(h.push(x_), c)] (has_tag(h.push(x_), c) <==> has_tag(h, c) || tag_at(x_, c)) && (has_link(h.push(x_), c) <==> has_link(h, c) || link_at(x_, c)) by { has_push(h, x_, c); } }
@unfoldend fold#0
    proof { h = h.push(x0); assert(h =~= p0@.take(h.len() as int)); }
@unfoldafter fold#0
    proof { assert(h =~= p0@); }
@@end

@@closure src/parsers.rs currency_list validate#0
@as currency_list_gather
@sig
fn currency_list_gather<'s>(p0: (Spanned<Currency<'s>>, Vec<Spanned<Currency<'s>>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: HashSet<Spanned<Currency<'s>>>)
@subst? .into() =>> .into_()
@subst? currencies.into_iter() =>> owned(currencies)
@spec
    ensures
        forall|c: Seq<char>| #[trigger] r@.contains_key(c) <==> p0.0.content() == c || listed(p0.1@, c), // [C13]
        keyed_set(r@),
        final(p2).emitted() == old(p2).emitted() + 1 + p0.1@.len() - r@.dom().len(), // [C13]
        gathered_currencies(p0.0, p0.1@, r, final(p2).emitted() - old(p2).emitted()), // [C13]
@start
    let ghost e0 = p2.emitted();
    let ghost mut h = Seq::<Spanned<Currency<'s>>>::empty();
    let ghost all = p0.1@.push(p0.0);
    proof { assert forall|c: Seq<char>| #[trigger] listed(all, c) <==> listed(p0.1@, c) || p0.0.content() == c by { listed_push(p0.1@, p0.0, c); } }
@unfold fold#0 y
    invariant
        h == y.history(), y.seq() == all, h.len() <= all.len(), h == all.take(h.len() as int),
        forall|c: Seq<char>| #[trigger] acc_@.contains_key(c) <==> listed(h, c),
        keyed_set(acc_@),
        emitter.emitted() == e0 + h.len() - acc_@.dom().len(),
@unfoldstart fold#0
    let ghost x0 = x_;
    proof { assert forall|c: Seq<char>| #[trigger] listed(h.push(x_), c) <==> listed(h, c) || x_.content() == c by { listed_push(h, x_, c); } }
@unfoldend fold#0
    proof { h = h.push(x0); assert(h =~= all.take(h.len() as int)); }
@unfoldafter fold#0
    proof { assert(h =~= all); }
@@end

@@closure src/parsers.rs metadata validate#0
@as metadata_gather
@sig
fn metadata_gather<'s>(p0: Vec<Metadatum<'s>>, p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Metadata<'s>)
@subst? .into() =>> .into_()
@subst? use hash_map::Entry::* =>> use Entry::*
@subst? metadata.into_iter() =>> owned(metadata)
@spec
    ensures
        forall|c: Seq<char>| #[trigger] r.tags@.contains_key(c) <==> has_meta_tag(p0@, c), // [C13]
        forall|c: Seq<char>| #[trigger] r.links@.contains_key(c) <==> has_meta_link(p0@, c), // [C13]
        forall|c: Seq<char>| #[trigger] r.key_values@.contains_key(c) <==> has_meta_key(p0@, c), // [C13]
        forall|c: Seq<char>| #[trigger] r.key_values@.contains_key(c) ==> exists|i: int| 0 <= i < p0@.len() && #[trigger] gives(p0@[i], c, r.key_values@[c]), // [C13]
        keyed_set(r.tags@), keyed_set(r.links@), keyed(r.key_values@),
        final(p2).emitted() == old(p2).emitted() + p0@.len() - r.tags@.dom().len() - r.links@.dom().len() - r.key_values@.dom().len(), // [C13]
        gathered_metadata(p0@, r, final(p2).emitted() - old(p2).emitted()), // [C13]
@start
    use Metadatum::*;
    let ghost e0 = p2.emitted();
    let ghost mut h = Seq::<Metadatum<'s>>::empty();
@unfold fold#0 y
    invariant
        h == y.history(), y.seq() == p0@, h.len() <= p0@.len(), h == p0@.take(h.len() as int),
        forall|c: Seq<char>| #[trigger] acc_.tags@.contains_key(c) <==> has_meta_tag(h, c),
        forall|c: Seq<char>| #[trigger] acc_.links@.contains_key(c) <==> has_meta_link(h, c),
        forall|c: Seq<char>| #[trigger] acc_.key_values@.contains_key(c) <==> has_meta_key(h, c),
        forall|c: Seq<char>| #[trigger] acc_.key_values@.contains_key(c) ==> exists|i: int| 0 <= i < h.len() && #[trigger] gives(p0@[i], c, acc_.key_values@[c]),
        keyed_set(acc_.tags@), keyed_set(acc_.links@), keyed(acc_.key_values@),
        emitter.emitted() == e0 + h.len() - acc_.tags@.dom().len() - acc_.links@.dom().len() - acc_.key_values@.dom().len(),
@unfoldstart fold#0
    let ghost x0 = x_; let ghost a0 = acc_;
    proof { assert forall|c: Seq<char>| #![trigger has_meta_tag(h.push(x_), c)] #![trigger has_meta_link(h.push(x_), c)] #![trigger has_meta_key(h.push(x_), c)]
        (has_meta_tag(h.push(x_), c) <==> has_meta_tag(h, c) || meta_tag_at(x_, c)) && (has_meta_link(h.push(x_), c) <==> has_meta_link(h, c) || meta_link_at(x_, c)) && (has_meta_key(h.push(x_), c) <==> has_meta_key(h, c) || meta_key_at(x_, c))
        by { has_meta_push(h, x_, c); } }
@unfoldend fold#0
    proof {
        let n = h.len() as int;
        assert(p0@[n] == x0);
        assert forall|c: Seq<char>| #[trigger] acc_.key_values@.contains_key(c) implies exists|i: int| 0 <= i < n + 1 && #[trigger] gives(p0@[i], c, acc_.key_values@[c]) by {
            if a0.key_values@.contains_key(c) {
                let i = choose|i: int| 0 <= i < n && #[trigger] gives(p0@[i], c, a0.key_values@[c]);
                assert(gives(p0@[i], c, acc_.key_values@[c]));
            } else { assert(gives(p0@[n], c, acc_.key_values@[c])); }
        }
        h = h.push(x0); assert(h =~= p0@.take(h.len() as int)); }
@unfoldafter fold#0
    proof { assert(h =~= p0@); }
@@end

impl<'a> Metadata<'a> {
@@fn src/parsers.rs Metadata::merge_tags
@subst? .into() =>> .into_()
@spec
    ensures
        united(old(self).tags@, tags@, final(self).tags@), final(emitter).emitted() - old(emitter).emitted() == surplus(old(self).tags@, tags@, final(self).tags@), // [C13]
        final(self).key_values == old(self).key_values, final(self).links == old(self).links, // [C13]
@start
    let ghost mut h = Seq::<&Spanned<Tag<'a>>>::empty();
    let ghost e0 = emitter.emitted();
@afterloop 1
    proof { assert forall|c: Seq<char>| #[trigger] tags@.contains_key(c) implies ref_among(h, c) && self.tags@.contains_key(c) by {} all_len(h, tags@); }
@loop 1 for y .iter()
    invariant
        h == y.history(), set_enumerates(y.seq(), tags@),
        forall|i: int| #![trigger y.seq()[i]] 0 <= i < h.len() ==> h[i] == y.seq()[i],
        self.key_values == old(self).key_values, self.links == old(self).links,
        forall|c: Seq<char>| #[trigger] ref_among(h, c) ==> tags@.contains_key(c),
        forall|c: Seq<char>| #[trigger] self.tags@.contains_key(c) <==> old(self).tags@.contains_key(c) || ref_among(h, c),
        forall|c: Seq<char>| #[trigger] old(self).tags@.contains_key(c) ==> self.tags@[c] == old(self).tags@[c],
        forall|c: Seq<char>| #[trigger] self.tags@.contains_key(c) && !old(self).tags@.contains_key(c) ==> self.tags@[c] == tags@[c],
        emitter.emitted() - e0 == old(self).tags@.dom().len() + h.len() - self.tags@.dom().len(),
@loopstart 1
    proof { assert(y.seq()[h.len() as int] == tag);
        assert(!ref_among(h, tag.content())) by { if ref_among(h, tag.content()) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).content() == tag.content(); assert(y.seq()[i] == h[i]); } } }
@loopend 1
    proof { assert forall|c: Seq<char>| #[trigger] ref_among(h.push(tag), c) == (ref_among(h, c) || tag.content() == c) by { ref_among_push(h, tag, c); }
        h = h.push(tag); }
@@end
@@fn src/parsers.rs Metadata::merge_links
@subst? .into() =>> .into_()
@spec
    ensures
        united(old(self).links@, links@, final(self).links@), final(emitter).emitted() - old(emitter).emitted() == surplus(old(self).links@, links@, final(self).links@), // [C13]
        final(self).key_values == old(self).key_values, final(self).tags == old(self).tags, // [C13]
@start
    let ghost mut h = Seq::<&Spanned<Link<'a>>>::empty();
    let ghost e0 = emitter.emitted();
@afterloop 1
    proof { assert forall|c: Seq<char>| #[trigger] links@.contains_key(c) implies ref_among(h, c) && self.links@.contains_key(c) by {} all_len(h, links@); }
@loop 1 for y .iter()
    invariant
        h == y.history(), set_enumerates(y.seq(), links@),
        forall|i: int| #![trigger y.seq()[i]] 0 <= i < h.len() ==> h[i] == y.seq()[i],
        self.key_values == old(self).key_values, self.tags == old(self).tags,
        forall|c: Seq<char>| #[trigger] ref_among(h, c) ==> links@.contains_key(c),
        forall|c: Seq<char>| #[trigger] self.links@.contains_key(c) <==> old(self).links@.contains_key(c) || ref_among(h, c),
        forall|c: Seq<char>| #[trigger] old(self).links@.contains_key(c) ==> self.links@[c] == old(self).links@[c],
        forall|c: Seq<char>| #[trigger] self.links@.contains_key(c) && !old(self).links@.contains_key(c) ==> self.links@[c] == links@[c],
        emitter.emitted() - e0 == old(self).links@.dom().len() + h.len() - self.links@.dom().len(),
@loopstart 1
    proof { assert(y.seq()[h.len() as int] == link);
        assert(!ref_among(h, link.content())) by { if ref_among(h, link.content()) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).content() == link.content(); assert(y.seq()[i] == h[i]); } } }
@loopend 1
    proof { assert forall|c: Seq<char>| #[trigger] ref_among(h.push(link), c) == (ref_among(h, c) || link.content() == c) by { ref_among_push(h, link, c); }
        h = h.push(link); }
@@end
}

// ---------------------------------------------------------------- assembly of directives



@@closure src/parsers.rs transaction validate#0
@as transaction_assemble
@sig
fn transaction_assemble<'s>(p0: ((Spanned<Date>, Spanned<Flag>, (Option<Spanned<&'s str>>, Option<Spanned<&'s str>>), (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>, Vec<Spanned<Posting<'s>>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Transaction(Transaction { flag: (p0.0).1, payee: ((p0.0).2).0, narration: ((p0.0).2).1, postings: p0.2 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).3, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Transaction(Transaction { flag: (p0.0).1, payee: ((p0.0).2).0, narration: ((p0.0).2).1, postings: p0.2 }), p0.1, (p0.0).3, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs price validate#0
@as price_assemble
@sig
fn price_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<Currency<'s>>, Spanned<Amount<'s>>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Price(Price { currency: (p0.0).2, amount: (p0.0).3 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).4, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Price(Price { currency: (p0.0).2, amount: (p0.0).3 }), p0.1, (p0.0).4, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs balance validate#0
@as balance_assemble
@sig
fn balance_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<Account<'s>>, Spanned<AmountWithTolerance<'s>>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Balance(Balance { account: (p0.0).2, atol: (p0.0).3 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).4, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Balance(Balance { account: (p0.0).2, atol: (p0.0).3 }), p0.1, (p0.0).4, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs open validate#0
@as open_assemble
@sig
fn open_assemble<'s>(p0: ((Spanned<Date>, Spanned<Account<'s>>, HashSet<Spanned<Currency<'s>>>, Option<Spanned<Booking>>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Open(Open { account: (p0.0).1, currencies: (p0.0).2, booking: (p0.0).3 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).4, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Open(Open { account: (p0.0).1, currencies: (p0.0).2, booking: (p0.0).3 }), p0.1, (p0.0).4, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs close validate#0
@as close_assemble
@sig
fn close_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<Account<'s>>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Close(Close { account: (p0.0).2 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).3, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Close(Close { account: (p0.0).2 }), p0.1, (p0.0).3, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs commodity validate#0
@as commodity_assemble
@sig
fn commodity_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<Currency<'s>>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Commodity(Commodity { currency: (p0.0).2 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).3, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Commodity(Commodity { currency: (p0.0).2 }), p0.1, (p0.0).3, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs pad validate#0
@as pad_assemble
@sig
fn pad_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<Account<'s>>, Spanned<Account<'s>>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Pad(Pad { account: (p0.0).2, source: (p0.0).3 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).4, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Pad(Pad { account: (p0.0).2, source: (p0.0).3 }), p0.1, (p0.0).4, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs document validate#0
@as document_assemble
@sig
fn document_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<Account<'s>>, Spanned<&'s str>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Document(Document { account: (p0.0).2, path: (p0.0).3 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).4, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Document(Document { account: (p0.0).2, path: (p0.0).3 }), p0.1, (p0.0).4, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs note validate#0
@as note_assemble
@sig
fn note_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<Account<'s>>, Spanned<&'s str>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Note(Note { account: (p0.0).2, comment: (p0.0).3 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).4, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Note(Note { account: (p0.0).2, comment: (p0.0).3 }), p0.1, (p0.0).4, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs event validate#0
@as event_assemble
@sig
fn event_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<&'s str>, Spanned<&'s str>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Event(Event { event_type: (p0.0).2, description: (p0.0).3 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).4, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Event(Event { event_type: (p0.0).2, description: (p0.0).3 }), p0.1, (p0.0).4, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs query validate#0
@as query_assemble
@sig
fn query_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<&'s str>, Spanned<&'s str>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)), Spanned<Metadata<'s>>), p1: Span_, p2: &mut Emitter<ParserError<'s>>) -> (r: Directive<'s>)
@subst? metadata.merge_tags =>> metadata.item.merge_tags
@subst? metadata.merge_links =>> metadata.item.merge_links
@spec
    ensures
        r.date == (p0.0).0, // [C20]
        r.variant == DirectiveVariant::Query(Query { name: (p0.0).2, content: (p0.0).3 }), // [C20]
        r.metadata.span == p0.1.span, r.metadata.item.key_values == p0.1.item.key_values, // [C20]
        joined(p0.1.item, (p0.0).4, r.metadata.item, final(p2).emitted() - old(p2).emitted()), // [C13]
        assembled((p0.0).0, DirectiveVariant::Query(Query { name: (p0.0).2, content: (p0.0).3 }), p0.1, (p0.0).4, r, final(p2).emitted() - old(p2).emitted()), // [C13, C20]
@@end

@@closure src/parsers.rs custom map#0
@as custom_assemble
@sig
fn custom_assemble<'s>(p0: ((Spanned<Date>, Token<'s>, Spanned<&'s str>, Vec<Spanned<MetaValue<'s>>>), Spanned<Metadata<'s>>)) -> (r: Directive<'s>)
@spec
    ensures r.date == (p0.0).0, r.metadata == p0.1, r.variant == DirectiveVariant::Custom(Custom { type_: (p0.0).2, values: (p0.0).3 }), // [C20]
@@end

@@closure src/parsers.rs open_header_line map#0
@as open_header_line_assemble
@sig
fn open_header_line_assemble<'s>(p0: (Spanned<Date>, Token<'s>, Spanned<Account<'s>>, HashSet<Spanned<Currency<'s>>>, Option<Spanned<Booking>>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>))) -> (r: (Spanned<Date>, Spanned<Account<'s>>, HashSet<Spanned<Currency<'s>>>, Option<Spanned<Booking>>, (HashSet<Spanned<Tag<'s>>>, HashSet<Spanned<Link<'s>>>)))
@spec
    ensures r == (p0.0, p0.2, p0.3, p0.4, p0.5), // [C20]
@@end

@@closure src/parsers.rs currency_list map#0
@as currency_list_default
@sig
fn currency_list_default<'s>(p0: Option<HashSet<Spanned<Currency<'s>>>>) -> (r: HashSet<Spanned<Currency<'s>>>)
@subst? currencies.unwrap_or_default() =>> or_empty(currencies)
@spec
    ensures p0 is Some ==> r == p0->0, p0 is None ==> r@ == Map::<Seq<char>, Spanned<Currency<'s>>>::empty(), // [C13, C20]
@@end

@@closure src/parsers.rs transaction_header_line map#0
@as payee_narration
@sig
fn payee_narration<'s>(p0: (Option<Spanned<&'s str>>, Option<Spanned<&'s str>>)) -> (r: (Option<Spanned<&'s str>>, Option<Spanned<&'s str>>))
@spec
    ensures r == (if p0.0 is Some && p0.1 is None { (None, p0.0) } else { p0 }), // [C20]
@@end

@@closure src/parsers.rs transaction_header_line map#1
@as payee_narration_nonempty
@sig
fn payee_narration_nonempty<'s>(p0: (Option<Spanned<&'s str>>, Option<Spanned<&'s str>>)) -> (r: (Option<Spanned<&'s str>>, Option<Spanned<&'s str>>))
@spec
    ensures r == (nonempty(p0.0), nonempty(p0.1)), // [C20]
@@end

impl<'a> Spanned<&'a str> {
    // through Deref
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.item@.len() == 0) { unimplemented!() }
}
@@fn src/parsers.rs replace_some_empty_with_none
@sig
fn replace_some_empty_with_none<'a>(s: Option<Spanned<&'a str>>) -> (r: Option<Spanned<&'a str>>)
@spec
    ensures r == nonempty(s), // [C20]
@@end

@@closure src/parsers.rs posting map#2
@of 3
@as posting_assemble
@sig
fn posting_assemble<'s>(p0: (Spanned<(Option<Spanned<Flag>>, Spanned<Account<'s>>, Option<Spanned<ExprValue>>, Option<Spanned<Currency<'s>>>, Option<Spanned<CostSpec<'s>>>, Option<Spanned<PriceSpec<'s>>>)>, Spanned<Metadata<'s>>)) -> (r: Spanned<Posting<'s>>)
@spec
    ensures r == (Spanned { item: Posting { flag: (p0.0.item).0, account: (p0.0.item).1, amount: (p0.0.item).2, currency: (p0.0.item).3, cost_spec: (p0.0.item).4, price_annotation: (p0.0.item).5, metadata: p0.1 }, span: p0.0.span }), // [C20]
@@end

@@closure src/parsers.rs posting map_with#0
@as posting_cost_spec
@sig
fn posting_cost_spec<'s>(p0: Option<CostSpec<'s>>, p1: &mut MapExtra) -> (r: Option<Spanned<CostSpec<'s>>>)
@closure map#0
    |$p0: CostSpec<'s>| -> (v: Spanned<CostSpec<'s>>) ensures v.item == $p0, v.span == e.at() { $body }
@spec
    ensures r is Some == p0 is Some, r is Some ==> r->0 == (Spanned { item: p0->0, span: old(p1).at() }), // [C20]
@@end
@@closure src/parsers.rs posting map_with#1
@as posting_price_spec
@sig
fn posting_price_spec<'s>(p0: Option<PriceSpec<'s>>, p1: &mut MapExtra) -> (r: Option<Spanned<PriceSpec<'s>>>)
@closure map#0
    |$p0: PriceSpec<'s>| -> (v: Spanned<PriceSpec<'s>>) ensures v.item == $p0, v.span == e.at() { $body }
@spec
    ensures r is Some == p0 is Some, r is Some ==> r->0 == (Spanned { item: p0->0, span: old(p1).at() }), // [C20]
@@end
@@fn src/parsers.rs price_annotation>scope
@ret r
@spec
    ensures r == (if is_total { ScopedExprValue::Total(amount) } else { ScopedExprValue::PerUnit(amount) }), // [C20]
@@end
@@closure src/parsers.rs price_annotation try_map#0
@as price_annotation_assemble
@sig
fn price_annotation_assemble<'s>(p0: (bool, Option<ExprValue>, Option<Currency<'s>>), p1: Span_) -> (r: Result<PriceSpec<'s>, ParserError<'s>>)
@start
    use PriceSpec::*;
@spec
    ensures r == Ok::<PriceSpec<'s>, ParserError<'s>>(annotated(p0.0, p0.1, p0.2)), // [C20]
@@end

@@closure src/parsers.rs meta_key_value map#0
@as meta_key_value_assemble
@sig
fn meta_key_value_assemble<'s>(p0: (Spanned<Key<'s>>, Spanned<Option<MetaValue<'s>>>)) -> (r: MetaKeyValue<'s>)
@closure map_into#0
    |$p0: Option<MetaValue<'s>>| -> (v: MetaValue<'s>) ensures v == (if $p0 is Some { $p0->0 } else { MetaValue::Simple(SimpleValue::Null) }) { $body }
@spec
    ensures r.key == p0.0, r.value.span == p0.1.span, r.value.item == (if p0.1.item is Some { p0.1.item->0 } else { MetaValue::Simple(SimpleValue::Null) }), // [C20]
@@end

@@closure src/parsers.rs amount_with_tolerance map_with#0
@as amount_without_tolerance
@sig
fn amount_without_tolerance<'s>(p0: Amount<'s>, p1: &mut MapExtra) -> (r: AmountWithTolerance<'s>)
@spec
    ensures r.amount == (Spanned { item: p0, span: old(p1).at() }), r.tolerance is None, // [C20]
@@end
@@closure src/parsers.rs amount_with_tolerance map_with#1
@as amount_with_a_tolerance
@sig
fn amount_with_a_tolerance<'s>(p0: (Spanned<ExprValue>, Token<'s>, Spanned<Decimal>, Spanned<Currency<'s>>), p1: &mut MapExtra) -> (r: AmountWithTolerance<'s>)
@spec
    ensures r.amount == (Spanned { item: Amount { number: p0.0, currency: p0.3 }, span: old(p1).at() }), r.tolerance == Some(p0.2), // [C20]
@@end

// ---------------------------------------------------------------- accessors: each gives its own field

spec fn same_opt<T>(o: Option<T>, r: Option<&T>) -> bool { r is Some == o is Some && (r is Some ==> *r->0 == o->0) }
impl<'a> Directive<'a> {
@@fn src/types.rs Directive::date
@ret r
@spec
    ensures *r == self.date, // [C20]
@@end
@@fn src/types.rs Directive::variant
@ret r
@spec
    ensures *r == self.variant, // [C20]
@@end
@@fn src/types.rs Directive::metadata
@ret r
@subst? &self.metadata =>> &self.metadata.item
@spec
    ensures *r == self.metadata.item, // [C20]
@@end
}
impl<'a> Transaction<'a> {
@@fn src/types.rs Transaction::flag
@ret r
@spec
    ensures *r == self.flag, // [C20]
@@end
@@fn src/types.rs Transaction::payee
@ret r
@spec
    ensures same_opt(self.payee, r), // [C20]
@@end
@@fn src/types.rs Transaction::narration
@ret r
@spec
    ensures same_opt(self.narration, r), // [C20]
@@end
}
impl<'a> Price<'a> {
@@fn src/types.rs Price::currency
@ret r
@spec
    ensures *r == self.currency, // [C20]
@@end
@@fn src/types.rs Price::amount
@ret r
@spec
    ensures *r == self.amount, // [C20]
@@end
}
impl<'a> Balance<'a> {
@@fn src/types.rs Balance::account
@ret r
@spec
    ensures *r == self.account, // [C20]
@@end
@@fn src/types.rs Balance::atol
@ret r
@spec
    ensures *r == self.atol, // [C20]
@@end
}
impl<'a> Open<'a> {
@@fn src/types.rs Open::account
@ret r
@spec
    ensures *r == self.account, // [C20]
@@end
@@fn src/types.rs Open::booking
@ret r
@spec
    ensures same_opt(self.booking, r), // [C20]
@@end
}
impl<'a> Close<'a> {
@@fn src/types.rs Close::account
@ret r
@spec
    ensures *r == self.account, // [C20]
@@end
}
impl<'a> Commodity<'a> {
@@fn src/types.rs Commodity::currency
@ret r
@spec
    ensures *r == self.currency, // [C20]
@@end
}
impl<'a> Pad<'a> {
@@fn src/types.rs Pad::account
@ret r
@spec
    ensures *r == self.account, // [C20]
@@end
@@fn src/types.rs Pad::source
@ret r
@spec
    ensures *r == self.source, // [C20]
@@end
}
impl<'a> Document<'a> {
@@fn src/types.rs Document::account
@ret r
@spec
    ensures *r == self.account, // [C20]
@@end
@@fn src/types.rs Document::path
@ret r
@spec
    ensures *r == self.path, // [C20]
@@end
}
impl<'a> Note<'a> {
@@fn src/types.rs Note::account
@ret r
@spec
    ensures *r == self.account, // [C20]
@@end
@@fn src/types.rs Note::comment
@ret r
@spec
    ensures *r == self.comment, // [C20]
@@end
}
impl<'a> Event<'a> {
@@fn src/types.rs Event::event_type
@ret r
@spec
    ensures *r == self.event_type, // [C20]
@@end
@@fn src/types.rs Event::description
@ret r
@spec
    ensures *r == self.description, // [C20]
@@end
}
impl<'a> Query<'a> {
@@fn src/types.rs Query::name
@ret r
@spec
    ensures *r == self.name, // [C20]
@@end
@@fn src/types.rs Query::content
@ret r
@spec
    ensures *r == self.content, // [C20]
@@end
}
impl<'a> Custom<'a> {
@@fn src/types.rs Custom::type_
@ret r
@spec
    ensures *r == self.type_, // [C20]
@@end
}
impl<'a> Plugin<'a> {
@@fn src/types.rs Plugin::module_name
@ret r
@spec
    ensures *r == self.module_name, // [C20]
@@end
@@fn src/types.rs Plugin::config
@ret r
@spec
    ensures same_opt(self.config, r), // [C20]
@@end
}
impl<'a> Posting<'a> {
@@fn src/types.rs Posting::account
@ret r
@spec
    ensures *r == self.account, // [C20]
@@end
@@fn src/types.rs Posting::flag
@ret r
@spec
    ensures same_opt(self.flag, r), // [C20]
@@end
@@fn src/types.rs Posting::amount
@ret r
@spec
    ensures same_opt(self.amount, r), // [C20]
@@end
@@fn src/types.rs Posting::currency
@ret r
@spec
    ensures same_opt(self.currency, r), // [C20]
@@end
@@fn src/types.rs Posting::cost_spec
@ret r
@spec
    ensures same_opt(self.cost_spec, r), // [C20]
@@end
@@fn src/types.rs Posting::price_annotation
@ret r
@spec
    ensures same_opt(self.price_annotation, r), // [C20]
@@end
@@fn src/types.rs Posting::metadata
@ret r
@subst? &self.metadata =>> &self.metadata.item
@spec
    ensures *r == self.metadata.item, // [C20]
@@end
}
impl<'a> Amount<'a> {
@@fn src/types.rs Amount::number
@ret r
@spec
    ensures *r == self.number, // [C20]
@@end
@@fn src/types.rs Amount::currency
@ret r
@spec
    ensures *r == self.currency, // [C20]
@@end
}
impl<'a> AmountWithTolerance<'a> {
@@fn src/types.rs AmountWithTolerance::amount
@ret r
@spec
    ensures *r == self.amount, // [C20]
@@end
@@fn src/types.rs AmountWithTolerance::tolerance
@ret r
@spec
    ensures same_opt(self.tolerance, r), // [C20]
@@end
}
impl<'a> LooseAmount<'a> {
@@fn src/types.rs LooseAmount::number
@ret r
@spec
    ensures same_opt(self.number, r), // [C20]
@@end
@@fn src/types.rs LooseAmount::currency
@ret r
@spec
    ensures same_opt(self.currency, r), // [C20]
@@end
}
impl<'a> CostSpec<'a> {
@@fn src/types.rs CostSpec::per_unit
@ret r
@spec
    ensures same_opt(self.per_unit, r), // [C20]
@@end
@@fn src/types.rs CostSpec::total
@ret r
@spec
    ensures same_opt(self.total, r), // [C20]
@@end
@@fn src/types.rs CostSpec::currency
@ret r
@spec
    ensures same_opt(self.currency, r), // [C20]
@@end
@@fn src/types.rs CostSpec::date
@ret r
@spec
    ensures same_opt(self.date, r), // [C20]
@@end
@@fn src/types.rs CostSpec::label
@ret r
@spec
    ensures same_opt(self.label, r), // [C20]
@@end
@@fn src/types.rs CostSpec::merge
@ret r
@spec
    ensures r == self.merge, // [C20]
@@end
}
impl<'a> Amount<'a> {
@@fn src/types.rs Amount::new
@ret r
@spec
    ensures r.number == amount.0, r.currency == amount.1, // [C20]
@@end
}
impl<'a> AmountWithTolerance<'a> {
@@fn src/types.rs AmountWithTolerance::new
@ret r
@spec
    ensures r.amount == awt.0, r.tolerance == awt.1, // [C20]
@@end
}
impl<'a> LooseAmount<'a> {
@@fn src/types.rs LooseAmount::new
@ret r
@spec
    ensures r.number == amount.0, r.currency == amount.1, // [C20]
@@end
}

impl<'a> Metadata<'a> {
@@fn src/types.rs Metadata::tags
@sig
fn tags<'b>(&'b self) -> (r: std::vec::IntoIter<&'b Spanned<Tag<'a>>>)
@spec
    ensures set_enumerates(r.remaining(), self.tags@), // [C20]
@@end
@@fn src/types.rs Metadata::links
@sig
fn links<'b>(&'b self) -> (r: std::vec::IntoIter<&'b Spanned<Link<'a>>>)
@spec
    ensures set_enumerates(r.remaining(), self.links@), // [C20]
@@end
@@fn src/types.rs Metadata::key_values
@sig
fn key_values<'b>(&'b self) -> (r: std::vec::IntoIter<(&'b Spanned<Key<'a>>, &'b Spanned<MetaValue<'a>>)>)
@spec
    ensures enumerates(r.remaining(), self.key_values@), // [C20]
@@end
@@fn src/types.rs Metadata::is_empty
@ret r
@subst? .len() =>> .len_()
@spec
    ensures r == (self.key_values@.dom().len() == 0 && self.tags@.dom().len() == 0 && self.links@.dom().len() == 0), // [C20]
@start
    proof { no_elements(self.tags@); no_elements(self.links@); no_entries(self.key_values@); }
@@end
@@fn src/types.rs Metadata::key_value
@sig
fn key_value(&self, key: Key<'a>) -> (r: Option<&Spanned<MetaValue<'a>>>)
@spec
    ensures (r is Some) == self.key_values@.contains_key(key.0@), r is Some ==> *r->0 == self.key_values@[key.0@].1, // [C20]
@@end
}
/// nothing to list exactly if there is nothing
proof fn no_elements<K: Content>(m: Map<K::C, K>) ensures forall|s: Seq<&K>| #[trigger] set_enumerates(s, m) ==> (s.len() == 0 <==> m.dom().len() == 0) {
    assert forall|s: Seq<&K>| #[trigger] set_enumerates(s, m) implies (s.len() == 0 <==> m.dom().len() == 0) by {
        if s.len() == 0 && m.dom().len() != 0 { let c = m.dom().choose(); assert(m.contains_key(c)); assert(ref_among(s, c)); }
        if s.len() != 0 { assert(m.dom().contains(s[0].content())); }
    }
}
proof fn no_entries<K: Content, V>(m: Map<K::C, (K, V)>) ensures forall|s: Seq<(&K, &V)>| #[trigger] enumerates(s, m) ==> (s.len() == 0 <==> m.dom().len() == 0) {
    assert forall|s: Seq<(&K, &V)>| #[trigger] enumerates(s, m) implies (s.len() == 0 <==> m.dom().len() == 0) by {
        if s.len() == 0 && m.dom().len() != 0 { let c = m.dom().choose(); assert(m.contains_key(c)); assert(among(s, c)); }
        if s.len() != 0 { assert(m.dom().contains(s[0].0.content())); }
    }
}
impl<'a> Transaction<'a> {
@@fn src/types.rs Transaction::postings
@sig
fn postings<'b>(&'b self) -> (r: std::vec::IntoIter<&'b Spanned<Posting<'a>>>)
@subst? self.postings.iter() =>> refs(&self.postings)
@spec
    ensures lists(r.remaining(), self.postings@), // [C20]
@@end
}
impl<'a> Custom<'a> {
@@fn src/types.rs Custom::values
@sig
fn values<'b>(&'b self) -> (r: std::vec::IntoIter<&'b Spanned<MetaValue<'a>>>)
@subst? self.values.iter() =>> refs(&self.values)
@spec
    ensures lists(r.remaining(), self.values@), // [C20]
@@end
}
impl<'a> Open<'a> {
@@fn src/types.rs Open::currencies
@sig
fn currencies<'b>(&'b self) -> (r: std::vec::IntoIter<&'b Spanned<Currency<'a>>>)
@spec
    ensures set_enumerates(r.remaining(), self.currencies@), // [C20]
@@end
}
spec fn lists<T>(s: Seq<&T>, v: Seq<T>) -> bool { s.len() == v.len() && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> *s[i] == v[i] }
// assumed: Vec::iter, ExactSizeIterator::len, HashMap::keys
#[verifier::external_body]
fn refs<'b, T>(v: &'b Vec<T>) -> (r: std::vec::IntoIter<&'b T>) ensures lists(r.remaining(), v@) { unimplemented!() }
trait ExactLen { fn len_(&self) -> (r: usize); }
impl<T> ExactLen for std::vec::IntoIter<T> {
    #[verifier::external_body]
    fn len_(&self) -> (r: usize) ensures r == self.remaining().len() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
struct Keys<'b, K> { x: &'b K }
impl<'b, K> Keys<'b, K> {
    uninterp spec fn some(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'b K>) ensures r is Some == old(self).some() { unimplemented!() }
}
impl<K: Content, V> HashMap<K, V> {
    #[verifier::external_body]
    fn keys<'b>(&'b self) -> (r: Keys<'b, K>) ensures !r.some() ==> self@ == Map::<K::C, (K, V)>::empty() { unimplemented!() }
}

}
