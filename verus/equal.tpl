// Unit equal: equality of everything parsed is equality of contents, wherever they are written, src/types.rs (C18)
#![allow(unused)]
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- stubs: PartialEq of std, with what an implementation means
trait PartialEq: Sized {
    spec fn same(&self, other: &Self) -> bool;
    fn eq(&self, other: &Self) -> (r: bool) ensures r == self.same(other);
    // the provided method
    fn ne(&self, other: &Self) -> (r: bool) ensures r == !self.same(other) { !self.eq(other) }
}
impl PartialEq for bool { spec fn same(&self, other: &Self) -> bool { *self == *other } fn eq(&self, other: &Self) -> (r: bool) { *self == *other } }
impl PartialEq for char { spec fn same(&self, other: &Self) -> bool { *self == *other } fn eq(&self, other: &Self) -> (r: bool) { *self == *other } }
impl PartialEq for usize { spec fn same(&self, other: &Self) -> bool { *self == *other } fn eq(&self, other: &Self) -> (r: bool) { *self == *other } }
// assumed: texts are equal if their characters are
impl<'a> PartialEq for &'a str {
    spec fn same(&self, other: &Self) -> bool { (*self)@ == (*other)@ }
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
// assumed: time::Date
#[verifier::external_body] #[derive(Clone, Copy)] struct Date { x: u8 }
uninterp spec fn day(d: Date) -> int;
impl PartialEq for Date {
    spec fn same(&self, other: &Self) -> bool { day(*self) == day(*other) }
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
// assumed: rust_decimal::Decimal, numbers of the same value are equal whatever their scale
#[verifier::external_body] #[derive(Clone, Copy)] struct Decimal { x: u8 }
uninterp spec fn number(d: Decimal) -> (int, int);
impl PartialEq for Decimal {
    spec fn same(&self, other: &Self) -> bool { number(*self) == number(*other) }
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
// assumed: Option, Vec of std compare what they hold
impl<T: PartialEq> PartialEq for Option<T> {
    spec fn same(&self, other: &Self) -> bool {
        match self {
            Some(x) => match other { Some(y) => x.same(y), None => false },
            None => *other is None,
        }
    }
    fn eq(&self, other: &Self) -> (r: bool) {
        match self {
            Some(x) => match other { Some(y) => x.eq(y), None => false },
            None => match other { Some(_) => false, None => true },
        }
    }
}
impl<T: PartialEq> PartialEq for Vec<T> {
    spec fn same(&self, other: &Self) -> bool {
        self@.len() == other@.len() && forall|i: int| #![trigger self@[i]] #![trigger other@[i]] 0 <= i < self@.len() ==> self@[i].same(&other@[i])
    }
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
// assumed: HashMap and HashSet of std, over what tells keys apart
trait Content: Sized { type C; spec fn content(&self) -> Self::C; }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
struct HashSet<K> { m: std::collections::HashSet<K> }
impl<K: Content, V> HashMap<K, V> { uninterp spec fn view(&self) -> Map<K::C, V>; }
impl<K: Content> HashSet<K> { uninterp spec fn view(&self) -> Set<K::C>; }
impl<K: Content, V: PartialEq> PartialEq for HashMap<K, V> {
    spec fn same(&self, other: &Self) -> bool {
        self@.dom() =~= other@.dom() && forall|c: K::C| #![trigger self@[c]] #![trigger other@[c]] self@.contains_key(c) ==> self@[c].same(&other@[c])
    }
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
impl<K: Content> PartialEq for HashSet<K> {
    spec fn same(&self, other: &Self) -> bool { self@ =~= other@ }
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
impl<'a> Content for Key<'a> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.0@ } }
impl<'a> Content for Tag<'a> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.0@ } }
impl<'a> Content for Link<'a> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.0@ } }
impl<'a> Content for Currency<'a> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.0@ } }
impl<T: Content> Content for Spanned<T> { type C = T::C; spec fn content(&self) -> T::C { self.item.content() } }

// ---------------------------------------------------------------- elements, wherever they are
#[derive(Clone, Copy)]
@@item src/types.rs Span;
@@item src/types.rs Spanned;
impl<T> PartialEq for Spanned<T> where T: PartialEq {
    // C18: equal exactly if the contents are
    spec fn same(&self, other: &Self) -> bool { self.item.same(&other.item) }
@@fn src/types.rs PartialEq@Spanned::eq
@ret r
@@end
}

// ---------------------------------------------------------------- what elements are made of: the contract of each is read off its definition, contents in every field alike
@@item src/types.rs AccountType;
@@derived src/types.rs AccountType;
@@item src/types.rs Flag;
@@derived src/types.rs Flag;
@@item src/types.rs FlagLetter;
@@derived src/types.rs FlagLetter;
@@item src/types.rs Booking;
@@derived src/types.rs Booking;
@@item src/types.rs Subaccount;
@@derived src/types.rs Subaccount;
@@item src/types.rs AccountTypeName;
@@derived src/types.rs AccountTypeName;
@@item src/types.rs AccountName;
@@derived src/types.rs AccountName;
@@item src/types.rs Currency;
@@derived src/types.rs Currency;
@@item src/types.rs Tag;
@@derived src/types.rs Tag;
@@item src/types.rs Link;
@@derived src/types.rs Link;
@@item src/types.rs TagOrLinkIdentifier;
@@derived src/types.rs TagOrLinkIdentifier;
@@item src/types.rs Key;
@@derived src/types.rs Key;
@@item src/types.rs Account;
@@derived src/types.rs Account;
@@item src/types.rs Expr;
@@derived src/types.rs Expr;
@@item src/types.rs ExprValue;
@@derived src/types.rs ExprValue;
@@item src/types.rs CompoundExprValue;
@@derived src/types.rs CompoundExprValue;
@@item src/types.rs ScopedExprValue;
@@derived src/types.rs ScopedExprValue;
@@item src/types.rs Amount;
@@derived src/types.rs Amount;
@@item src/types.rs AmountWithTolerance;
@@derived src/types.rs AmountWithTolerance;
@@item src/types.rs LooseAmount;
@@derived src/types.rs LooseAmount;
@@item src/types.rs CompoundAmount;
@@derived src/types.rs CompoundAmount;
@@item src/types.rs CostSpec;
@@derived src/types.rs CostSpec;
@@item src/types.rs PriceSpec;
@@derived src/types.rs PriceSpec;
@@item src/types.rs SimpleValue;
@@derived src/types.rs SimpleValue;
@@item src/types.rs MetaValue;
@@derived src/types.rs MetaValue;
@@item src/types.rs MetaKeyValue;
@@derived src/types.rs MetaKeyValue;
@@item src/types.rs Metadata;
@@derived src/types.rs Metadata;
@@item src/types.rs Posting;
@@derived src/types.rs Posting;
@@item src/types.rs Transaction;
@@derived src/types.rs Transaction;
@@item src/types.rs Price;
@@derived src/types.rs Price;
@@item src/types.rs Balance;
@@derived src/types.rs Balance;
@@item src/types.rs Open;
@@derived src/types.rs Open;
@@item src/types.rs Close;
@@derived src/types.rs Close;
@@item src/types.rs Commodity;
@@derived src/types.rs Commodity;
@@item src/types.rs Pad;
@@derived src/types.rs Pad;
@@item src/types.rs Document;
@@derived src/types.rs Document;
@@item src/types.rs Note;
@@derived src/types.rs Note;
@@item src/types.rs Event;
@@derived src/types.rs Event;
@@item src/types.rs Query;
@@derived src/types.rs Query;
@@item src/types.rs Custom;
@@derived src/types.rs Custom;
@@item src/types.rs Plugin;
@@derived src/types.rs Plugin;
@@item src/types.rs DirectiveVariant;
@@derived src/types.rs DirectiveVariant;
@@item src/types.rs Directive;
@@derived src/types.rs Directive;

// ---------------------------------------------------------------- the property
/// C18: what tells two directives apart is not where they, or their parts, are
proof fn theorem_c18_moved<'a>(d: Spanned<Directive<'a>>, e: Spanned<Directive<'a>>)
    ensures d.same(&e) == (d.item.date.item.same(&e.item.date.item) && d.item.metadata.item.same(&e.item.metadata.item) && d.item.variant.same(&e.item.variant)),
{}
}
