// Unit names: account type names and accounts, src/types.rs AccountTypeNames, Account (C09)
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
macro_rules! format { ($($x:tt)*) => { wording() }; }
verus! {
@@include mem.inc
@@include identspec.inc
@@include hashed.inc
@@include entry.inc
// assumed: Option::copied
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures o is None ==> r is None, o is Some ==> r == Some(*o->0),
;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item src/types.rs AccountType;
#[derive(Clone, Copy)]
@@item src/types.rs AccountTypeName;
@@item src/types.rs AccountTypeNames;
@@item src/types.rs AccountTypeNamesError;
@@item src/types.rs AccountTypeNamesErrorKind;
impl<'a> Content for AccountTypeName<'a> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.0@ } }
spec fn index(t: AccountType) -> int { t as int }
proof fn types_differ() ensures forall|t: AccountType, u: AccountType| #[trigger] index(t) == #[trigger] index(u) ==> t == u, forall|t: AccountType| 0 <= #[trigger] index(t) < 5 {}
impl<'a> AccountTypeNames<'a> {
    /// C09: five types, five names, one to one
    spec fn wf(&self) -> bool {
        &&& self.name_by_type@.len() == 5
        &&& forall|t: AccountType| self.type_by_name@.contains_key(#[trigger] self.named(t)) && self.type_by_name@[self.named(t)].1 == t
        &&& forall|n: Seq<char>| #[trigger] self.type_by_name@.contains_key(n) ==> self.named(self.type_by_name@[n].1) == n
    }
    spec fn named(&self, t: AccountType) -> Seq<char> { self.name_by_type@[index(t)].0@ }
@@fn src/types.rs AccountTypeNames::name
@ret r
@spec
    requires self.wf(),
    ensures r.0@ == self.named(account_type), // [C09]
@@end
@@fn src/types.rs AccountTypeNames::get
@ret r
@spec
    requires self.wf(),
    ensures r is Some ==> self.named(r->0) == name.0@, forall|t: AccountType| (r == Some(t)) == (#[trigger] self.named(t) == name.0@), // [C09]
@@end
@@fn src/types.rs AccountTypeNames::update
@ret r
@subst? use hash_map::Entry::* =>> use Entry::*
@start
    proof { types_differ(); }
    let ghost before = *self;
@wrapend
    proof {
        if r_ is Ok && before.named(account_type) != name.0@ {
            assert(self.named(account_type) == name.0@);
            assert(self.type_by_name@.contains_key(name.0@));
            assert(self.type_by_name@[name.0@].1 == account_type);
            assert forall|t: AccountType| self.type_by_name@.contains_key(#[trigger] self.named(t)) && self.type_by_name@[self.named(t)].1 == t by {
                assert(t != account_type ==> self.named(t) == before.named(t));
                assert(before.named(t) == before.named(account_type) ==> t == account_type);
            }
            assert forall|n: Seq<char>| #[trigger] self.type_by_name@.contains_key(n) implies self.named(self.type_by_name@[n].1) == n by {
                assert(n != name.0@ ==> before.type_by_name@.contains_key(n));
            }
        }
    }
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C09]
        forall|t: AccountType| t != account_type ==> final(self).named(t) == old(self).named(t), // [C09]
        r is Ok ==> final(self).named(account_type) == name.0@, // [C09]
        r is Err ==> final(self).named(account_type) == old(self).named(account_type), // [C09]
        r is Err == (exists|t: AccountType| t != account_type && #[trigger] old(self).named(t) == name.0@), // [C09]
@@end
}

// ---------------------------------------------------------------- accounts
// proved in unit ident
#[derive(Debug)]
@@item src/types.rs AccountTypeNameError;
#[derive(Debug)]
@@item src/types.rs AccountTypeNameErrorKind;
@@item src/types.rs AccountName;
@@item src/types.rs AccountNameError;
@@item src/types.rs AccountNameErrorKind;
impl<'a> AccountTypeName<'a> {
    #[verifier::external_body]
    fn try_from(s: &'a str) -> (r: Result<Self, AccountTypeNameError>) ensures r is Ok == type_name_ok(s@), r is Ok ==> r->Ok_0.0 == s { unimplemented!() }
}
impl<'a> AccountName<'a> {
    #[verifier::external_body]
    fn try_from(s: &'a str) -> (r: Result<Self, AccountNameError>) ensures r is Ok == name_ok(s@), r is Ok ==> r->Ok_0.0 == s { unimplemented!() }
}
// assumed: splitting a text
struct Pieces<'a> { s: Vec<&'a str> }
impl<'a> Pieces<'a> {
    uninterp spec fn view(&self) -> Seq<Seq<char>>;
    fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    fn each(self) -> (r: std::vec::IntoIter<&'a str>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some, r.remaining().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r.remaining()[i])@ == self@[i],
    { unimplemented!() }
}
#[verifier::external_body]
fn split_colon<'a>(s: &'a str) -> (r: Pieces<'a>) ensures r@ == pieces(s@), pieces(s@).len() > 0 { unimplemented!() }
#[verifier::external_body]
fn wording() -> String { unimplemented!() }
@@item src/types.rs Account;
@@item src/types.rs AccountError;
@@item src/types.rs AccountErrorKind;
/// C09: accepted exactly if well formed and its first component is the name of some type
spec fn accepted(s: Seq<char>, n: &AccountTypeNames, t: AccountType) -> bool {
    type_name_ok(pieces(s)[0]) && (forall|i: int| 1 <= i < pieces(s).len() ==> name_ok(#[trigger] pieces(s)[i])) && n.named(t) == pieces(s)[0]
}
impl<'a> Account<'a> {
@@fn src/types.rs Account::new
@ret r
@subst? s.split(':') =>> split_colon(s)
@loop 1 for y .each()
    invariant y.seq().len() == pieces(s@).len() - 1, forall|i: int| 0 <= i < y.seq().len() ==> (#[trigger] y.seq()[i])@ == pieces(s@)[i + 1],
        forall|i: int| 1 <= i <= y.index() ==> name_ok(#[trigger] pieces(s@)[i]),
@spec
    requires account_type_names.wf(),
    ensures
        r is Ok ==> accepted(s@, account_type_names, r->Ok_0.account_type) && r->Ok_0.name == s, // [C09]
        r is Err ==> forall|t: AccountType| !accepted(s@, account_type_names, t), // [C09]
@@end
@@fn src/types.rs Account::account_type
@ret r
@spec
    ensures r == self.account_type, // [C09]
@@end
@@fn src/types.rs AsRef@Account::as_ref
@ret r
@spec
    ensures r == self.name, // [C09]
@@end
}

// ---------------------------------------------------------------- the default names
// assumed: iterating, mapping, collecting and sorting known things
trait Collected<T>: Sized { spec fn all(&self) -> Seq<T>; }
impl<T> Collected<T> for Vec<T> { spec fn all(&self) -> Seq<T> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Things<T> { v: Vec<T> }
impl<T> Things<T> {
    uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Things<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn collect<C: Collected<T>>(self) -> (r: C) ensures r.all() == self@ { unimplemented!() }
}
trait Iterated<T>: Sized {
    spec fn all_(&self) -> Seq<T>;
    fn iter_<'b>(&'b self) -> (r: Things<&'b T>) ensures r@.len() == self.all_().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.all_()[i];
    fn into_iter_(self) -> (r: Things<T>) ensures r@ == self.all_();
    // sorting what is in order already changes nothing
    fn sort_by_key_<F: FnMut(&T) -> usize>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).all_().len() ==> f.requires((&#[trigger] old(self).all_()[i],)),
        ensures
            (forall|i: int, j: int, x: usize, y: usize| 0 <= i < j < old(self).all_().len() && f.ensures((&#[trigger] old(self).all_()[i],), x) && f.ensures((&#[trigger] old(self).all_()[j],), y) ==> x <= y)
                ==> final(self).all_() == old(self).all_();
}
impl<T> Iterated<T> for Vec<T> {
    spec fn all_(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_<'b>(&'b self) -> (r: Things<&'b T>) { unimplemented!() }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: Things<T>) { unimplemented!() }
    #[verifier::external_body]
    fn sort_by_key_<F: FnMut(&T) -> usize>(&mut self, f: F) { unimplemented!() }
}
spec fn inserted<K: Content, V>(s: Seq<(K, V)>) -> Map<K::C, (K, V)> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { let m = inserted(s.drop_last()); let k = s.last().0.content(); m.insert(k, (if m.contains_key(k) { m[k].0 } else { s.last().0 }, s.last().1)) }
}
impl<K: Content, V> HashMap<K, V> {
    #[verifier::external_body]
    fn from_iter(t: Things<(K, V)>) -> (r: Self) ensures r@ == inserted(t@) { unimplemented!() }
}
spec fn default_name(t: AccountType) -> Seq<char> {
    match t { AccountType::Assets => "Assets"@, AccountType::Liabilities => "Liabilities"@, AccountType::Equity => "Equity"@, AccountType::Income => "Income"@, AccountType::Expenses => "Expenses"@ }
}
impl<'a> AccountTypeNames<'a> {
@@fn src/types.rs Default@AccountTypeNames::default
@ret r
@subst? names_types.iter() =>> names_types.iter_()
@subst? .into_iter() =>> .into_iter_()
@subst? .sort_by_key =>> .sort_by_key_
@closure map#0
|x: &(&'static str, AccountType)| -> (q: (&'static str, usize)) ensures q.0 == x.0, q.1 == index(x.1) { $bind0(x) $body }
@closure map#1
|x: (&'static str, usize)| -> (q: AccountTypeName<'static>) requires type_name_ok(x.0@), ensures q.0 == x.0 { $bind0(x) $body }
@closure map#2
|x: (&'static str, AccountType)| -> (q: (AccountTypeName<'static>, AccountType)) requires type_name_ok(x.0@), ensures q.0.0 == x.0, q.1 == x.1 { $bind0(x) $body }
@closure sort_by_key#0
|x: &(&'static str, usize)| -> (q: usize) ensures q == x.1 { $bind0(x) $body }
@start
    proof { default_names(); types_differ(); reveal_with_fuel(inserted, 6); }
@spec
    ensures r.wf(), forall|t: AccountType| #[trigger] r.named(t) == default_name(t), // [C09]
@@end
}
proof fn default_names()
    ensures
        type_name_ok("Assets"@), type_name_ok("Liabilities"@), type_name_ok("Equity"@), type_name_ok("Income"@), type_name_ok("Expenses"@),
        "Assets"@ != "Equity"@, "Assets"@ != "Income"@, "Equity"@ != "Income"@, "Assets"@.len() == 6, "Equity"@.len() == 6, "Income"@.len() == 6, "Expenses"@.len() == 8, "Liabilities"@.len() == 11,
        forall|t: AccountType, u: AccountType| #[trigger] default_name(t) == #[trigger] default_name(u) ==> t == u,
{
    broadcast use ascii_alnum;
    reveal_strlit("Assets"); reveal_strlit("Liabilities"); reveal_strlit("Equity"); reveal_strlit("Income"); reveal_strlit("Expenses");
    assert("Assets"@[0] == 'A' && "Equity"@[0] == 'E' && "Income"@[0] == 'I');
    assert("Liabilities"@.len() == 11 && "Expenses"@.len() == 8);
}
/// C09: at all times five types bear five distinct names, and a name belongs to at most one type
proof fn theorem_c09(n: &AccountTypeNames, s: Seq<char>, t: AccountType, u: AccountType)
    requires n.wf(),
    ensures n.named(t) == n.named(u) ==> t == u, accepted(s, n, t) && accepted(s, n, u) ==> t == u,
{}

// ---------------------------------------------------------------- the account parser
// positions as chumsky has them, and what it hands to a closure
#[derive(Clone, Copy)]
struct Span_ { start: usize, end: usize, context: usize }
#[derive(Clone, Copy)]
@@item src/types.rs Span;
@@item src/types.rs Spanned;
mod extra { pub type SimpleState<T> = T; }
struct Rich { at: Span_, message: Ghost<Seq<char>> }
impl Rich {
    #[verifier::external_body]
    fn custom(at: Span_, message: String) -> (r: Rich) ensures r.at == at { unimplemented!() }
}
impl AccountError { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
struct MapExtra<'a> { span: Span_, state: ParserState<'a> }
impl<'a> MapExtra<'a> {
    fn span(&self) -> (r: Span_) ensures r == self.span { self.span }
    fn state<'f>(&'f mut self) -> (r: &'f mut ParserState<'a>)
        ensures *r == old(self).state, *final(r) == final(self).state, final(self).span == old(self).span,
    { &mut self.state }
}
struct Warning {}
@@item src/parsers.rs ParserState;
@@item src/options.rs ParserOptions;
@@item src/options.rs Sourced;
#[derive(Clone, Copy)]
@@item src/options.rs Source;
/// C09: an account is read by the names in force, which it does not change, and refused at its own position
@@closure src/parsers.rs account try_map_with#0
@sig
fn account_read<'s, 'a>(p0: &'s str, p1: &mut MapExtra<'a>) -> (r: Result<Account<'s>, Rich>)
@closure map_err#0
|x: AccountError| -> (q: Rich) ensures q.at == p1.span { $bind0(x) $body }
@spec
    requires old(p1).state.options.account_type_names.wf(),
    ensures
        final(p1).state == old(p1).state, // [C09]
        r is Ok ==> accepted(p0@, &old(p1).state.options.account_type_names, r->Ok_0.account_type) && r->Ok_0.name == p0, // [C09]
        r is Err ==> r->Err_0.at == old(p1).span && forall|t: AccountType| !accepted(p0@, &old(p1).state.options.account_type_names, t), // [C09]
@@end
}
