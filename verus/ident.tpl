// Unit ident: identifiers are accepted exactly when well formed, src/types.rs (C10)
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
@@include mem.inc
// ---------------------------------------------------------------- assumed: characters
@@include identspec.inc
trait Classed {
    spec fn c(&self) -> char;
    fn is_ascii_uppercase_(&self) -> (r: bool) ensures r == upper(self.c());
    fn is_ascii_lowercase_(&self) -> (r: bool) ensures r == lower(self.c());
    fn is_ascii_digit_(&self) -> (r: bool) ensures r == digit(self.c());
    fn is_ascii_alphabetic_(&self) -> (r: bool) ensures r == (upper(self.c()) || lower(self.c()));
    fn is_ascii_alphanumeric_(&self) -> (r: bool) ensures r == (upper(self.c()) || lower(self.c()) || digit(self.c()));
    fn is_ascii_(&self) -> (r: bool) ensures r == ascii(self.c());
    fn is_alphanumeric_(&self) -> (r: bool) ensures r == alnum(self.c());
    fn is_alphabetic_(&self) -> (r: bool) ensures r == alpha(self.c());
}
impl Classed for char {
    spec fn c(&self) -> char { *self }
    #[verifier::external_body] fn is_ascii_uppercase_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_ascii_lowercase_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_ascii_digit_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_ascii_alphabetic_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_ascii_alphanumeric_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_ascii_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_alphanumeric_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_alphabetic_(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
fn holds<const N: usize>(a: &[char; N], c: &char) -> (r: bool) ensures r == a@.contains(*c) { a.contains(c) }
// ---------------------------------------------------------------- assumed: the characters of a text, in order
/// what may be iterated: what is left
struct Chars_ { v: Ghost<Seq<char>> }
trait Collected: Sized { spec fn all(&self) -> Seq<char>; }
impl Collected for Vec<char> { spec fn all(&self) -> Seq<char> { self@ } }
/// r is what a filter keeps of s
spec fn sifted<F: FnOnce(&char) -> bool>(f: F, s: Seq<char>, r: Seq<char>) -> bool {
    &&& r.len() == 0 ==> forall|i: int| 0 <= i < s.len() ==> f.ensures((&#[trigger] s[i],), false)
    &&& r.len() > 0 ==> exists|i: int| 0 <= i < s.len() && f.ensures((&#[trigger] s[i],), true)
}
impl Chars_ {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures old(self).v@.len() == 0 ==> r is None && final(self).v@ == old(self).v@,
            old(self).v@.len() > 0 ==> r == Some(old(self).v@[0]) && final(self).v@ == old(self).v@.skip(1),
            forall|i: int| 1 <= i < old(self).v@.len() ==> #[trigger] old(self).v@[i] == final(self).v@[i - 1],
    { unimplemented!() }
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<char>)
        ensures old(self).v@.len() == 0 ==> r is None && final(self).v@ == old(self).v@,
            old(self).v@.len() > 0 ==> r == Some(old(self).v@.last()) && final(self).v@ == old(self).v@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    fn last(self) -> (r: Option<char>) ensures self.v@.len() == 0 ==> r is None, self.v@.len() > 0 ==> r == Some(self.v@.last()) { unimplemented!() }
    #[verifier::external_body]
    fn count(self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() }
    #[verifier::external_body]
    fn filter<F: FnMut(&char) -> bool>(self, f: F) -> (r: Chars_)
        requires forall|i: int| 0 <= i < self.v@.len() ==> f.requires((&self.v@[i],)),
        ensures sifted(f, self.v@, r.v@),
    { unimplemented!() }
    #[verifier::external_body]
    fn all<F: FnMut(char) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).v@.len() ==> f.requires((old(self).v@[i],)),
        ensures r ==> forall|i: int| 0 <= i < old(self).v@.len() ==> f.ensures((#[trigger] old(self).v@[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self).v@.len() && f.ensures((#[trigger] old(self).v@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    fn any<F: FnMut(char) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).v@.len() ==> f.requires((old(self).v@[i],)),
        ensures r ==> exists|i: int| 0 <= i < old(self).v@.len() && f.ensures((#[trigger] old(self).v@[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self).v@.len() ==> f.ensures((#[trigger] old(self).v@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    fn collect<C: Collected>(self) -> (r: C) ensures r.all() == self.v@ { unimplemented!() }
    #[verifier::external_body]
    fn take_by_ref(&mut self, n: usize) -> (r: Chars_)
        ensures n <= old(self).v@.len() ==> r.v@ == old(self).v@.take(n as int) && final(self).v@ == old(self).v@.skip(n as int),
            n <= old(self).v@.len() ==> forall|i: int| 0 <= i < old(self).v@.len() ==> #[trigger] old(self).v@[i] == (if i < n { r.v@[i] } else { final(self).v@[i - n] }),
            n > old(self).v@.len() ==> r.v@ == old(self).v@ && final(self).v@.len() == 0,
    { unimplemented!() }
}
#[verifier::external_body]
fn chars_(s: &str) -> (r: Chars_) ensures r.v@ == s@ { unimplemented!() }
#[verifier::external_body]
fn no_chars() -> (r: Chars_) ensures r.v@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
fn listed(v: Vec<char>) -> (r: Chars_) ensures r.v@ == v@ { unimplemented!() }
#[verifier::external_body]
fn str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
trait Found {
    spec fn text(&self) -> Seq<char>;
    fn find_<F: FnMut(char) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.text().len() ==> f.requires((self.text()[i],)),
        ensures r is Some ==> exists|i: int| 0 <= i < self.text().len() && f.ensures((#[trigger] self.text()[i],), true),
            r is None ==> forall|i: int| 0 <= i < self.text().len() ==> f.ensures((#[trigger] self.text()[i],), false);
}
impl Found for str {
    spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn find_<F: FnMut(char) -> bool>(&self, f: F) -> (r: Option<usize>) { unimplemented!() }
}
#[verifier::external_body]
fn split_colon<'a>(s: &'a str) -> (r: std::vec::IntoIter<&'a str>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
        r.remaining().len() == pieces(s@).len(), pieces(s@).len() > 0, forall|i: int| 0 <= i < pieces(s@).len() ==> (#[trigger] r.remaining()[i])@ == pieces(s@)[i],
{ unimplemented!() }

@@item src/types.rs FlagLetter;
@@item src/types.rs FlagLetterError;
@@item src/types.rs Subaccount;
@@item src/types.rs AccountTypeName;
@@item src/types.rs AccountTypeNameError;
@@item src/types.rs AccountTypeNameErrorKind;
@@item src/types.rs AccountName;
@@item src/types.rs AccountNameError;
@@item src/types.rs AccountNameErrorKind;
@@item src/types.rs Currency;
@@item src/types.rs CurrencyError;
@@item src/types.rs CurrencyErrorKind;
@@item src/types.rs Tag;
@@item src/types.rs Link;
@@item src/types.rs TagOrLinkIdentifierError;
@@item src/types.rs Key;
@@item src/types.rs KeyError;
@@item src/types.rs KeyErrorKind;
@@item src/types.rs CURRENCY_INTERMEDIATE_EXTRA_CHARS;
@@item src/types.rs TAG_OR_LINK_EXTRA_CHARS;

// ---------------------------------------------------------------- specification: C10, the published rules
impl FlagLetter {
@@fn src/types.rs FlagLetter::is_valid
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@spec
    ensures r == upper(*c), // [C10]
@@end
@@fn src/types.rs TryFrom@FlagLetter::try_from
@ret r
@sigsubst Self::Error =>> FlagLetterError
@spec
    ensures r is Ok == upper(c), r is Ok ==> r->Ok_0.0 == c, // [C10]
@@end
@@fn src/types.rs FlagLetter::char
@ret r
@spec
    ensures r == self.0, // [C10]
@@end
}
impl AccountTypeName<'_> {
@@fn src/types.rs AccountTypeName::is_valid_initial
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? CURRENCY_INTERMEDIATE_EXTRA_CHARS.contains(c) =>> holds(&CURRENCY_INTERMEDIATE_EXTRA_CHARS, c)
@spec
    ensures r == (upper(*c)), // [C10]
@@end
@@fn src/types.rs AccountTypeName::is_valid_subsequent
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? CURRENCY_INTERMEDIATE_EXTRA_CHARS.contains(c) =>> holds(&CURRENCY_INTERMEDIATE_EXTRA_CHARS, c)
@spec
    ensures r == (alnum(*c) || *c == '-'), // [C10]
@@end
}
impl AccountName<'_> {
@@fn src/types.rs AccountName::is_valid_initial
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? CURRENCY_INTERMEDIATE_EXTRA_CHARS.contains(c) =>> holds(&CURRENCY_INTERMEDIATE_EXTRA_CHARS, c)
@spec
    ensures r == (name_initial(*c)), // [C10]
@@end
@@fn src/types.rs AccountName::is_valid_subsequent
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? CURRENCY_INTERMEDIATE_EXTRA_CHARS.contains(c) =>> holds(&CURRENCY_INTERMEDIATE_EXTRA_CHARS, c)
@spec
    ensures r == (alnum(*c) || *c == '-'), // [C10]
@@end
}
impl Currency<'_> {
@@fn src/types.rs Currency::is_valid_initial
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? CURRENCY_INTERMEDIATE_EXTRA_CHARS.contains(c) =>> holds(&CURRENCY_INTERMEDIATE_EXTRA_CHARS, c)
@spec
    ensures r == (upper(*c) || *c == '/'), // [C10]
@@end
@@fn src/types.rs Currency::is_valid_intermediate
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? CURRENCY_INTERMEDIATE_EXTRA_CHARS.contains(c) =>> holds(&CURRENCY_INTERMEDIATE_EXTRA_CHARS, c)
@spec
    ensures r == (currency_mid(*c)), // [C10]
@start
    proof { let a = CURRENCY_INTERMEDIATE_EXTRA_CHARS@; assert(a.len() == 4); assert(a[0] == '\'' && a[1] == '.' && a[2] == '_' && a[3] == '-'); assert(forall|x: char| a.contains(x) ==> a[0] == x || a[1] == x || a[2] == x || a[3] == x); }
@@end
@@fn src/types.rs Currency::is_valid_final
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? CURRENCY_INTERMEDIATE_EXTRA_CHARS.contains(c) =>> holds(&CURRENCY_INTERMEDIATE_EXTRA_CHARS, c)
@spec
    ensures r == (upper(*c) || digit(*c)), // [C10]
@@end
}
impl Key<'_> {
@@fn src/types.rs Key::is_valid_initial
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? CURRENCY_INTERMEDIATE_EXTRA_CHARS.contains(c) =>> holds(&CURRENCY_INTERMEDIATE_EXTRA_CHARS, c)
@spec
    ensures r == (lower(*c)), // [C10]
@@end
@@fn src/types.rs Key::is_valid_subsequent
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? CURRENCY_INTERMEDIATE_EXTRA_CHARS.contains(c) =>> holds(&CURRENCY_INTERMEDIATE_EXTRA_CHARS, c)
@spec
    ensures r == (alnum(*c) || *c == '-' || *c == '_'), // [C10]
@@end
}
impl<'a> AccountTypeName<'a> {
@@fn src/types.rs TryFrom@AccountTypeName::try_from
@ret r
@sigsubst Self::Error =>> AccountTypeNameError
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@closure filter#0
|c: &char| -> (b: bool) ensures b == !(alnum(*c) || *c == '-') { $bind0(c) $body }
@spec
    ensures r is Ok == type_name_ok(s@), r is Ok ==> r->Ok_0.0 == s, // [C10]
@@end
}
impl<'a> AccountName<'a> {
@@fn src/types.rs TryFrom@AccountName::try_from
@ret r
@sigsubst Self::Error =>> AccountNameError
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@closure filter#0
|c: &char| -> (b: bool) ensures b == !(alnum(*c) || *c == '-') { $bind0(c) $body }
@spec
    ensures r is Ok == name_ok(s@), r is Ok ==> r->Ok_0.0 == s, // [C10]
@@end
}
impl<'a> Key<'a> {
@@fn src/types.rs TryFrom@Key::try_from
@ret r
@sigsubst Self::Error =>> KeyError
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@closure filter#0
|c: &char| -> (b: bool) ensures b == !(alnum(*c) || *c == '-' || *c == '_') { $bind0(c) $body }
@spec
    ensures r is Ok == key_ok(s@), r is Ok ==> r->Ok_0.0 == s, // [C10]
@@end
}
impl<'a> Currency<'a> {
@@fn src/types.rs TryFrom@Currency::try_from
@ret r
@sigsubst Self::Error =>> CurrencyError
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@closure filter#0
|c: &char| -> (b: bool) ensures b == !(currency_mid(*c)) { $bind0(c) $body }
@closure find#0
|c: char| -> (b: bool) ensures b == upper(c) { $bind0(c) $body }
@subst? chars.by_ref().take =>> chars.take_by_ref
@subst? empty::<char>() =>> no_chars()
@subst? intermediate.into_iter() =>> listed(intermediate)
@subst? s.find =>> s.find_
@spec
    ensures r is Ok == currency_ok(s@), r is Ok ==> r->Ok_0.0 == s, // [C10]
@@end
}
@@fn src/types.rs is_valid_tag_or_link_identifier_char
@ret r
@subst? .is_ascii_uppercase() =>> .is_ascii_uppercase_()
@subst? .is_ascii_lowercase() =>> .is_ascii_lowercase_()
@subst? .is_ascii_digit() =>> .is_ascii_digit_()
@subst? .is_ascii_alphabetic() =>> .is_ascii_alphabetic_()
@subst? .is_ascii_alphanumeric() =>> .is_ascii_alphanumeric_()
@subst? .is_ascii() =>> .is_ascii_()
@subst? .is_alphanumeric() =>> .is_alphanumeric_()
@subst? .is_alphabetic() =>> .is_alphabetic_()
@subst? s.chars() =>> chars_(s)
@subst? s.is_empty() =>> str_is_empty(s)
@subst? TAG_OR_LINK_EXTRA_CHARS.contains(c) =>> holds(&TAG_OR_LINK_EXTRA_CHARS, c)
@spec
    ensures r == tag_char(*c), // [C10]
@start
    proof { let a = TAG_OR_LINK_EXTRA_CHARS@; assert(a.len() == 4); assert(a[0] == '-' && a[1] == '_' && a[2] == '/' && a[3] == '.'); assert(forall|x: char| a.contains(x) ==> a[0] == x || a[1] == x || a[2] == x || a[3] == x); }
@@end
@@fn src/types.rs validate_tag_or_link_identifier
@ret r
@subst? s.chars() =>> chars_(s)
@subst? s .chars() =>> chars_(s)
@closure filter#0
|c: &char| -> (b: bool) ensures b == !tag_char(*c) { $bind0(c) $body }
@spec
    ensures r is Ok == tag_ok(s@), // [C10]
@@end
impl<'a> Tag<'a> {
@@fn src/types.rs TryFrom@Tag::try_from
@ret r
@sigsubst Self::Error =>> TagOrLinkIdentifierError
@spec
    ensures r is Ok == tag_ok(s@), r is Ok ==> r->Ok_0.0 == s, // [C10]
@@end
}
impl<'a> Link<'a> {
@@fn src/types.rs TryFrom@Link::try_from
@ret r
@sigsubst Self::Error =>> TagOrLinkIdentifierError
@spec
    ensures r is Ok == tag_ok(s@), r is Ok ==> r->Ok_0.0 == s, // [C10]
@@end
}
impl<'a> Subaccount<'a> {
@@fn src/types.rs TryFrom@Subaccount::try_from
@ret r
@sigsubst Self::Error =>> AccountNameError
@subst? s.split(':') =>> split_colon(s)
@subst? _ = AccountName =>> let _ = AccountName
@loop 1 for y
    invariant y.seq().len() == pieces(s@).len(), forall|i: int| 0 <= i < pieces(s@).len() ==> (#[trigger] y.seq()[i])@ == pieces(s@)[i],
        empty == (y.index() == 0), pieces(s@).len() > 0,
        forall|i: int| 0 <= i < y.index() ==> name_ok(#[trigger] pieces(s@)[i]),
@spec
    ensures r is Ok == subaccount_ok(s@), r is Ok ==> r->Ok_0.0 == s, // [C10]
@@end
}
impl<'a> Subaccount<'a> {
@@fn src/types.rs AsRef@Subaccount::as_ref
@ret r
@spec
    ensures r == self.0, // [C10]
@@end
}
impl<'a> AccountTypeName<'a> {
@@fn src/types.rs AsRef@AccountTypeName::as_ref
@ret r
@spec
    ensures r == self.0, // [C10]
@@end
}
impl<'a> AccountName<'a> {
@@fn src/types.rs AsRef@AccountName::as_ref
@ret r
@spec
    ensures r == self.0, // [C10]
@@end
}
impl<'a> Currency<'a> {
@@fn src/types.rs AsRef@Currency::as_ref
@ret r
@spec
    ensures r == self.0, // [C10]
@@end
}
impl<'a> Tag<'a> {
@@fn src/types.rs AsRef@Tag::as_ref
@ret r
@spec
    ensures r == self.0, // [C10]
@@end
}
impl<'a> Link<'a> {
@@fn src/types.rs AsRef@Link::as_ref
@ret r
@spec
    ensures r == self.0, // [C10]
@@end
}
impl<'a> Key<'a> {
@@fn src/types.rs AsRef@Key::as_ref
@ret r
@spec
    ensures r == self.0, // [C10]
@@end
}
// ---------------------------------------------------------------- compared with a string
#[verifier::external_body]
fn same_str(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl<'a> Currency<'a> {
@@fn src/types.rs PartialEq@Currency::eq
@ret r
@subst? self.0 == *other =>> same_str(self.0, *other)
@subst? *other == self.0 =>> same_str(*other, self.0)
@subst? self.0 != *other =>> !same_str(self.0, *other)
@spec
    ensures r == (self.0@ == (*other)@), // [C10]
@@end
}
impl<'a> Tag<'a> {
@@fn src/types.rs PartialEq@Tag::eq
@ret r
@subst? self.0 == *other =>> same_str(self.0, *other)
@subst? *other == self.0 =>> same_str(*other, self.0)
@subst? self.0 != *other =>> !same_str(self.0, *other)
@spec
    ensures r == (self.0@ == (*other)@), // [C10]
@@end
}
impl<'a> Link<'a> {
@@fn src/types.rs PartialEq@Link::eq
@ret r
@subst? self.0 == *other =>> same_str(self.0, *other)
@subst? *other == self.0 =>> same_str(*other, self.0)
@subst? self.0 != *other =>> !same_str(self.0, *other)
@spec
    ensures r == (self.0@ == (*other)@), // [C10]
@@end
}
impl<'a> Key<'a> {
@@fn src/types.rs PartialEq@Key::eq
@ret r
@subst? self.0 == *other =>> same_str(self.0, *other)
@subst? *other == self.0 =>> same_str(*other, self.0)
@subst? self.0 != *other =>> !same_str(self.0, *other)
@spec
    ensures r == (self.0@ == (*other)@), // [C10]
@@end
}
impl<'a> AccountName<'a> {
@@fn src/types.rs PartialEq@AccountName::eq
@ret r
@subst? self.0 == *other =>> same_str(self.0, *other)
@subst? *other == self.0 =>> same_str(*other, self.0)
@subst? self.0 != *other =>> !same_str(self.0, *other)
@spec
    ensures r == (self.0@ == (*other)@), // [C10]
@@end
}
impl<'a> AccountTypeName<'a> {
@@fn src/types.rs PartialEq@AccountTypeName::eq
@ret r
@subst? self.0 == *other =>> same_str(self.0, *other)
@subst? *other == self.0 =>> same_str(*other, self.0)
@subst? self.0 != *other =>> !same_str(self.0, *other)
@spec
    ensures r == (self.0@ == (*other)@), // [C10]
@@end
}
}
