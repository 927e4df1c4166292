// Unit literals: literals denote the value they spell, src/lexer.rs (C14)
#![allow(unused)]
#![feature(const_destruct)]
use vstd::prelude::*;
verus! {
@@include mem.inc
// ---------------------------------------------------------------- assumed: numerals, calendars, clocks, decimals, escapes as the crates time, rust_decimal, unescaper and std have them
/// what a text denotes, if anything
trait FromStr: Sized { spec fn of(s: Seq<char>) -> Option<Self>; }
impl FromStr for i32 { uninterp spec fn of(s: Seq<char>) -> Option<Self>; }
impl FromStr for u8 { uninterp spec fn of(s: Seq<char>) -> Option<Self>; }
impl FromStr for u16 { uninterp spec fn of(s: Seq<char>) -> Option<Self>; }
impl FromStr for u32 { uninterp spec fn of(s: Seq<char>) -> Option<Self>; }
impl FromStr for Decimal { uninterp spec fn of(s: Seq<char>) -> Option<Self>; }
struct ParseError;
spec fn got<T, E>(o: Option<T>, r: Result<T, E>) -> bool { match o { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } }
trait Parsed { spec fn text(&self) -> Seq<char>; fn parse_<T: FromStr>(&self) -> (r: Result<T, ParseError>) ensures got(T::of(self.text()), r); fn contains_(&self, c: char) -> (r: bool) ensures r == self.text().contains(c); }
impl Parsed for str {
    spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn parse_<T: FromStr>(&self) -> (r: Result<T, ParseError>) { unimplemented!() }
    #[verifier::external_body] fn contains_(&self, c: char) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body] #[derive(Clone, Copy)] struct Date { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Time { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Decimal { x: u8 }
struct Month(u8);
struct ComponentRange;
/// the day of that year, month and day, if there is one
uninterp spec fn calendar(year: i32, month: u8, day: u8) -> Option<Date>;
/// the time of day of that hour, minute and second, if there is one
uninterp spec fn clock(hour: u8, min: u8, sec: u8) -> Option<Time>;
#[verifier::external_body]
broadcast proof fn months(year: i32, month: u8, day: u8) ensures (#[trigger] calendar(year, month, day)) is Some ==> 1 <= month <= 12 {}
impl Month {
    #[verifier::external_body]
    fn try_from(m: u8) -> (r: Result<Month, ComponentRange>) ensures r is Ok == (1 <= m <= 12), r is Ok ==> r->Ok_0 == Month(m) { unimplemented!() }
}
impl Date {
    #[verifier::external_body]
    fn from_calendar_date(year: i32, month: Month, day: u8) -> (r: Result<Date, ComponentRange>) ensures got(calendar(year, month.0, day), r) { unimplemented!() }
}
impl Time {
    #[verifier::external_body]
    fn from_hms(hour: u8, min: u8, sec: u8) -> (r: Result<Time, ComponentRange>) ensures got(clock(hour, min, sec), r) { unimplemented!() }
}
#[verifier::external_body]
fn decimal_from(s: &str) -> (r: Result<Decimal, ParseError>) ensures got(Decimal::of(s@), r) { unimplemented!() }
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::marker::Destruct, E: std::marker::Destruct, F: std::marker::Destruct> [std::result::Result::<T, E>::or] (o: std::result::Result<T, E>, p: std::result::Result<T, F>) -> (r: std::result::Result<T, F>)
    ensures r == (match o { Ok(x) => Ok(x), Err(_) => p }),
;
@@item src/lexer.rs LexerError;
impl LexerError {
    #[verifier::external_body]
    fn new(s: &str) -> LexerError { unimplemented!() }
}
impl ParseError {
    #[verifier::external_body]
    fn to_string(&self) -> &'static str { unimplemented!() }
}
// the text between separators, at least one piece
uninterp spec fn split_at(s: Seq<char>, sep: Seq<char>) -> Seq<Seq<char>>;
struct Pieces<'a> { s: Vec<&'a str> }
impl<'a> Pieces<'a> {
    uninterp spec fn view(&self) -> Seq<Seq<char>>;
    fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
trait Sep { spec fn chars(&self) -> Seq<char>; }
impl Sep for char { spec fn chars(&self) -> Seq<char> { Seq::empty().push(*self) } }
impl<const N: usize> Sep for &[char; N] { spec fn chars(&self) -> Seq<char> { self@ } }
impl<const N: usize> Sep for [char; N] { spec fn chars(&self) -> Seq<char> { self@ } }
trait Splitting { fn split_<S: Sep>(&self, sep: S) -> Pieces<'_>; }
impl Splitting for str {
    #[verifier::external_body]
    fn split_<S: Sep>(&self, sep: S) -> (r: Pieces<'_>) ensures r@ == split_at(self@, sep.chars()), r@.len() > 0 { unimplemented!() }
}
uninterp spec fn unescaped(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
broadcast proof fn nothing_to_unescape(s: Seq<char>) ensures !s.contains('\\') ==> #[trigger] unescaped(s) == Some(s) {}
#[verifier::external_body]
fn unescape(s: &str) -> (r: Result<String, ParseError>) ensures r is Ok == unescaped(s@) is Some, r is Ok ==> r->Ok_0@ == unescaped(s@)->0 { unimplemented!() }
enum CowStr<'a> { Owned(String), Borrowed(&'a str) }
impl<'a> CowStr<'a> { spec fn view(&self) -> Seq<char> { match self { CowStr::Owned(s) => s@, CowStr::Borrowed(s) => s@ } } }
trait Retaining { fn retain_<F: FnMut(char) -> bool>(&mut self, f: F) requires forall|c: char| f.requires((c,)); }
impl Retaining for String {
    #[verifier::external_body]
    fn retain_<F: FnMut(char) -> bool>(&mut self, f: F)
        ensures forall|p: spec_fn(char) -> bool| #![trigger old(self)@.filter(p)] (forall|c: char, b: bool| f.ensures((c,), b) ==> b == p(c)) ==> final(self)@ == old(self)@.filter(p),
    { unimplemented!() }
}

// ---------------------------------------------------------------- specification
spec fn not_comma() -> spec_fn(char) -> bool { |c: char| c != ',' }
/// C14: commas ignored
spec fn number_of(s: Seq<char>) -> Option<Decimal> { Decimal::of(s.filter(not_comma())) }
proof fn no_commas(s: Seq<char>) requires !s.contains(','), ensures s.filter(not_comma()) == s decreases s.len() {
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(!s.drop_last().contains(',')) by { if s.drop_last().contains(',') { let i = s.drop_last().index_of(','); assert(s[i] == ','); } }
        no_commas(s.drop_last());
        assert(s.contains(s.last()));
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
/// year, month, day
spec fn date_of(s: Seq<char>) -> Option<Date> {
    let p = split_at(s, seq!['-', '/']);
    match (<i32 as FromStr>::of(p[0]), <u8 as FromStr>::of(p[1]), <u8 as FromStr>::of(p[2])) { (Some(y), Some(m), Some(d)) => calendar(y, m, d), _ => None }
}
/// hour, minute and, if written, second
spec fn time_of(s: Seq<char>) -> Option<Time> {
    let p = split_at(s, Seq::empty().push(':'));
    let sec = if p.len() > 2 { <u8 as FromStr>::of(p[2]) } else { Some(0u8) };
    match (<u8 as FromStr>::of(p[0]), <u8 as FromStr>::of(p[1]), sec) { (Some(h), Some(m), Some(t)) => clock(h, m, t), _ => None }
}

@@fn src/lexer.rs parse_digits
@ret r
@subst? s.parse =>> s.parse_
@spec
    ensures got(T::of(s@), r), // [C14]
@@end
@@fn src/lexer.rs parse_date
@ret r
@subst? s.split =>> s.split_
@start
    proof { broadcast use months; assert((&['-', '/']).chars() =~= seq!['-', '/']); }
@spec
    requires split_at(s@, seq!['-', '/']).len() >= 3,     // as the lexer's pattern has it
    ensures got(date_of(s@), r), // [C14]
@@end
@@fn src/lexer.rs parse_time
@ret r
@subst? s.split =>> s.split_
@subst? .map(parse_digits::<u8>) =>> .map(|x_: &str| -> (q: Result<u8, LexerError>) ensures got(<u8 as FromStr>::of(x_@), q) { parse_digits::<u8>(x_) })
@spec
    requires split_at(s@, Seq::empty().push(':')).len() >= 2,     // as the lexer's pattern has it
    ensures got(time_of(s@), r), // [C14]
@@end
@@fn src/lexer.rs unescape_string_literal
@ret r
@sigsubst Cow<'a, str> =>> CowStr<'a>
@subst? .map(Cow::Owned) =>> .map(|t_: String| -> (q: CowStr<'a>) ensures q == CowStr::<'a>::Owned(t_) { CowStr::Owned(t_) })
@subst? Cow::Borrowed =>> CowStr::Borrowed
@subst? s.contains =>> s.contains_
@subst? e.to_string() =>> ParseError::to_string(&e)
@closure map_err#0
|e: ParseError| -> (q: LexerError) { $bind0(e) $body }
@start
    proof { broadcast use nothing_to_unescape; }
@spec
    ensures r is Ok == unescaped(s@) is Some, r is Ok ==> r->Ok_0@ == unescaped(s@)->0, // [C14]
@@end
@@fn src/lexer.rs parse_number
@ret r
@subst? s.contains =>> s.contains_
@subst? .retain =>> .retain_
@subst? FromStr::from_str =>> decimal_from
@subst? e.to_string() =>> ParseError::to_string(&e)
@closure retain#0
|c: char| -> (b: bool) ensures b == (c != ',') { $bind0(c) $body }
@closure map_err#0
|e: ParseError| -> (q: LexerError) { $bind0(e) $body }
@start
    proof { if !s@.contains(',') { no_commas(s@); } let p = not_comma(); assert(forall|c: char| #[trigger] p(c) == (c != ',')); let _ = s@.filter(p); }
@spec
    ensures got(number_of(s@), r), // [C14]
@@end
}
