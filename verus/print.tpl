// Unit print: Display of directives and their parts, src/types.rs and src/format.rs (C23)
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
macro_rules! lazy_format {
    ("{s}", $s:ident) => { plainly($s) };
    ("\"{s}\"", $s:ident) => { in_quotes($s) };
    ("'{s}'", $s:ident) => { in_single($s) };
    ("{}: {}", $k:expr, $v:expr) => { verus_exec_expr!(with_colon($k, $v)) };
}
verus! {
@@include mem.inc
@@unfoldwrites;
// ---------------------------------------------------------------- stubs: the text which a formatter has been given, what it means to show something
struct Failed;
mod fmt { pub type Result = core::result::Result<(), super::Failed>; }
struct Formatter<'a> { out: Ghost<Seq<char>>, x: core::marker::PhantomData<&'a u8> }
impl<'a> Formatter<'a> {
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) ensures r is Ok ==> final(self).out@ == old(self).out@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: fmt::Result) ensures r is Ok ==> final(self).out@ == old(self).out@ + Seq::empty().push(c) { unimplemented!() }
}
trait Display {
    spec fn text(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) ensures r is Ok ==> final(f).out@ == old(f).out@ + self.text(); // [C23]
}
impl<T: Display + ?Sized> Display for &T {
    spec fn text(&self) -> Seq<char> { (**self).text() }
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) { proof { let t_ = self.text(); } (**self).fmt(f) }
}
impl Display for str {
    spec fn text(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) { proof { let t_ = self.text(); } f.write_str(self) }
}
impl Display for char {
    spec fn text(&self) -> Seq<char> { Seq::empty().push(*self) }
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) { proof { let t_ = self.text(); } f.write_char(*self) }
}
// of the crates time, rust_decimal and strum
#[derive(Clone, Copy)] #[verifier::external_body] struct Date { x: u8 }
impl Display for Date { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) { unimplemented!() } }
#[derive(Clone, Copy)] #[verifier::external_body] struct Decimal { x: u8 }
impl Display for Decimal { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) { unimplemented!() } }
#[derive(Clone, Copy)] #[verifier::external_body] struct Booking { x: u8 }
impl Display for Booking { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) { unimplemented!() } }
#[derive(Clone, Copy)] #[verifier::external_body] struct AccountType { x: u8 }

// ---------------------------------------------------------------- assumed: what iterating over a collection yields; each thing in a map or set once, in some order
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct HashSet<T> { m: Vec<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] struct HashMap<K, V> { m: Vec<(K, V)> }
impl<T> HashSet<T> { uninterp spec fn order<'b>(&'b self) -> Seq<&'b T>; }
impl<K, V> HashMap<K, V> { uninterp spec fn order<'b>(&'b self) -> Seq<(&'b K, &'b V)>; }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct Run<T> { v: Vec<T> }
trait Listed<T>: Sized {
    spec fn listed(&self) -> Seq<T>;
    fn into_iter(self) -> (r: Run<T>) ensures r.rest() == self.listed();
}
impl<'b, T> Listed<&'b T> for &'b Vec<T> { spec fn listed(&self) -> Seq<&'b T> { self@.map_values(|x: T| &x) } #[verifier::external_body] fn into_iter(self) -> (r: Run<&'b T>) { unimplemented!() } }
impl<'b, T> Listed<&'b T> for &'b Option<T> { spec fn listed(&self) -> Seq<&'b T> { match self { None => Seq::empty(), Some(x) => seq![x] } } #[verifier::external_body] fn into_iter(self) -> (r: Run<&'b T>) { unimplemented!() } }
impl<T> Listed<T> for Option<T> { spec fn listed(&self) -> Seq<T> { match self { None => Seq::empty(), Some(x) => seq![*x] } } #[verifier::external_body] fn into_iter(self) -> (r: Run<T>) { unimplemented!() } }
impl<'b, T> Listed<&'b T> for &'b HashSet<T> { spec fn listed(&self) -> Seq<&'b T> { self.order() } #[verifier::external_body] fn into_iter(self) -> (r: Run<&'b T>) { unimplemented!() } }
impl<'b, K, V> Listed<(&'b K, &'b V)> for &'b HashMap<K, V> { spec fn listed(&self) -> Seq<(&'b K, &'b V)> { self.order() } #[verifier::external_body] fn into_iter(self) -> (r: Run<(&'b K, &'b V)>) { unimplemented!() } }
impl<T> Run<T> {
    uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    fn owned(self) -> (r: std::vec::IntoIter<T>)
        ensures r.remaining() == self.rest(), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}

// ---------------------------------------------------------------- specification
/// assumed: the functions given to format to be called for each thing
trait Mapper<T, D: Display>: Sized {
    spec fn shows(&self, x: T) -> Seq<char>;
    fn of(&self, x: T) -> (r: D) ensures r.text() == self.shows(x);
}
struct Plain; struct Quoted; struct Paired; struct SingleQuoted;
impl<T: Display> Mapper<T, Worded> for Plain { spec fn shows(&self, x: T) -> Seq<char> { x.text() } fn of(&self, x: T) -> (r: Worded) { plain(x) } }
impl<T: Display> Mapper<T, Worded> for Quoted { spec fn shows(&self, x: T) -> Seq<char> { quoted(x.text()) } fn of(&self, x: T) -> (r: Worded) { double_quoted(x) } }
impl<T: Display> Mapper<T, Worded> for SingleQuoted { spec fn shows(&self, x: T) -> Seq<char> { single(x.text()) } fn of(&self, x: T) -> (r: Worded) { single_quoted(x) } }
impl<K: Display, V: Display> Mapper<(K, V), Worded> for Paired { spec fn shows(&self, x: (K, V)) -> Seq<char> { colon(x.0.text(), x.1.text()) } fn of(&self, x: (K, V)) -> (r: Worded) { key_value(x) } }
spec fn quoted(s: Seq<char>) -> Seq<char> { §"\"" + s + §"\"" }
spec fn single(s: Seq<char>) -> Seq<char> { §"'" + s + §"'" }
spec fn colon(k: Seq<char>, v: Seq<char>) -> Seq<char> { k + §": " + v }
spec fn worded<T, D: Display, M: Mapper<T, D>>(m: M, s: Seq<T>) -> Seq<Seq<char>> { s.map_values(|x: T| m.shows(x)) }
spec fn texts<T: Display>(s: Seq<T>) -> Seq<Seq<char>> { worded::<T, Worded, Plain>(Plain, s) }
spec fn pair_texts<K: Display, V: Display>(s: Seq<(K, V)>) -> Seq<Seq<char>> { worded::<(K, V), Worded, Paired>(Paired, s) }
/// all of them, sep between
spec fn between(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { between(s.drop_last(), sep) + sep + s.last() }
}
/// nothing if there are none
#[verifier::opaque]
spec fn run_of(s: Seq<Seq<char>>, sep: Seq<char>, prefix: Seq<char>) -> Seq<char> { if s.len() == 0 { Seq::empty() } else { prefix + between(s, sep) } }
spec fn opt(p: Option<&'static str>) -> Seq<char> { match p { None => Seq::empty(), Some(p) => p@ } }
broadcast proof fn runs(s: Seq<Seq<char>>, sep: Seq<char>, prefix: Seq<char>)
    ensures s.len() == 0 ==> #[trigger] run_of(s, sep, prefix) == Seq::<char>::empty(), s.len() == 1 ==> run_of(s, sep, prefix) == prefix + s[0],
{ reveal(run_of); }
broadcast proof fn one_plain<T: Display>(x: &Option<T>, sep: Seq<char>, prefix: Seq<char>)
    ensures #[trigger] run_of(worded::<&T, Worded, Plain>(Plain, Listed::<&T>::listed(&x)), sep, prefix) == one(prefix, *x, Seq::empty()),
{ broadcast use {plain_right, runs}; if x is Some { assert(worded::<&T, Worded, Plain>(Plain, Listed::<&T>::listed(&x))[0] == x->Some_0.text()); } }
broadcast proof fn one_quoted<T: Display>(x: &Option<T>, sep: Seq<char>, prefix: Seq<char>)
    ensures #[trigger] run_of(worded::<&T, Worded, Quoted>(Quoted, Listed::<&T>::listed(&x)), sep, prefix) == one(prefix.push('"'), *x, §"\""),
{ broadcast use {plain_right, plain_add, plain_push, runs}; if x is Some { assert(worded::<&T, Worded, Quoted>(Quoted, Listed::<&T>::listed(&x))[0] == quoted(x->Some_0.text())); } }
// text put together piece by piece, read as one character or shown thing added after another
broadcast proof fn plain_push(a: Seq<char>, b: Seq<char>, c: char) ensures #[trigger] (a + b.push(c)) == (a + b).push(c) { assert(a + b.push(c) =~= (a + b).push(c)); }
broadcast proof fn plain_add(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
broadcast proof fn plain_right(a: Seq<char>) ensures #[trigger] (a + Seq::<char>::empty()) == a { assert(a + Seq::<char>::empty() =~= a); }
broadcast proof fn plain_left(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
broadcast group plainer { plain_push, plain_add, plain_right, plain_left, runs, one_plain, one_quoted }

// ---------------------------------------------------------------- src/format.rs
/// assumed: the crate lazy_format, for its three formats
struct Worded { t: Ghost<Seq<char>> }
impl Display for Worded { spec fn text(&self) -> Seq<char> { self.t@ } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) { unimplemented!() } }
#[verifier::external_body] fn plainly<S: Display>(s: S) -> (r: Worded) ensures r.text() == s.text() { unimplemented!() }
#[verifier::external_body] fn in_quotes<S: Display>(s: S) -> (r: Worded) ensures r.text() == quoted(s.text()) { unimplemented!() }
#[verifier::external_body] fn in_single<S: Display>(s: S) -> (r: Worded) ensures r.text() == single(s.text()) { unimplemented!() }
#[verifier::external_body] fn with_colon<K: Display, V: Display>(k: K, v: V) -> (r: Worded) ensures r.text() == colon(k.text(), v.text()) { unimplemented!() }
@@fn src/format.rs plain
@sigsubst impl Display =>> Worded
@ret r
@subst? lazy_format!("{s}") =>> lazy_format!("{s}", s)
@spec
    ensures r.text() == s.text(), // [C23]
@@end
@@fn src/format.rs double_quoted
@sigsubst impl Display =>> Worded
@ret r
@subst? lazy_format!("\"{s}\"") =>> lazy_format!("\"{s}\"", s)
@spec
    ensures r.text() == quoted(s.text()), // [C23]
@@end
@@fn src/format.rs single_quoted
@sigsubst impl Display =>> Worded
@ret r
@subst? lazy_format!("'{s}'") =>> lazy_format!("'{s}'", s)
@spec
    ensures r.text() == single(s.text()), // [C23]
@@end
@@fn src/format.rs key_value
@sigsubst impl Display =>> Worded
@ret r
@spec
    ensures r.text() == colon(kv.0.text(), kv.1.text()), // [C23]
@@end
proof fn said_more<T, D: Display, M: Mapper<T, D>>(m: M, s: Seq<T>, x: T, sep: Seq<char>, prefix: Seq<char>)
    ensures run_of(worded(m, s.push(x)), sep, prefix) == (if s.len() == 0 { prefix } else { run_of(worded(m, s), sep, prefix) + sep }) + m.shows(x),
{
    broadcast use plainer;
    reveal(run_of);
    assert(worded(m, s.push(x)) =~= worded(m, s).push(m.shows(x)));
    assert(worded(m, s).push(m.shows(x)).drop_last() =~= worded(m, s));
}
@@fn src/format.rs format
@sigsubst C: IntoIterator<Item = T> =>> C: Listed<T>
@sigsubst M: Fn(T) -> D =>> M: Mapper<T, D>
@callsubst mapper of
@ret r
@start
    broadcast use plainer;
    let ghost s0 = container.listed();
    let ghost o0 = f.out@;
@beforeloop 1
    let ghost k0 = if s0.len() == 0 { 0int } else { 1int };
    proof {
        if s0.len() > 0 {
            said_more(mapper, s0.take(0), s0[0], separator@, opt(prefix));
            assert(s0.take(1) =~= s0.take(0).push(s0[0]));
        }
    }
@loop 1 for y !.owned()
    invariant
        0 <= k0 <= 1, k0 == 0 ==> s0.len() == 0, y.seq() == s0.skip(k0), k0 <= s0.len(),
        f.out@ == o0 + run_of(worded(mapper, s0.take(k0 + y.index())), separator@, opt(prefix)),
@loopstart 1
    broadcast use plainer;
    let ghost k = k0 + y.index();
    proof { assert(y.seq()[y.index() as int] == s0[k]); }
@loopend 1
    proof {
        said_more(mapper, s0.take(k), s0[k], separator@, opt(prefix));
        assert(s0.take(k + 1) =~= s0.take(k).push(s0[k]));
    }
@afterloop 1
    proof { assert(s0.take(s0.len() as int) =~= s0); }
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + run_of(worded(mapper, container.listed()), separator@, opt(prefix)), // [C23]
@@end
@@fn src/format.rs simple_format
@subst? , plain, =>> , Plain,
@sigsubst C: IntoIterator<Item = T> =>> C: Listed<T>
@ret r
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + run_of(texts(container.listed()), Seq::empty(), opt(prefix)), // [C23]
@@end

// ---------------------------------------------------------------- src/types.rs: the parts
#[verifier::external_body]
fn same_str(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[derive(Clone, Copy)]
@@item src/types.rs Span;
#[derive(Clone, Copy)]
@@item src/types.rs Spanned;
#[derive(Clone, Copy)]
@@item src/types.rs Flag;
#[derive(Clone, Copy)]
@@item src/types.rs FlagLetter;
#[derive(Clone, Copy)]
@@item src/types.rs Account;
#[derive(Clone, Copy)]
@@item src/types.rs Currency;
#[derive(Clone, Copy)]
@@item src/types.rs Tag;
#[derive(Clone, Copy)]
@@item src/types.rs Link;
#[derive(Clone, Copy)]
@@item src/types.rs Key;
@@item src/types.rs Expr;
@@item src/types.rs ExprValue;
@@item src/types.rs ScopedExprValue;
@@item src/types.rs CompoundExprValue;
@@item src/types.rs Amount;
@@item src/types.rs AmountWithTolerance;
@@item src/types.rs CompoundAmount;
@@item src/types.rs CostSpec;
@@item src/types.rs PriceSpec;
@@item src/types.rs SimpleValue;
@@item src/types.rs MetaValue;
@@item src/types.rs MetaKeyValue;
@@item src/types.rs Metadata;
@@item src/types.rs Posting;
@@item src/types.rs Plugin;
@@item src/types.rs Transaction;
@@item src/types.rs Price;
@@item src/types.rs Balance;
@@item src/types.rs Open;
@@item src/types.rs Close;
@@item src/types.rs Commodity;
@@item src/types.rs Pad;
@@item src/types.rs Document;
@@item src/types.rs Note;
@@item src/types.rs Event;
@@item src/types.rs Query;
@@item src/types.rs Custom;
@@item src/types.rs DirectiveVariant;
@@item src/types.rs Directive;
@@item src/types.rs Subaccount;
@@item src/types.rs AccountTypeName;
@@item src/types.rs AccountName;
spec fn one<T: Display>(pre: Seq<char>, x: Option<T>, post: Seq<char>) -> Seq<char> { match x { None => Seq::empty(), Some(x) => pre + x.text() + post } }
impl<T: Display> Display for Spanned<T> {
    spec fn text(&self) -> Seq<char> { self.item.text() }
@@fn src/types.rs Display@Spanned::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl Display for Flag {
    spec fn text(&self) -> Seq<char> { match self {
        Flag::Asterisk => §"*", Flag::Exclamation => §"!", Flag::Ampersand => §"&", Flag::Hash => §"#", Flag::Question => §"?", Flag::Percent => §"%",
        Flag::Letter(l) => §"'" + Seq::empty().push(l.0) } }
@@fn src/types.rs Display@Flag::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for Account<'a> {
    spec fn text(&self) -> Seq<char> { self.name@ }
@@fn src/types.rs Display@Account::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for Currency<'a> {
    spec fn text(&self) -> Seq<char> { self.0@ }
@@fn src/types.rs Display@Currency::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for Key<'a> {
    spec fn text(&self) -> Seq<char> { self.0@ }
@@fn src/types.rs Display@Key::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for Subaccount<'a> {
    spec fn text(&self) -> Seq<char> { self.0@ }
@@fn src/types.rs Display@Subaccount::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for AccountTypeName<'a> {
    spec fn text(&self) -> Seq<char> { self.0@ }
@@fn src/types.rs Display@AccountTypeName::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for AccountName<'a> {
    spec fn text(&self) -> Seq<char> { self.0@ }
@@fn src/types.rs Display@AccountName::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for Tag<'a> {
    spec fn text(&self) -> Seq<char> { §"#" + self.0@ }
@@fn src/types.rs Display@Tag::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for Link<'a> {
    spec fn text(&self) -> Seq<char> { §"^" + self.0@ }
@@fn src/types.rs Display@Link::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
spec fn expr_text(e: Expr) -> Seq<char> decreases e {
    match e {
        Expr::Value(n) => n.text(),
        Expr::Add(a, b) => expr_text(*a) + §" + " + expr_text(*b),
        Expr::Sub(a, b) => expr_text(*a) + §" - " + expr_text(*b),
        Expr::Mul(a, b) => expr_text(*a) + §" * " + expr_text(*b),
        Expr::Div(a, b) => expr_text(*a) + §" / " + expr_text(*b),
        Expr::Neg(a) => §"-" + expr_text(*a),
        Expr::Paren(a) => §"(" + expr_text(*a) + §")",
    }
}
/// assumed: showing a part of an expression, which is a recursive call, ends
impl Display for Box<Expr> {
    spec fn text(&self) -> Seq<char> { expr_text(**self) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) { unimplemented!() }
}
impl Display for Expr {
    spec fn text(&self) -> Seq<char> { expr_text(*self) }
@@fn src/types.rs Display@Expr::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl Display for ExprValue {
    spec fn text(&self) -> Seq<char> { expr_text(self.expr) }
@@fn src/types.rs Display@ExprValue::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl Display for ScopedExprValue {
    spec fn text(&self) -> Seq<char> { match self { ScopedExprValue::PerUnit(e) => e.text(), ScopedExprValue::Total(e) => §"# " + e.text() } }
@@fn src/types.rs Display@ScopedExprValue::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl Display for CompoundExprValue {
    spec fn text(&self) -> Seq<char> { match self { CompoundExprValue::PerUnit(e) => e.text(), CompoundExprValue::Total(e) => §"# " + e.text(), CompoundExprValue::PerUnitAndTotal(p, e) => p.text() + §" # " + e.text() } }
@@fn src/types.rs Display@CompoundExprValue::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for Amount<'a> {
    spec fn text(&self) -> Seq<char> { self.number.text() + §" " + self.currency.text() }
@@fn src/types.rs Display@Amount::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for AmountWithTolerance<'a> {
    spec fn text(&self) -> Seq<char> { self.amount.text() + one(§" ~ ", self.tolerance, §"") }
@@fn src/types.rs Display@AmountWithTolerance::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for CompoundAmount<'a> {
    spec fn text(&self) -> Seq<char> { match self { CompoundAmount::BareCurrency(c) => c.text(), CompoundAmount::BareAmount(e) => e.text(), CompoundAmount::CurrencyAmount(e, c) => e.text() + §" " + c.text() } }
@@fn src/types.rs Display@CompoundAmount::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for PriceSpec<'a> {
    spec fn text(&self) -> Seq<char> { match self { PriceSpec::Unspecified => §"", PriceSpec::BareCurrency(c) => c.text(), PriceSpec::BareAmount(e) => e.text(), PriceSpec::CurrencyAmount(e, c) => e.text() + §" " + c.text() } }
@@fn src/types.rs Display@PriceSpec::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
/// what is inside the braces: number, total and currency, then separated by commas date, label and merge
spec fn cost_parts<'a>(c: CostSpec<'a>) -> Seq<char> {
    let t1 = one(§"", c.per_unit, §"");
    let t2 = t1 + one(if c.per_unit is Some { §" # " } else { §"# " }, c.total, §"");
    let t3 = t2 + one(if c.per_unit is Some || c.total is Some { §" " } else { §"" }, c.currency, §"");
    let any3 = c.per_unit is Some || c.total is Some || c.currency is Some;
    let t4 = t3 + one(if any3 { §", " } else { §"" }, c.date, §"");
    let any4 = any3 || c.date is Some;
    let t5 = t4 + one(if any4 { §", \"" } else { §"\"" }, c.label, §"\"");
    let any5 = any4 || c.label is Some;
    t5 + if c.merge { if any5 { §", *" } else { §"*" } } else { §"" }
}
impl<'a> Display for CostSpec<'a> {
    spec fn text(&self) -> Seq<char> { §"{" + cost_parts(*self) + §"}" }
@@fn src/types.rs Display@CostSpec::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@subst? sep == space =>> same_str(sep, space)
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for SimpleValue<'a> {
    spec fn text(&self) -> Seq<char> { match self {
        SimpleValue::String(x) => quoted(x@), SimpleValue::Currency(x) => x.text(), SimpleValue::Account(x) => x.text(), SimpleValue::Tag(x) => x.text(), SimpleValue::Link(x) => x.text(),
        SimpleValue::Date(x) => x.text(), SimpleValue::Bool(x) => if *x { §"TRUE" } else { §"FALSE" }, SimpleValue::Null => §"NULL", SimpleValue::Expr(x) => x.text() } }
@@fn src/types.rs Display@SimpleValue::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for MetaValue<'a> {
    spec fn text(&self) -> Seq<char> { match self { MetaValue::Simple(x) => x.text(), MetaValue::Amount(x) => x.text() } }
@@fn src/types.rs Display@MetaValue::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
spec fn lines(s: Seq<Seq<char>>) -> Seq<char> { run_of(s, §"\n  ", §"\n  ") }
spec fn spaced(s: Seq<Seq<char>>) -> Seq<char> { run_of(s, §" ", §" ") }
impl<'a> Metadata<'a> {
@@fn src/types.rs Metadata::fmt_tags_links_inline
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + spaced(texts(self.tags.order())) + spaced(texts(self.links.order())), // [C23]
@@end
@@fn src/types.rs Metadata::fmt_tags_links_on_separate_lines
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + lines(texts(self.tags.order())) + lines(texts(self.links.order())), // [C23]
@@end
@@fn src/types.rs Metadata::fmt_keys_values
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + lines(pair_texts(self.key_values.order())), // [C23]
@@end
}
impl<'a> Display for Metadata<'a> {
    spec fn text(&self) -> Seq<char> { lines(texts(self.tags.order())) + lines(texts(self.links.order())) + lines(pair_texts(self.key_values.order())) }
@@fn src/types.rs Display@Metadata::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for Posting<'a> {
    spec fn text(&self) -> Seq<char> { one(§"", self.flag, §" ") + self.account.text() + one(§" ", self.amount, §"") + one(§" ", self.currency, §"") + one(§" ", self.cost_spec, §"") + one(§" @ ", self.price_annotation, §"") + self.metadata.text() }
@@fn src/types.rs Display@Posting::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
impl<'a> Display for Plugin<'a> {
    spec fn text(&self) -> Seq<char> { §"plugin \"" + self.module_name.text() + §"\"" + one(§" \"", self.config, §"\"") + §"\n" }
@@fn src/types.rs Display@Plugin::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}

// ---------------------------------------------------------------- src/types.rs: the directives
spec fn inline<'a>(m: Metadata<'a>) -> Seq<char> { spaced(texts(m.tags.order())) + spaced(texts(m.links.order())) + lines(pair_texts(m.key_values.order())) }
impl<'a> Transaction<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" " + self.flag.text() + one(§" \"", self.payee, §"\"") + one(§" \"", self.narration, §"\"") + (if self.payee is Some && self.narration is None { §" \"\"" } else { §"" })
        + inline(metadata) + lines(texts(self.postings@.map_values(|x: Spanned<Posting<'a>>| &x))) }
@@fn src/types.rs Transaction::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Price<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" price " + self.currency.text() + §" " + self.amount.text() + inline(metadata) }
@@fn src/types.rs Price::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Balance<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" balance " + self.account.text() + §" " + self.atol.text() + inline(metadata) }
@@fn src/types.rs Balance::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Open<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" open " + self.account.text() + run_of(texts(self.currencies.order()), §",", §" ") + one(§" \"", self.booking, §"\"") + inline(metadata) }
@@fn src/types.rs Open::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Close<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" close " + self.account.text() + inline(metadata) }
@@fn src/types.rs Close::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Commodity<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" commodity " + self.currency.text() + inline(metadata) }
@@fn src/types.rs Commodity::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Pad<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" pad " + self.account.text() + §" " + self.source.text() + inline(metadata) }
@@fn src/types.rs Pad::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Document<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" document " + self.account.text() + §" \"" + self.path.text() + §"\"" + inline(metadata) }
@@fn src/types.rs Document::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Note<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" note " + self.account.text() + §" \"" + self.comment.text() + §"\"" + inline(metadata) }
@@fn src/types.rs Note::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Event<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" event \"" + self.event_type.text() + §"\" \"" + self.description.text() + §"\"" + inline(metadata) }
@@fn src/types.rs Event::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Query<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" query \"" + self.name.text() + §"\" \"" + self.content.text() + §"\"" + inline(metadata) }
@@fn src/types.rs Query::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Custom<'a> {
    spec fn body(&self, date: Date, metadata: Metadata<'a>) -> Seq<char> { date.text() + §" custom \"" + self.type_.text() + §"\"" + spaced(texts(self.values@.map_values(|x: Spanned<MetaValue<'a>>| &x))) + metadata.text() }
@@fn src/types.rs Custom::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@sigsubst &Metadata =>> &Metadata<'a>
@start
    broadcast use plainer;
@spec
    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.body(date, *metadata), // [C23]
@@end
}
impl<'a> Display for Directive<'a> {
    spec fn text(&self) -> Seq<char> { match self.variant {
        DirectiveVariant::Transaction(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Price(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Balance(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Open(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Close(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Commodity(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Pad(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Document(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Note(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Event(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Query(x) => x.body(self.date.item, self.metadata.item),
        DirectiveVariant::Custom(x) => x.body(self.date.item, self.metadata.item),
    } }
@@fn src/types.rs Display@Directive::fmt
@ret r
@subst? , plain, =>> , Plain,
@subst? , double_quoted, =>> , Quoted,
@subst? , single_quoted, =>> , SingleQuoted,
@subst? , key_value, =>> , Paired,
@subst? &self.metadata =>> &self.metadata.item
@start
    proof { let t_ = self.text(); }
    broadcast use plainer;
@@end
}
}
fn main() {}
