// Unit grammar: the grammar, src/parsers.rs: which tokens make up which declaration, over the contracts of its closures (C10 to C13, C16, C20)
#![allow(unused, non_snake_case)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
// chumsky's select_ref!, and a constructor used as a function: closures with the contract that they yield what they say
macro_rules! select_ref { ($p:pat => $e:expr) => { verus_exec_expr!{ select(|t: &Token<'s>| -> (r: core::option::Option<_>) ensures eq_(r, match t { $p => Some($e), _ => None }) { match t { $p => Some($e), _ => None } }) } } }
macro_rules! ctor { ($p:path) => { verus_exec_expr!{ |x| -> (r: _) ensures eq_(r, $p(x)) { $p(x) } } } }
verus! {
@@include mem.inc
spec fn eq_<T>(a: T, b: T) -> bool { a == b }
@@include hashed.inc
@@include identspec.inc
// ---------------------------------------------------------------- stubs
#[verifier::external_body] #[derive(Clone, Copy)] struct Date { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Time { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Decimal { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct FlagLetter { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Booking { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Account<'a> { x: &'a u8 }
#[verifier::external_body] #[derive(Clone, Copy)] struct Path { x: u8 }
#[verifier::external_body] struct LexerError { x: u8 }
#[verifier::external_body] struct CowStr<'a> { x: &'a str }
#[verifier::external_body] struct ExprValue { x: u8 }
#[verifier::external_body] struct BeancountOption<'a> { x: &'a u8 }
#[verifier::external_body] struct ParserError<'a> { x: &'a u8 }
#[verifier::external_body] struct IdentError { x: u8 }
impl IdentError { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
struct Rich {}
impl Rich { #[verifier::external_body] fn custom<'a>(span: Span_, message: String) -> ParserError<'a> { unimplemented!() } }
#[derive(Clone, Copy)]
@@item src/types.rs Flag
@default Flag_default
@@end
impl Flag { #[verifier::external_body] fn default() -> (r: Flag) ensures r == Flag_default() { unimplemented!() } }
@@item src/lexer.rs Token
@subst Cow<'a, str> =>> CowStr<'a>
@@end
@@include types.inc
@@item src/types.rs Declaration;
@@item src/types.rs Pragma;
@@item src/types.rs Expr;
@@item src/types.rs CompoundExprValue;
@@item src/types.rs CompoundAmount;
@@item src/parsers.rs CostComp;
@@include chumsky.inc
@@include made.inc

// ---------------------------------------------------------------- proved in other units
spec fn spanned_s<T>(item: T, span: Span) -> Spanned<T> { Spanned { item, span } }
spec fn spanned__s<T>(item: T, span: Span_) -> Spanned<T> { Spanned { item, span: span.at@ } }
spec fn spanned_extra_s<T>(item: T, e: MapExtra) -> Spanned<T> { Spanned { item, span: e.at@ } }
#[verifier::when_used_as_spec(spanned__s)] #[verifier::external_body]
fn spanned_<T>(item: T, span: Span_) -> (r: Spanned<T>) ensures r == spanned__s(item, span) { unimplemented!() }
#[verifier::when_used_as_spec(spanned_extra_s)] #[verifier::external_body]
fn spanned_extra<T>(item: T, e: MapExtra) -> (r: Spanned<T>) ensures r == spanned_extra_s(item, e) { unimplemented!() }
#[verifier::when_used_as_spec(spanned_s)] #[verifier::external_body]
fn spanned<T>(item: T, span: Span) -> (r: Spanned<T>) ensures r == spanned_s(item, span) { unimplemented!() }
