// Unit expr: evaluation of expressions, src/types.rs Expr, ExprValue and src/parsers.rs expr, expr_value (C11)
#![allow(unused)]
#![feature(const_destruct)]
use vstd::prelude::*;
use std::ops::Range;
verus! {
@@include mem.inc
@@include option.inc
@@include token.inc
// ---------------------------------------------------------------- assumed: rust_decimal. Its arithmetic is what "decimal arithmetic" means: None on overflow or division by zero
uninterp spec fn plus(a: Decimal, b: Decimal) -> Option<Decimal>;
uninterp spec fn minus(a: Decimal, b: Decimal) -> Option<Decimal>;
uninterp spec fn times(a: Decimal, b: Decimal) -> Option<Decimal>;
uninterp spec fn over(a: Decimal, b: Decimal) -> Option<Decimal>;
uninterp spec fn negated(a: Decimal) -> Decimal;
uninterp spec fn places(a: Decimal) -> u32;
/// rounded to s places
uninterp spec fn rounded(a: Decimal, s: u32) -> Decimal;
impl Decimal {
    #[verifier::external_body]
    fn checked_add(self, b: Decimal) -> (r: Option<Decimal>) ensures r == plus(self, b) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(self, b: Decimal) -> (r: Option<Decimal>) ensures r == minus(self, b) { unimplemented!() }
    #[verifier::external_body]
    fn checked_mul(self, b: Decimal) -> (r: Option<Decimal>) ensures r == times(self, b) { unimplemented!() }
    #[verifier::external_body]
    fn checked_div(self, b: Decimal) -> (r: Option<Decimal>) ensures r == over(self, b) { unimplemented!() }
    #[verifier::external_body]
    fn neg(self) -> (r: Decimal) ensures r == negated(self) { unimplemented!() }
    #[verifier::external_body]
    fn scale(&self) -> (r: u32) ensures r == places(*self) { unimplemented!() }
    #[verifier::external_body]
    fn rescale(&mut self, s: u32) ensures *final(self) == rounded(*old(self), s) { unimplemented!() }
}
/// of the same value, whatever the scale
uninterp spec fn alike(a: Decimal, b: Decimal) -> bool;
#[verifier::external_body]
fn same_number(a: &Decimal, b: &Decimal) -> (r: bool) ensures r == alike(*a, *b) { unimplemented!() }
fn max(a: u32, b: u32) -> (r: u32) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
#[derive(Clone, Copy)] struct Span_ { start: usize, end: usize, context: usize }
struct Rich { at: Span_ }
impl Rich {
    fn custom<M>(span: Span_, m: M) -> (r: Rich) ensures r.at == span { Rich { at: span } }
}
@@item src/types.rs Expr;
@@item src/types.rs ExprValue;

// ---------------------------------------------------------------- specification
/// C11: the value before rounding; None if some operation has none
spec fn value_of(e: Expr) -> Option<Decimal> decreases e {
    match e {
        Expr::Value(d) => Some(d),
        Expr::Add(a, b) => match (value_of(*a), value_of(*b)) { (Some(x), Some(y)) => plus(x, y), _ => None },
        Expr::Sub(a, b) => match (value_of(*a), value_of(*b)) { (Some(x), Some(y)) => minus(x, y), _ => None },
        Expr::Mul(a, b) => match (value_of(*a), value_of(*b)) { (Some(x), Some(y)) => times(x, y), _ => None },
        Expr::Div(a, b) => match (value_of(*a), value_of(*b)) { (Some(x), Some(y)) => over(x, y), _ => None },
        Expr::Neg(a) => match value_of(*a) { Some(x) => Some(negated(x)), None => None },
        Expr::Paren(a) => value_of(*a),
    }
}
/// the numbers written in it
spec fn written(e: Expr) -> Seq<Decimal> decreases e {
    match e {
        Expr::Value(d) => seq![d],
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) => written(*a) + written(*b),
        Expr::Neg(a) | Expr::Paren(a) => written(*a),
    }
}
/// the largest number of places of any of them
spec fn most_places(s: Seq<Decimal>) -> u32 decreases s.len() {
    if s.len() == 0 { 0 } else if places(s.last()) > most_places(s.drop_last()) { places(s.last()) } else { most_places(s.drop_last()) }
}
proof fn most_places_max(s: Seq<Decimal>)
    ensures forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> places(s[i]) <= most_places(s), s.len() > 0 ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && places(s[i]) == most_places(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        most_places_max(t);
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies places(s[i]) <= most_places(s) by { if i < t.len() { assert(t[i] == s[i]); } }
        if places(s.last()) > most_places(t) || t.len() == 0 { assert(places(s[s.len() - 1]) == most_places(s)); }
        else { let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && places(t[i]) == most_places(t); assert(places(s[i]) == most_places(s)); }
    }
}
proof fn most_places_sum(s: Seq<Decimal>, t: Seq<Decimal>)
    ensures most_places(s + t) == (if most_places(s) > most_places(t) { most_places(s) } else { most_places(t) }),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); most_places_sum(s, t.drop_last()); }
}
proof fn places_of(e: Expr)
    ensures
        e matches Expr::Value(d) ==> most_places(written(e)) == places(d),
        e matches Expr::Add(a, b) ==> most_places(written(e)) == larger(most_places(written(*a)), most_places(written(*b))),
        e matches Expr::Sub(a, b) ==> most_places(written(e)) == larger(most_places(written(*a)), most_places(written(*b))),
        e matches Expr::Mul(a, b) ==> most_places(written(e)) == larger(most_places(written(*a)), most_places(written(*b))),
        e matches Expr::Div(a, b) ==> most_places(written(e)) == larger(most_places(written(*a)), most_places(written(*b))),
{
    match e {
        Expr::Value(d) => { assert(seq![d].drop_last() =~= Seq::<Decimal>::empty()); assert(seq![d].last() == d); assert(most_places(Seq::<Decimal>::empty()) == 0); assert(most_places(seq![d]) == places(d)); },
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) => { most_places_sum(written(*a), written(*b)); },
        _ => {},
    }
}
spec fn larger(a: u32, b: u32) -> u32 { if a > b { a } else { b } }
spec fn result(e: Expr) -> Option<(Decimal, u32)> { match value_of(e) { Some(d) => Some((d, most_places(written(e)))), None => None } }
spec fn height(e: Expr) -> nat decreases e {
    match e {
        Expr::Value(_) => 0,
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) => if height(*a) > height(*b) { height(*a) + 1 } else { height(*b) + 1 },
        Expr::Neg(a) | Expr::Paren(a) => height(*a) + 1,
    }
}
spec fn higher(a: nat, b: nat) -> nat { if a > b { a } else { b } }

@@fn src/types.rs Expr::evaluate>evaluate_unary
@ret r
@spec
    requires forall|d: Decimal| op.requires((d,)),
    ensures
        result(*e1) is None ==> r is None, // [C11]
        result(*e1) is Some ==> r is Some && op.ensures(((result(*e1)->0).0,), (r->0).0) && (r->0).1 == (result(*e1)->0).1, // [C11]
    decreases height(*e1), 1nat,
@@end
@@fn src/types.rs Expr::evaluate>evaluate_binary
@ret r
@spec
    requires forall|d: Decimal, e: Decimal| op.requires((d, e)),
    ensures
        result(*e1) is None || result(*e2) is None ==> r is None, // [C11]
        result(*e1) is Some && result(*e2) is Some ==> exists|o: Option<Decimal>| #[trigger] op.ensures(((result(*e1)->0).0, (result(*e2)->0).0), o)
            && r == (match o { Some(d) => Some((d, if (result(*e1)->0).1 > (result(*e2)->0).1 { (result(*e1)->0).1 } else { (result(*e2)->0).1 })), None => None }), // [C11]
    decreases higher(height(*e1), height(*e2)), 1nat,
@@end
impl Expr {
@@fn src/types.rs Expr::evaluate
@ret r
@spec
    ensures r == result(*self), // [C11]
    decreases height(*self), 0nat,
@dropfn evaluate_unary
@dropfn evaluate_binary
@subst? std::ops::Neg::neg =>> Decimal::neg
@start
    proof {
        places_of(*self);
    }
@@end
}
impl ExprValue {
@@fn src/types.rs ExprValue::checked_from
@ret r
@spec
    ensures
        (r is None) == (value_of(expr) is None), // [C11]
        r is Some ==> r->0.expr == expr && r->0.value == rounded(value_of(expr)->0, most_places(written(expr))), // [C11]
@@end
@@fn src/types.rs PartialEq@ExprValue::eq
@ret r
@subst? &self.value == other =>> same_number(&self.value, other)
@subst? self.value == *other =>> same_number(&self.value, other)
@subst? *other == self.value =>> same_number(&self.value, other)
@subst? &self.value != other =>> !same_number(&self.value, other)
@spec
    ensures r == alike(self.value, *other), // [C11]
@@end
@@fn src/types.rs ExprValue::value
@ret r
@spec
    ensures r == self.value, // [C11]
@@end
}
// ---------------------------------------------------------------- reading
/// an expression without a value is refused, at its position
@@closure src/parsers.rs expr_value try_map#0
@sig
fn expr_value_of(p0: Expr, p1: Span_) -> (r: Result<ExprValue, Rich>)
@spec
    ensures
        (r is Err) == (value_of(p0) is None), r is Err ==> (r->Err_0).at == p1, // [C11]
        r is Ok ==> (r->Ok_0).expr == p0 && (r->Ok_0).value == rounded(value_of(p0)->0, most_places(written(p0))), // [C11]
@closure ok_or_else#0
|| -> (e: Rich) ensures e.at == span { $body }
@@end
// a sign
@@closure src/parsers.rs expr map#1
@sig
fn factor_of<'a>(p0: (Option<Token<'a>>, Expr)) -> (r: Expr)
@spec
    ensures r == (if p0.0 is Some && p0.0->0 == Token::<'a>::Minus { Expr::Neg(Box::new(p0.1)) } else { p0.1 }), // [C11]
@start
    use Token::*;
@closure is_some_and#0
|tok: Token<'a>| -> (b: bool) ensures b == (tok == Token::<'a>::Minus) { $body }
@@end
// parentheses
@@closure src/parsers.rs expr map#0
@sig
fn parens_of(p0: Expr) -> (r: Expr)
@spec
    ensures r == Expr::Paren(Box::new(p0)), // [C11]
@@end
// one more factor, one more term: what was read so far is the left operand
@@closure src/parsers.rs expr foldl#0
@sig
fn product_of<F: Fn(Box<Expr>, Box<Expr>) -> Expr>(p0: Expr, p1: (F, Expr)) -> (r: Expr)
@spec
    requires forall|a: Box<Expr>, b: Box<Expr>| (p1.0).requires((a, b)),
    ensures (p1.0).ensures((Box::new(p0), Box::new(p1.1)), r), // [C11]
@@end
@@closure src/parsers.rs expr foldl#1
@sig
fn sum_of<F: Fn(Box<Expr>, Box<Expr>) -> Expr>(p0: Expr, p1: (F, Expr)) -> (r: Expr)
@spec
    requires forall|a: Box<Expr>, b: Box<Expr>| (p1.0).requires((a, b)),
    ensures (p1.0).ensures((Box::new(p0), Box::new(p1.1)), r), // [C11]
@@end
}
