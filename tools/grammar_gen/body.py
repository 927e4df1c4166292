T('''// ---- the functions given to try_map and the like
impl<'a> Tag<'a> { #[verifier::external_body] fn try_from(s: &'a str) -> (r: Result<Tag<'a>, IdentError>) ensures r is Ok == tag_ok(s@), r is Ok ==> r->Ok_0 == Tag(s) { unimplemented!() } }
impl<'a> Link<'a> { #[verifier::external_body] fn try_from(s: &'a str) -> (r: Result<Link<'a>, IdentError>) ensures r is Ok == tag_ok(s@), r is Ok ==> r->Ok_0 == Link(s) { unimplemented!() } }
impl<'a> Key<'a> { #[verifier::external_body] fn try_from(s: &'a str) -> (r: Result<Key<'a>, IdentError>) ensures r is Ok == key_ok(s@), r is Ok ==> r->Ok_0 == Key(s) { unimplemented!() } }
impl<'a> Currency<'a> { #[verifier::external_body] fn try_from(s: &'a str) -> (r: Result<Currency<'a>, IdentError>) ensures r is Ok == currency_ok(s@), r is Ok ==> r->Ok_0 == Currency(s) { unimplemented!() } }
uninterp spec fn booking_of(s: Seq<char>) -> Option<Booking>;
impl Booking { #[verifier::external_body] fn try_from(s: &str) -> (r: Result<Booking, IdentError>) ensures r is Ok == booking_of(s@) is Some, r is Ok ==> r->Ok_0 == booking_of(s@)->0 { unimplemented!() } }

// ---- sequences of parsers
spec fn sp_s<'s, A>(p: Sem<'s, A>) -> Sem<'s, Spanned<A>> { |i: In<'s>, a: int, st: St| with_span(p(i, a, st), i, a) }
spec fn tok_s<'s>(t: Token<'s>) -> Sem<'s, Token<'s>> { |i: In<'s>, a: int, st: St| token_g(t, i, a, st) }
spec fn opt_s<'s, A>(p: Sem<'s, A>) -> Sem<'s, Option<A>> { |i: In<'s>, a: int, st: St| opt(p(i, a, st), a) }
/// p from where x ended: both values, the first, the last
spec fn then<'s, A, B>(x: Res<A>, i: In<'s>, p: Sem<'s, B>) -> Res<(A, B)> { seq2(x, p(i, x.end(), x.st)) }
spec fn skip<'s, A, B>(x: Res<A>, i: In<'s>, p: Sem<'s, B>) -> Res<A> { seq_first(x, p(i, x.end(), x.st)) }
spec fn last<'s, A, B>(x: Res<A>, i: In<'s>, p: Sem<'s, B>) -> Res<B> { seq_last(x, p(i, x.end(), x.st)) }
/// p where x failed
spec fn or_else<'s, A>(x: Res<A>, i: In<'s>, a: int, p: Sem<'s, A>) -> Res<A> { alt(x, p(i, a, x.st)) }
/// the end of a line
spec fn eol_s<'s>() -> Sem<'s, ()> { |i: In<'s>, a: int, st: St| { let x = token_g(Token::Eol, i, a, st); alt(with(x, ()), end_g(i, a, x.st)) } }

// ---------------------------------------------------------------- single tokens
/// the token at a, if there is one and it is such
spec fn at<'s>(i: In<'s>, a: int, what: spec_fn(Token<'s>) -> bool) -> bool { 0 <= a < i.len() && what(i[a].0) }
''')
def AT(*ks, off=0):
    o=f" + {off}" if off else ""
    return f"at(i, a{o}, |t: Token<'s>| "+" || ".join(f"t is {k}" for k in ks)+")"
def N(n, cond, *reveals, use=""):
    """a reader fails, and has no effect, unless cond"""
    T(f"broadcast proof fn only_{n}<'s>(i: In<'s>, a: int, st: St) ensures !({cond}) ==> #[trigger] {n}_g(i, a, st) == fails::<{RT[n]}>(st), !{n}_g(i, a, st).ok() ==> {n}_g(i, a, st) == fails::<{RT[n]}>({n}_g(i, a, st).st) {{ "+(f"broadcast use {{{use}}}; " if use else "")+" ".join(f"reveal({r});" for r in ([n+"_g"] if n!="number" else [])+list(reveals))+" }")
G("date","Date","if at(i, a, |t: Token<'s>| t is Date) { yields(i[a].0->Date_0, a + 1, st) } else { fails(st) }")
G("decimal","Decimal","if at(i, a, |t: Token<'s>| t is Number) { yields(i[a].0->Number_0, a + 1, st) } else { fails(st) }")
for n,Ty,ok in (("tag","Tag","tag_ok"),("link","Link","tag_ok"),("key","Key","key_ok"),("currency","Currency","currency_ok")):
    G(n,f"{Ty}<'s>",f"if at(i, a, |t: Token<'s>| t is {Ty} && {ok}((t->{Ty}_0)@)) {{ yields({Ty}(i[a].0->{Ty}_0), a + 1, st) }} else {{ fails(st) }}",tags="C10, C20",
      closure=[("try_map#0",f"|$p0: &'s str, $p1: Span_| -> (r: Result<{Ty}<'s>, ParserError<'s>>) ensures r is Ok == {ok}($p0@), r is Ok ==> r->Ok_0 == {Ty}($p0)"),("map_err#0","|$p0: IdentError| -> (r: ParserError<'s>)")])
G("booking","Booking","let x = string_g(i, a, st); if x.ok() && booking_of(x.val()@) is Some { with(x, booking_of(x.val()@)->0) } else { fails(x.st) }",
  closure=[("try_map#0","|$p0: &'s str, $p1: Span_| -> (r: Result<Booking, ParserError<'s>>) ensures r is Ok == booking_of($p0@) is Some, r is Ok ==> r->Ok_0 == booking_of($p0@)->0"),("map_err#0","|$p0: IdentError| -> (r: ParserError<'s>)")])
T('''/// C09: the account of a name, by the account type names in force (unit names)
uninterp spec fn account_of<'a>(s: &'a str, st: St) -> Option<Account<'a>>;
struct AccountRead {}
impl<'s> Reads<&'s str, Account<'s>> for AccountRead { spec fn got(self, x: &'s str, st: St) -> Option<Account<'s>> { account_of(x, st) } }
''')
G("account","Account<'s>","if at(i, a, |t: Token<'s>| t is Account) && account_of(i[a].0->Account_0, st) is Some { yields(account_of(i[a].0->Account_0, st)->0, a + 1, st) } else { fails(st) }",
  tags="C09, C20", contract=[("try_map_with#0","AccountRead {}")])
T('''/// the text of a string literal; and a warning about it, if it has too many lines (unit longstring)
uninterp spec fn text_of<'a>(s: CowStr<'a>) -> &'a str;
uninterp spec fn warned<'a>(s: &'a str, span: Span, st: St) -> St;
struct StringNoted {}
impl<'s> Notes<&'s str, &'s str> for StringNoted { spec fn noted(self, x: &'s str, span: Span, st: St) -> (&'s str, int, St) { (x, 0, warned(x, span, st)) } }
impl<'a> CowStr<'a> {
    spec fn deref_s(&self) -> &'a str { text_of(*self) }
    // of a token of the input, which outlives the parse
    #[verifier::when_used_as_spec(deref_s)] #[verifier::external_body]
    fn deref(&self) -> (r: &'a str) ensures r == text_of(*self) { unimplemented!() }
}
''')
G("string","&'s str","if at(i, a, |t: Token<'s>| t is StringLiteral) { yields(text_of(i[a].0->StringLiteral_0), a + 1, warned(text_of(i[a].0->StringLiteral_0), span_of(i, a, a + 1), st)) } else { fails(st) }",
  tags="C19, C20", contract=[("map_with#0","StringNoted {}")], sub=[(".map_with(StringNoted {})",".noting(StringNoted {})")])
G("bool","bool","let x = token_g(Token::True, i, a, st); if x.ok() { with(x, true) } else { with(token_g(Token::False, i, a, st), false) }")
G("flag","Flag","if at(i, a, |t: Token<'s>| t is DedicatedFlag) { yields(i[a].0->DedicatedFlag_0, a + 1, st) } else if at(i, a, |t: Token<'s>| t is Asterisk) { yields(Flag::Asterisk, a + 1, st) } else if at(i, a, |t: Token<'s>| t is Hash) { yields(Flag::Hash, a + 1, st) } else { fails(st) }")
G("txn","Flag","if at(i, a, |t: Token<'s>| t is Txn) { yields(Flag::Asterisk, a + 1, st) } else { flag_g(i, a, st) }")
T('''// ---------------------------------------------------------------- amounts
// C11: expressions. A factor is a number or an expression in parentheses, perhaps signed; factors are multiplied and divided from left to right,
// and such products added and subtracted from left to right. What is in parentheses is read by q.
enum Op { Add, Sub, Mul, Div }
spec fn applied(op: Op, l: Expr, r: Expr) -> Expr {
    match op { Op::Add => Expr::Add(Box::new(l), Box::new(r)), Op::Sub => Expr::Sub(Box::new(l), Box::new(r)), Op::Mul => Expr::Mul(Box::new(l), Box::new(r)), Op::Div => Expr::Div(Box::new(l), Box::new(r)) }
}
impl Op {
    // the constructor which it stands for, called
    #[verifier::external_body]
    fn apply(self, l: Box<Expr>, r: Box<Expr>) -> (e: Expr) ensures e == applied(self, *l, *r) { unimplemented!() }
}
/// ((x op y) op z) ...
spec fn chained(x: Expr, s: Seq<(Op, Expr)>) -> Expr decreases s.len() { if s.len() == 0 { x } else { applied(s.last().0, chained(x, s.drop_last()), s.last().1) } }
spec fn number_g<'s>(i: In<'s>, a: int, st: St) -> Res<Expr> { if at(i, a, |t: Token<'s>| t is Number) { yields(Expr::Value(i[a].0->Number_0), a + 1, st) } else { fails(st) } }
spec fn parens_over<'s>(q: Sem<'s, Expr>, i: In<'s>, a: int, st: St) -> Res<Expr> {
    let x = skip(last(token_g(Token::Lparen, i, a, st), i, q), i, tok_s(Token::Rparen));
    with(x, Expr::Paren(Box::new(x.val())))
}
spec fn operand_s<'s>(q: Sem<'s, Expr>) -> Sem<'s, Expr> { |i: In<'s>, a: int, st: St| { let n = number_g(i, a, st); alt(n, parens_over(q, i, a, n.st)) } }
#[verifier::opaque] spec fn factor_over<'s>(q: Sem<'s, Expr>, i: In<'s>, a: int, st: St) -> Res<Expr> {
    let minus = token_g(Token::Minus, i, a, st);
    let sign = opt(or_else(minus, i, a, tok_s(Token::Plus)), a);
    let x = last(sign, i, operand_s(q));
    with(x, if minus.ok() { Expr::Neg(Box::new(x.val())) } else { x.val() })
}
spec fn factor_s<'s>(q: Sem<'s, Expr>) -> Sem<'s, Expr> { |i: In<'s>, a: int, st: St| factor_over(q, i, a, st) }
/// an operator, one of two, and what it applies to
spec fn step_s<'s>(t1: Token<'s>, op1: Op, t2: Token<'s>, op2: Op, p: Sem<'s, Expr>) -> Sem<'s, (Op, Expr)> { |i: In<'s>, a: int, st: St| {
    let x = with(token_g(t1, i, a, st), op1);
    then(or_else(x, i, a, |i: In<'s>, a: int, st: St| with(token_g(t2, i, a, st), op2)), i, p) } }
spec fn chain_g<'s>(p: Sem<'s, Expr>, step: Sem<'s, (Op, Expr)>, i: In<'s>, a: int, st: St) -> Res<Expr> {
    let x = p(i, a, st);
    chained_res(x, many(step, i, x.end(), x.st))
}
#[verifier::opaque] spec fn chained_res(x: Res<Expr>, y: Res<Seq<(Op, Expr)>>) -> Res<Expr> { let z = seq2(x, y); with(z, chained(z.val().0, z.val().1)) }
spec fn times_s<'s>(q: Sem<'s, Expr>) -> Sem<'s, (Op, Expr)> { step_s(Token::Asterisk, Op::Mul, Token::Slash, Op::Div, factor_s(q)) }
#[verifier::opaque] spec fn product_over<'s>(q: Sem<'s, Expr>, i: In<'s>, a: int, st: St) -> Res<Expr> { chain_g(factor_s(q), times_s(q), i, a, st) }
spec fn product_s<'s>(q: Sem<'s, Expr>) -> Sem<'s, Expr> { |i: In<'s>, a: int, st: St| product_over(q, i, a, st) }
spec fn plus_s<'s>(q: Sem<'s, Expr>) -> Sem<'s, (Op, Expr)> { step_s(Token::Plus, Op::Add, Token::Minus, Op::Sub, product_s(q)) }
#[verifier::opaque] spec fn sum_over<'s>(q: Sem<'s, Expr>, i: In<'s>, a: int, st: St) -> Res<Expr> { chain_g(product_s(q), plus_s(q), i, a, st) }
spec fn sum_s<'s>(q: Sem<'s, Expr>) -> Sem<'s, Expr> { |i: In<'s>, a: int, st: St| sum_over(q, i, a, st) }
/// what is in parentheses is again an expression
spec fn expr_g<'s>(i: In<'s>, a: int, st: St) -> Res<Expr> decreases i.len() - a, 1int { sum_over(later_s(i, a), i, a, st) }
/// an expression which starts after a
spec fn later_s<'s>(i: In<'s>, a: int) -> Sem<'s, Expr> decreases i.len() - a, 0int { |j: In<'s>, b: int, t: St| if j == i && a < b <= i.len() { expr_g(i, b, t) } else { fails(t) } }
spec fn expr_s<'s>() -> Sem<'s, Expr> { |i: In<'s>, a: int, st: St| expr_g(i, a, st) }

/// two readers of what is in parentheses which agree beyond a, and read something there if they succeed
spec fn agree<'s>(q: Sem<'s, Expr>, r: Sem<'s, Expr>, i: In<'s>, a: int) -> bool {
    forall|b: int, st: St| a < b <= i.len() ==> (#[trigger] q(i, b, st)) == r(i, b, st) && forth(q(i, b, st), i, b, st)
}
spec fn forth<'s, A>(x: Res<A>, i: In<'s>, a: int, st: St) -> bool { x.st == st && x.errs == 0 && (x.ok() ==> a < x.end() <= i.len()) }
proof fn factor_agree<'s>(q: Sem<'s, Expr>, r: Sem<'s, Expr>, i: In<'s>, a: int, st: St)
    requires agree(q, r, i, a),
    ensures factor_over(q, i, a, st) == factor_over(r, i, a, st), forth(factor_over(q, i, a, st), i, a, st),
{
    reveal(factor_over);
}
proof fn many_agree<'s, A>(p: Sem<'s, A>, r: Sem<'s, A>, i: In<'s>, a: int, st: St)
    requires forall|b: int, t: St| a <= b ==> (#[trigger] p(i, b, t)) == r(i, b, t) && p(i, b, t).st == t && p(i, b, t).errs == 0,
    ensures many(p, i, a, st) == many(r, i, a, st), many(p, i, a, st).ok(), many(p, i, a, st).st == st, many(p, i, a, st).errs == 0, a <= many(p, i, a, st).end(), many(p, i, a, st).end() <= i.len() || many(p, i, a, st).end() == a,
    decreases i.len() - a,
{
    let x = p(i, a, st);
    assert(x == r(i, a, st));
    if x.ok() && a < x.end() <= i.len() { many_agree(p, r, i, x.end(), x.st); }
}
proof fn product_agree<'s>(q: Sem<'s, Expr>, r: Sem<'s, Expr>, i: In<'s>, a: int, st: St)
    requires agree(q, r, i, a),
    ensures product_over(q, i, a, st) == product_over(r, i, a, st), forth(product_over(q, i, a, st), i, a, st),
{
    reveal(product_over); reveal(chained_res);
    factor_agree(q, r, i, a, st);
    let x = factor_over(q, i, a, st);
    assert forall|b: int, t: St| a <= b implies (#[trigger] times_s(q)(i, b, t)) == times_s(r)(i, b, t) && times_s(q)(i, b, t).st == t && times_s(q)(i, b, t).errs == 0 by {
        assert(agree(q, r, i, b + 1));
        factor_agree(q, r, i, b + 1, t);
    }
    if x.ok() { many_agree(times_s(q), times_s(r), i, x.end(), x.st); }
}
proof fn sum_agree<'s>(q: Sem<'s, Expr>, r: Sem<'s, Expr>, i: In<'s>, a: int, st: St)
    requires agree(q, r, i, a),
    ensures sum_over(q, i, a, st) == sum_over(r, i, a, st), forth(sum_over(q, i, a, st), i, a, st),
{
    reveal(sum_over); reveal(chained_res);
    product_agree(q, r, i, a, st);
    let x = product_over(q, i, a, st);
    assert forall|b: int, t: St| a <= b implies (#[trigger] plus_s(q)(i, b, t)) == plus_s(r)(i, b, t) && plus_s(q)(i, b, t).st == t && plus_s(q)(i, b, t).errs == 0 by {
        assert(agree(q, r, i, b + 1));
        product_agree(q, r, i, b + 1, t);
    }
    if x.ok() { many_agree(plus_s(q), plus_s(r), i, x.end(), x.st); }
}
/// there is only one parser which is a sum of products of factors with itself in parentheses
proof fn only_expr<'s>(p: Sem<'s, Expr>, i: In<'s>, a: int, st: St)
    requires forall|i: In<'s>, a: int, st: St| #[trigger] p(i, a, st) == sum_over(p, i, a, st),
    ensures p(i, a, st) == expr_g(i, a, st), forth(p(i, a, st), i, a, st),
    decreases i.len() - a,
{
    let r = later_s(i, a);
    assert forall|b: int, t: St| a < b <= i.len() implies (#[trigger] p(i, b, t)) == r(i, b, t) && forth(p(i, b, t), i, b, t) by { only_expr(p, i, b, t); }
    assert(p(i, a, st) == sum_over(p, i, a, st));
    sum_agree(p, r, i, a, st);
}

/// recursive: a parser which does what f makes of it
#[verifier::external_body]
fn recursive<'s, O, F: Fn(P<'s, O>) -> P<'s, O>>(f: F) -> (p: P<'s, O>)
    requires forall|x: P<'s, O>| f.requires((x,)),
    ensures exists|q: P<'s, O>| #[trigger] f.ensures((p,), q) && q.sem() == p.sem(),
{ unimplemented!() }
/// foldl: f, from the left
spec fn folding<A, B, F: Fn(A, B) -> A>(f: F, x: A, s: Seq<B>, m: Seq<A>) -> bool {
    m.len() == s.len() + 1 && m[0] == x && (forall|k: int| 0 <= k < s.len() ==> f.ensures((m[k], #[trigger] s[k]), m[k + 1]))
}
spec fn folded<A, B, F: Fn(A, B) -> A>(f: F, x: A, s: Seq<B>, r: A) -> bool { exists|m: Seq<A>| #[trigger] folding(f, x, s, m) && m.last() == r }
#[verifier::opaque] spec fn folds<'s, A, B, F: Fn(A, B) -> A>(f: F, x: Res<A>, y: Res<Seq<B>>, r: Res<A>) -> bool {
    let z = seq2(x, y);
    r == with(z, r.val()) && (z.ok() ==> folded(f, x.val(), y.val(), r.val()))
}
impl<'s, O> P<'s, O> {
    #[verifier::external_body]
    fn foldl<B, F: Fn(O, B) -> O>(self, rep: Rep<'s, B>, f: F) -> (p: P<'s, O>)
        requires forall|x: O, y: B| f.requires((x, y)),
        ensures forall|i: In<'s>, a: int, st: St| folds(f, self.run(i, a, st), { let x = self.run(i, a, st); many(rep.item(), i, x.end(), x.st) }, #[trigger] p.run(i, a, st)),
    { unimplemented!() }
}
spec fn applies<F: Fn(Expr, (Op, Expr)) -> Expr>(f: F) -> bool { forall|l: Expr, x: (Op, Expr), r: Expr| #[trigger] f.ensures((l, x), r) ==> r == applied(x.0, l, x.1) }
proof fn folding_chained<F: Fn(Expr, (Op, Expr)) -> Expr>(f: F, x: Expr, s: Seq<(Op, Expr)>, m: Seq<Expr>, k: int)
    requires applies(f), folding(f, x, s, m), 0 <= k <= s.len(),
    ensures m[k] == chained(x, s.take(k)),
    decreases k,
{
    if k > 0 {
        folding_chained(f, x, s, m, k - 1);
        assert(s.take(k).drop_last() =~= s.take(k - 1));
        assert(s[k - 1] == s.take(k).last());
    }
}
broadcast proof fn folds_chained<F: Fn(Expr, (Op, Expr)) -> Expr>(f: F, x: Res<Expr>, y: Res<Seq<(Op, Expr)>>, r: Res<Expr>)
    requires applies(f), #[trigger] folds(f, x, y, r),
    ensures r == chained_res(x, y),
{
    reveal(folds); reveal(chained_res);
    if x.ok() && y.ok() {
        let s = y.val();
        let m = choose|m: Seq<Expr>| #[trigger] folding(f, x.val(), s, m) && m.last() == r.val();
        folding_chained(f, x.val(), s, m, s.len() as int);
        assert(s.take(s.len() as int) =~= s);
    }
}
fn is_minus<'a>(t: Option<Token<'a>>) -> (r: bool) ensures r == (t is Some && t->0 is Minus) { match t { Some(Token::Minus) => true, _ => false } }
@@closure src/parsers.rs expr map#0
@sig
fn in_parens(p0: Expr) -> (r: Expr)
@spec
    ensures r == Expr::Paren(Box::new(p0)), // [C11]
@@end
@@closure src/parsers.rs expr map#1
@sig
fn signed<'a>(p0: (Option<Token<'a>>, Expr)) -> (r: Expr)
@spec
    ensures r == (if p0.0 is Some && p0.0->0 is Minus { Expr::Neg(Box::new(p0.1)) } else { p0.1 }), // [C11]
@subst? negated.is_some_and(|tok| tok == Minus) =>> is_minus(negated)
@@end
@@fn src/parsers.rs expr
@sig
fn expr<'s>() -> (p: P<'s, Expr>)
@contract map#0
in_parens
@contract map#1
signed
@closure foldl#0
|$p0: Expr, x_: (Op, Expr)| -> (r: Expr) ensures r == applied(x_.0, $p0, x_.1) { $bind1(x_) $body }
@closure foldl#1
|$p0: Expr, x_: (Op, Expr)| -> (r: Expr) ensures r == applied(x_.0, $p0, x_.1) { $bind1(x_) $body }
@closure recursive#0
|$p0: P<'s, Expr>| -> (q: P<'s, Expr>) ensures q.sem() == sum_s($p0.sem()) { let q = $body; proof { assert forall|i: In<'s>, a: int, st: St| #[trigger] q.run(i, a, st) == sum_over($p0.sem(), i, a, st) by { reveal(sum_over); } same(q, sum_s($p0.sem())); } q }
@after let factor =
    proof { assert forall|i: In<'s>, a: int, st: St| #[trigger] factor.run(i, a, st) == factor_over(expr.sem(), i, a, st) by { reveal(factor_over); } same(factor, factor_s(expr.sem())); }
@after let product =
    proof { assert forall|i: In<'s>, a: int, st: St| #[trigger] product.run(i, a, st) == product_over(expr.sem(), i, a, st) by { reveal(product_over); } same(product, product_s(expr.sem())); }
@subst? Expr::$x as fn(_, _) -> _ =>> Op::$x
@subst? op(Box::new(lhs), Box::new(rhs)) =>> op.apply(Box::new(lhs), Box::new(rhs))
@subst .then(factor.clone()).repeated() =>> .then(factor.clone()).known_as(Ghost(times_s(expr.sem()))).repeated()
@subst .then(product.clone()).repeated() =>> .then(product.clone()).known_as(Ghost(plus_s(expr.sem()))).repeated()
@spec
    ensures p.sem() == expr_s::<'s>(), // [C11]
@start
    broadcast use folds_chained;
@wrapend
    proof {
        assert(r_.sem() == sum_s(r_.sem()));
        assert forall|i: In<'s>, a: int, st: St| #[trigger] (r_.sem())(i, a, st) == sum_over(r_.sem(), i, a, st) by { assert(sum_s(r_.sem())(i, a, st) == sum_over(r_.sem(), i, a, st)); }
        assert forall|i: In<'s>, a: int, st: St| #[trigger] r_.run(i, a, st) == expr_g(i, a, st) by { only_expr(r_.sem(), i, a, st); }
        same(r_, expr_s());
    }
@@end
/// C11: the value of an expression, unless it has none (unit expr)
uninterp spec fn value_of(e: Expr) -> Option<ExprValue>;
#[verifier::external_body]
fn expr_value_of<'s>(p0: Expr, p1: Span_) -> (r: Result<ExprValue, ParserError<'s>>) ensures r is Ok == value_of(p0) is Some, r is Ok ==> r->Ok_0 == value_of(p0)->0 { unimplemented!() }
''')
G("expr_value","ExprValue","let x = expr_g(i, a, st); if x.ok() && value_of(x.val()) is Some { with(x, value_of(x.val())->0) } else { fails(x.st) }",tags="C11",
  contract=[("try_map#0","expr_value_of")])
for n,k in (("date",["Date"]),("tag",["Tag"]),("link",["Link"]),("key",["Key"]),("currency",["Currency"]),("account",["Account"]),("string",["StringLiteral"]),("bool",["True","False"])):
    N(n,AT(*k))
N("expr_value",AT("Number","Lparen","Minus","Plus"),"expr_g","sum_over","product_over","factor_over","chained_res")
T('''proof fn expr_fixed<'s>(i: In<'s>, a: int, st: St)
    ensures expr_g(i, a, st) == sum_over(expr_s::<'s>(), i, a, st), forth(expr_g(i, a, st), i, a, st),
    decreases i.len() - a,
{
    let r = later_s(i, a);
    assert forall|b: int, t: St| a < b <= i.len() implies (#[trigger] r(i, b, t)) == expr_s::<'s>()(i, b, t) && forth(r(i, b, t), i, b, t) by { expr_fixed(i, b, t); }
    sum_agree(r, expr_s(), i, a, st);
}
/// reading an expression leaves the state as it is
broadcast proof fn expr_quiet<'s>(i: In<'s>, a: int, st: St) ensures (#[trigger] expr_value_g(i, a, st)).st == st { reveal(expr_value_g); expr_fixed(i, a, st); }
broadcast proof fn currency_quiet<'s>(i: In<'s>, a: int, st: St) ensures (#[trigger] currency_g(i, a, st)).st == st, currency_g(i, a, st).errs == 0 { reveal(currency_g); }
broadcast proof fn decimal_quiet<'s>(i: In<'s>, a: int, st: St) ensures (#[trigger] decimal_g(i, a, st)).st == st { reveal(decimal_g); }
broadcast proof fn amount_quiet<'s>(i: In<'s>, a: int, st: St) ensures (#[trigger] amount_g(i, a, st)).st == st { broadcast use {expr_quiet, currency_quiet}; reveal(amount_g); }
''')
T('''impl<'a> Amount<'a> { #[verifier::when_used_as_spec(new_s)] #[verifier::external_body] fn new(x: (Spanned<ExprValue>, Spanned<Currency<'a>>)) -> (r: Self) ensures r == Self::new_s(x) { unimplemented!() }
    spec fn new_s(x: (Spanned<ExprValue>, Spanned<Currency<'a>>)) -> Self { Amount { number: x.0, currency: x.1 } } }
impl<'a> LooseAmount<'a> { #[verifier::external_body] fn new(x: (Option<Spanned<ExprValue>>, Option<Spanned<Currency<'a>>>)) -> (r: Self) ensures r == (LooseAmount { number: x.0, currency: x.1 }) { unimplemented!() } }
impl<'a> AmountWithTolerance<'a> { #[verifier::when_used_as_spec(new_s)] #[verifier::external_body] fn new(x: (Spanned<Amount<'a>>, Option<Spanned<Decimal>>)) -> (r: Self) ensures r == Self::new_s(x) { unimplemented!() }
    spec fn new_s(x: (Spanned<Amount<'a>>, Option<Spanned<Decimal>>)) -> Self { AmountWithTolerance { amount: x.0, tolerance: x.1 } } }
''')
G("amount","Amount<'s>","let x = then(sp_s(expr_value_s())(i, a, st), i, sp_s(currency_s())); with(x, Amount { number: x.val().0, currency: x.val().1 })")
G("loose_amount","LooseAmount<'s>","let x = then(opt_s(sp_s(expr_value_s()))(i, a, st), i, opt_s(sp_s(currency_s()))); with(x, LooseAmount { number: x.val().0, currency: x.val().1 })")
G("amount_with_tolerance","AmountWithTolerance<'s>","""
    let n = sp_s(expr_value_s())(i, a, st);
    let x = sp_s(amount_s())(i, a, st);
    let y = then(then(skip(n, i, tok_s(Token::Tilde)), i, sp_s(decimal_s())), i, sp_s(currency_s()));
    if n.ok() && at(i, n.end(), |t: Token<'s>| t is Tilde) { with(y, AmountWithTolerance { amount: Spanned { item: Amount { number: (y.val().0).0, currency: y.val().1 }, span: span_of(i, a, y.end()) }, tolerance: Some((y.val().0).1) }) }
    else { with(x, AmountWithTolerance { amount: x.val(), tolerance: None }) }
""",use="expr_quiet, currency_quiet, amount_quiet, only_currency, decimal_quiet",proof="reveal(amount_g);")
T('''/// n # m, n # or n, # m: per unit and in total
spec fn per_unit_g<'s>(i: In<'s>, a: int, st: St) -> Res<ExprValue> { let x = skip(expr_value_g(i, a, st), i, tok_s(Token::Hash)); or_else(x, i, a, expr_value_s()) }
spec fn total_g<'s>(i: In<'s>, a: int, st: St) -> Res<ExprValue> { last(token_g(Token::Hash, i, a, st), i, expr_value_s()) }''')
G("compound_expr","CompoundExprValue","""
    let x = then(skip(expr_value_g(i, a, st), i, tok_s(Token::Hash)), i, expr_value_s());
    let y = per_unit_g(i, a, st);
    let z = total_g(i, a, st);
    if at(i, a, |t: Token<'s>| t is Hash) { with(z, CompoundExprValue::Total(z.val())) } else if x.ok() { with(x, CompoundExprValue::PerUnitAndTotal(x.val().0, x.val().1)) } else { with(y, CompoundExprValue::PerUnit(y.val())) }
""",tags="C12, C20",use="only_expr_value, expr_quiet")
G("scoped_expr","ScopedExprValue","""
    let y = per_unit_g(i, a, st);
    let z = total_g(i, a, st);
    if at(i, a, |t: Token<'s>| t is Hash) { with(z, ScopedExprValue::Total(z.val())) } else { with(y, ScopedExprValue::PerUnit(y.val())) }
""",use="only_expr_value, expr_quiet")
N("compound_expr",AT("Number","Lparen","Minus","Plus","Hash"),use="only_expr_value")
T("broadcast proof fn compound_expr_total<'s>(i: In<'s>, a: int, st: St) ensures at(i, a, |t: Token<'s>| t is Hash) && at(i, a + 1, |t: Token<'s>| t is Currency) ==> #[trigger] compound_expr_g(i, a, st) == fails::<CompoundExprValue>(st) { broadcast use only_expr_value; reveal(compound_expr_g); }")
T("broadcast proof fn compound_expr_quiet<'s>(i: In<'s>, a: int, st: St) ensures (#[trigger] compound_expr_g(i, a, st)).st == st { broadcast use {expr_quiet}; reveal(compound_expr_g); }")
G("compound_amount","CompoundAmount<'s>","""
    let x = then(compound_expr_g(i, a, st), i, currency_s());
    let y = compound_expr_g(i, a, st);
    let z = last(opt(token_g(Token::Hash, i, a, st), a), i, currency_s());
    if at(i, a, |t: Token<'s>| t is Currency) || at(i, a, |t: Token<'s>| t is Hash) && at(i, a + 1, |t: Token<'s>| t is Currency) { with(z, CompoundAmount::BareCurrency(z.val())) }
    else if x.ok() { with(x, CompoundAmount::CurrencyAmount(x.val().0, x.val().1)) } else { with(y, CompoundAmount::BareAmount(y.val())) }
""",tags="C12, C20",use="only_expr_value, expr_quiet, compound_expr_quiet, only_compound_expr, compound_expr_total, currency_quiet, only_currency")
N("compound_amount",AT("Number","Lparen","Minus","Plus","Hash","Currency"),use="only_compound_expr, only_currency")
G("cost_comp","CostComp<'s>","""
    let w = compound_amount_g(i, a, st);
    let x = date_g(i, a, st);
    let y = string_g(i, a, st);
    if at(i, a, |t: Token<'s>| t is Date) { with(x, CostComp::Date(x.val())) } else if at(i, a, |t: Token<'s>| t is StringLiteral) { with(y, CostComp::Label(y.val())) }
    else if at(i, a, |t: Token<'s>| t is Asterisk) { yields(CostComp::Merge, a + 1, st) } else { with(w, CostComp::CompoundAmount(w.val())) }
""",tags="C12, C20",use="only_compound_amount, only_date, only_string")
T('''/// C12: what the components of a cost give, unless one is given twice (unit costspec)
uninterp spec fn cost_of<'a>(c: Option<(Spanned<CostComp<'a>>, Vec<Spanned<CostComp<'a>>>)>) -> Option<CostSpec<'a>>;
#[verifier::external_body]
fn cost_spec_of<'a>(p0: Option<(Spanned<CostComp<'a>>, Vec<Spanned<CostComp<'a>>>)>, p1: Span_) -> (r: Result<CostSpec<'a>, ParserError<'a>>) ensures r is Ok == cost_of(p0) is Some, r is Ok ==> r->Ok_0 == cost_of(p0)->0 { unimplemented!() }
spec fn after_comma_s<'s, A>(p: Sem<'s, A>) -> Sem<'s, A> { |i: In<'s>, a: int, st: St| last(token_g(Token::Comma, i, a, st), i, p) }
/// p, then p after a comma as often as it succeeds
spec fn list_s<'s, A>(p: Sem<'s, A>) -> Sem<'s, (A, Vec<A>)> { |i: In<'s>, a: int, st: St| then(p(i, a, st), i, |i: In<'s>, a: int, st: St| many_of::<A, Vec<A>>(after_comma_s(p), i, a, st)) }
''')
G("cost_spec","CostSpec<'s>","""
    let x = skip(last(token_g(Token::Lcurl, i, a, st), i, opt_s(list_s(sp_s(cost_comp_s())))), i, tok_s(Token::Rcurl));
    if x.ok() && cost_of(x.val()) is Some { with(x, cost_of(x.val())->0) } else { fails(x.st) }
""",tags="C12, C20",contract=[("try_map#0","cost_spec_of")],sub=[(".repeated()",".known_as(Ghost(after_comma_s(sp_s(cost_comp_s())))).repeated()")])
T('''#[verifier::external_body]
fn price_annotation_assemble<'s>(p0: (bool, Option<ExprValue>, Option<Currency<'s>>), p1: Span_) -> (r: Result<PriceSpec<'s>, ParserError<'s>>) ensures r == Ok::<PriceSpec<'s>, ParserError<'s>>(annotated(p0.0, p0.1, p0.2)) { unimplemented!() }''')
G("price_annotation","PriceSpec<'s>","""
    let x = with(token_g(Token::At, i, a, st), false);
    let y = or_else(x, i, a, |i: In<'s>, a: int, st: St| with(token_g(Token::AtAt, i, a, st), true));
    let z = then(then(y, i, opt_s(expr_value_s())), i, opt_s(currency_s()));
    with(z, annotated((z.val().0).0, (z.val().0).1, z.val().1))
""",contract=[("try_map#0","price_annotation_assemble")],dropfn="scope")

T('''// ---------------------------------------------------------------- tags, links, metadata
/// gathering, by the contracts proved in unit assembly
uninterp spec fn tags_links_of<'a>(s: Seq<TagLink<'a>>) -> ((HashSet<Spanned<Tag<'a>>>, HashSet<Spanned<Link<'a>>>), int);
broadcast axiom fn tags_links_gathered<'a>(s: Seq<TagLink<'a>>) ensures gathered_tags_links(s, (#[trigger] tags_links_of(s)).0, tags_links_of(s).1);
struct TagsLinksMade {}
impl<'s> Checks<Vec<TagLink<'s>>, TagsLinks<'s>> for TagsLinksMade { spec fn made(self, x: Vec<TagLink<'s>>) -> (TagsLinks<'s>, int) { tags_links_of(x@) } }
uninterp spec fn currencies_of<'a>(first: Spanned<Currency<'a>>, s: Seq<Spanned<Currency<'a>>>) -> (HashSet<Spanned<Currency<'a>>>, int);
broadcast axiom fn currencies_gathered<'a>(first: Spanned<Currency<'a>>, s: Seq<Spanned<Currency<'a>>>) ensures gathered_currencies(first, s, (#[trigger] currencies_of(first, s)).0, currencies_of(first, s).1);
struct CurrenciesMade {}
impl<'s> Checks<(Spanned<Currency<'s>>, Vec<Spanned<Currency<'s>>>), HashSet<Spanned<Currency<'s>>>> for CurrenciesMade { spec fn made(self, x: (Spanned<Currency<'s>>, Vec<Spanned<Currency<'s>>>)) -> (HashSet<Spanned<Currency<'s>>>, int) { currencies_of(x.0, x.1@) } }
uninterp spec fn metadata_of<'a>(s: Seq<Metadatum<'a>>) -> (Metadata<'a>, int);
broadcast axiom fn metadata_gathered<'a>(s: Seq<Metadatum<'a>>) ensures gathered_metadata(s, (#[trigger] metadata_of(s)).0, metadata_of(s).1);
struct MetadataMade {}
impl<'s> Checks<Vec<Metadatum<'s>>, Metadata<'s>> for MetadataMade { spec fn made(self, x: Vec<Metadatum<'s>>) -> (Metadata<'s>, int) { metadata_of(x@) } }
type TagsLinks<'a> = (HashSet<Spanned<Tag<'a>>>, HashSet<Spanned<Link<'a>>>);
uninterp spec fn empty_set<T>() -> HashSet<T>;
broadcast axiom fn empty_set_view<T: Content>() ensures (#[trigger] empty_set::<T>())@ == Map::<T::C, T>::empty();
#[verifier::external_body]
fn currency_list_default<'s>(p0: Option<HashSet<Spanned<Currency<'s>>>>) -> (r: HashSet<Spanned<Currency<'s>>>) ensures r == (if p0 is Some { p0->0 } else { empty_set() }) { unimplemented!() }
spec fn tag_or_link_s<'s>() -> Sem<'s, TagLink<'s>> { |i: In<'s>, a: int, st: St| {
    let x = sp_s(tag_s())(i, a, st);
    let y = sp_s(link_s())(i, a, st);
    if at(i, a, |t: Token<'s>| t is Tag) { with(x, TagLink::Left(x.val())) } else { with(y, TagLink::Right(y.val())) } } }''')
G("tags_links","TagsLinks<'s>","checked(TagsLinksMade {}, many_of::<_, Vec<TagLink<'s>>>(tag_or_link_s(), i, a, st))",tags="C13, C20",extra="@start\n    broadcast use {only_tag, only_link};",contract=[("validate#0","TagsLinksMade {}")],sub=[(".repeated()",".known_as(Ghost(tag_or_link_s())).repeated()"),("Either::Left","TagLink::Left"),("Either::Right","TagLink::Right")])
G("currency_list","HashSet<Spanned<Currency<'s>>>","""
    let x = opt(checked(CurrenciesMade {}, list_s(sp_s(currency_s()))(i, a, st)), a);
    with(x, if x.val() is Some { x.val()->0 } else { empty_set() })
""",tags="C13, C20",contract=[("validate#0","CurrenciesMade {}"),("map#0","currency_list_default")],sub=[(".repeated()",".known_as(Ghost(after_comma_s(sp_s(currency_s())))).repeated()")])
VALUES=[('string', 'String', ['StringLiteral']), ('currency', 'Currency', ['Currency']), ('account', 'Account', ['Account']), ('tag', 'Tag', ['Tag']), ('link', 'Link', ['Link']), ('date', 'Date', ['Date']), ('bool', 'Bool', ['True', 'False'])]
G("simple_value","SimpleValue<'s>","\n"+"".join(f"    if {AT(*k)} {{ let x = {n}_g(i, a, st); with(x, SimpleValue::{V}(x.val())) }} else\n" for n,V,k in VALUES)+"""    if {N} {{ yields(SimpleValue::Null, a + 1, st) }} else
    {{ let x = expr_value_g(i, a, st); with(x, SimpleValue::Expr(x.val())) }}
""".replace("{N}",AT("Null")).replace("{{","{").replace("}}","}"),use="only_string, only_currency, only_account, only_tag, only_link, only_date, only_bool, only_expr_value")
G("meta_value","MetaValue<'s>","""
    let x = amount_g(i, a, st);
    let y = simple_value_g(i, a, x.st);
    if x.ok() { with(x, MetaValue::Amount(x.val())) } else { with(y, MetaValue::Simple(y.val())) }
""")
T('''spec fn or_null<'a>(v: Option<MetaValue<'a>>) -> MetaValue<'a> { if v is Some { v->0 } else { MetaValue::Simple(SimpleValue::Null) } }
#[verifier::external_body]
fn meta_key_value_assemble<'s>(p0: (Spanned<Key<'s>>, Spanned<Option<MetaValue<'s>>>)) -> (r: MetaKeyValue<'s>) ensures r == (MetaKeyValue { key: p0.0, value: Spanned { item: or_null(p0.1.item), span: p0.1.span } }) { unimplemented!() }''')
G("meta_key_value","MetaKeyValue<'s>","""
    let x = then(skip(sp_s(key_s())(i, a, st), i, tok_s(Token::Colon)), i, sp_s(opt_s(meta_value_s())));
    with(x, MetaKeyValue { key: x.val().0, value: Spanned { item: or_null(x.val().1.item), span: x.val().1.span } })
""",contract=[("map#0","meta_key_value_assemble")])
N("meta_key_value",AT("Key"),"key_g")
G("metadatum_line","Metadatum<'s>","""
    let h = token_g(Token::Indent, i, a, st);
    let x = sp_s(meta_key_value_s())(i, a + 1, h.st);
    let y = sp_s(tag_s())(i, a + 1, h.st);
    let z = sp_s(link_s())(i, a + 1, h.st);
    let m = if at(i, a + 1, |t: Token<'s>| t is Key) { with(x, Metadatum::KeyValue(x.val())) } else if at(i, a + 1, |t: Token<'s>| t is Tag) { with(y, Metadatum::Tag(y.val())) } else { with(z, Metadatum::Link(z.val())) };
    if h.ok() { skip(m, i, eol_s()) } else { fails(h.st) }
""",use="only_meta_key_value, only_tag, only_link")
G("metadata","Metadata<'s>","checked(MetadataMade {}, many_of::<_, Vec<Metadatum<'s>>>(metadatum_line_s(), i, a, st))",tags="C13, C20",contract=[("validate#0","MetadataMade {}")])
T('''// ---------------------------------------------------------------- directives
#[verifier::external_body]
fn posting_cost_spec<'s>(p0: Option<CostSpec<'s>>, p1: MapExtra) -> (r: Option<Spanned<CostSpec<'s>>>) ensures r == some_spanned(p0, p1.at@) { unimplemented!() }
#[verifier::external_body]
fn posting_price_spec<'s>(p0: Option<PriceSpec<'s>>, p1: MapExtra) -> (r: Option<Spanned<PriceSpec<'s>>>) ensures r == some_spanned(p0, p1.at@) { unimplemented!() }
spec fn some_spanned<T>(o: Option<T>, span: Span) -> Option<Spanned<T>> { if o is Some { Some(Spanned { item: o->0, span }) } else { None } }
#[verifier::external_body]
fn payee_narration_nonempty<'s>(p0: (Option<Spanned<&'s str>>, Option<Spanned<&'s str>>)) -> (r: (Option<Spanned<&'s str>>, Option<Spanned<&'s str>>)) ensures r == (nonempty(p0.0), nonempty(p0.1)) { unimplemented!() }
''')
T('''type PostingFields<'s> = (Option<Spanned<Flag>>, Spanned<Account<'s>>, Option<Spanned<ExprValue>>, Option<Spanned<Currency<'s>>>, Option<Spanned<CostSpec<'s>>>, Option<Spanned<PriceSpec<'s>>>);
/// the parts of a posting, in this order
#[verifier::opaque] spec fn posting_fields_g<'s>(i: In<'s>, a: int, st: St) -> Res<PostingFields<'s>> {
    let x1 = opt_s(sp_s(flag_s()))(i, a, st);
    let x2 = sp_s(account_s())(i, x1.end(), x1.st);
    let x3 = opt_s(sp_s(expr_value_s()))(i, x2.end(), x2.st);
    let x4 = opt_s(sp_s(currency_s()))(i, x3.end(), x3.st);
    let x5 = opt_s(sp_s(cost_spec_s()))(i, x4.end(), x4.st);
    let x6 = opt_s(sp_s(price_annotation_s()))(i, x5.end(), x5.st);
    if !x2.ok() { fails(x2.st) }
    else { Res { out: Some(((x1.val(), x2.val(), x3.val(), x4.val(), x5.val(), x6.val()), x6.end())), st: x6.st, errs: x1.errs + x2.errs + x3.errs + x4.errs + x5.errs + x6.errs } }
}
spec fn posting_fields_s<'s>() -> Sem<'s, PostingFields<'s>> { |i: In<'s>, a: int, st: St| posting_fields_g(i, a, st) }
''')
G("posting","Spanned<Posting<'s>>","""
    let h = token_g(Token::Indent, i, a, st);
    let b = h.end();
    let x = posting_fields_g(i, b, h.st);
    let y = skip(x, i, eol_s());
    let z = then(y, i, sp_s(metadata_s()));
    let (flag, account, amount, currency, cost_spec, price_annotation) = z.val().0;
    if h.ok() { with(z, Spanned { item: Posting { flag, account, amount, currency, cost_spec, price_annotation, metadata: z.val().1 }, span: span_of(i, b, x.end()) }) } else { fails(h.st) }
""",contract=[("map_with#0","posting_cost_spec"),("map_with#1","posting_price_spec")],sub=[(".map_with(spanned_extra).then_ignore",".known_as(Ghost(posting_fields_s())).map_with(spanned_extra).then_ignore")],extra="@start\n    proof { reveal(posting_fields_g); }")
T('''/// putting a directive together, by the contract proved in unit assembly
uninterp spec fn directive_made<'a>(date: Spanned<Date>, variant: DirectiveVariant<'a>, m: Spanned<Metadata<'a>>, first: TagsLinks<'a>) -> (Directive<'a>, int);
broadcast axiom fn directive_assembled<'a>(date: Spanned<Date>, variant: DirectiveVariant<'a>, m: Spanned<Metadata<'a>>, first: TagsLinks<'a>)
    ensures assembled(date, variant, m, first, (#[trigger] directive_made(date, variant, m, first)).0, directive_made(date, variant, m, first).1);
spec fn directive_of<'a, A>(x: Res<((A, TagsLinks<'a>), Spanned<Metadata<'a>>)>, date: Spanned<Date>, variant: DirectiveVariant<'a>) -> Res<Directive<'a>> {
    if x.ok() { let m = directive_made(date, variant, x.val().1, (x.val().0).1); Res { out: Some((m.0, x.end())), st: x.st, errs: x.errs + m.1 } } else { fails(x.st) }
}
/// a date and a keyword
spec fn dated_g<'s>(keyword: Token<'s>, i: In<'s>, a: int, st: St) -> Res<Spanned<Date>> { skip(sp_s(date_s())(i, a, st), i, tok_s(keyword)) }
/// x, then tags and links to the end of the line, then metadata lines
spec fn rest_g<'s, A>(x: Res<A>, i: In<'s>) -> Res<((A, TagsLinks<'s>), Spanned<Metadata<'s>>)> { then(skip(then(x, i, tags_links_s()), i, eol_s()), i, sp_s(metadata_s())) }
''')
# directive: (fn, variant, fields [(field, type, sem)])
S="Spanned<&'s str>"; A="Spanned<Account<'s>>"; C="Spanned<Currency<'s>>"
DIRS=[("price","Price",[("currency",C,"currency"),("amount","Spanned<Amount<'s>>","amount")]),
 ("balance","Balance",[("account",A,"account"),("atol","Spanned<AmountWithTolerance<'s>>","amount_with_tolerance")]),
 ("close","Close",[("account",A,"account")]),
 ("commodity","Commodity",[("currency",C,"currency")]),
 ("pad","Pad",[("account",A,"account"),("source",A,"account")]),
 ("document","Document",[("account",A,"account"),("path",S,"string")]),
 ("note","Note",[("account",A,"account"),("comment",S,"string")]),
 ("event","Event",[("event_type",S,"string"),("description",S,"string")]),
 ("query","Query",[("name",S,"string"),("content",S,"string")])]
for fn,V,fl in DIRS:
    head="(Spanned<Date>, Token<'s>, "+", ".join(t for _,t,_ in fl)+", TagsLinks<'s>)"
    ty=f"({head}, Spanned<Metadata<'s>>)"
    T(f"struct {V}Made {{}}")
    T(f"impl<'s> Checks<{ty}, Directive<'s>> for {V}Made {{ spec fn made(self, x: {ty}) -> (Directive<'s>, int) {{ directive_made((x.0).0, DirectiveVariant::{V}({V} {{ {', '.join(f'{f}: (x.0).{k+2}' for k,(f,_,_) in enumerate(fl))} }}), x.1, (x.0).{len(fl)+2}) }} }}")
    b=f"dated_g(Token::{V}, i, a, st)"
    for f,_,s in fl: b=f"then({b}, i, sp_s({s}_s()))"
    if len(fl)==1: date="v.0"; vals=["v.1"]
    else: date="(v.0).0"; vals=["(v.0).1","v.1"]
    G(fn,"Directive<'s>",f"""
    let x = rest_g({b}, i);
    let v = (x.val().0).0;
    directive_of(x, {date}, DirectiveVariant::{V}({V} {{ {', '.join(f'{f}: {v}' for (f,_,_),v in zip(fl,vals))} }}))
""",tags="C20",contract=[("validate#0",f"{V}Made {{}}")])
T('''type OpenHeaderLine<'s> = (Spanned<Date>, Spanned<Account<'s>>, HashSet<Spanned<Currency<'s>>>, Option<Spanned<Booking>>, TagsLinks<'s>);
struct OpenMade {}
impl<'s> Checks<(OpenHeaderLine<'s>, Spanned<Metadata<'s>>), Directive<'s>> for OpenMade { spec fn made(self, x: (OpenHeaderLine<'s>, Spanned<Metadata<'s>>)) -> (Directive<'s>, int) {
    directive_made((x.0).0, DirectiveVariant::Open(Open { account: (x.0).1, currencies: (x.0).2, booking: (x.0).3 }), x.1, (x.0).4) } }
''')
G("open_header_line","OpenHeaderLine<'s>","""
    let x = skip(then(then(then(then(dated_g(Token::Open, i, a, st), i, sp_s(account_s())), i, currency_list_s()), i, opt_s(sp_s(booking_s()))), i, tags_links_s()), i, eol_s());
    let v = x.val();
    with(x, ((((v.0).0).0).0, (((v.0).0).0).1, ((v.0).0).1, (v.0).1, v.1))
""")
G("open","Directive<'s>","checked(OpenMade {}, then(open_header_line_g(i, a, st), i, sp_s(metadata_s())))",tags="C20",contract=[("validate#0","OpenMade {}")],asname="open_directive")
G("custom","Directive<'s>","""
    let x = then(skip(then(then(dated_g(Token::Custom, i, a, st), i, sp_s(string_s())), i, |i: In<'s>, a: int, st: St| many_of::<_, Vec<Spanned<MetaValue<'s>>>>(sp_s(meta_value_s()), i, a, st)), i, eol_s()), i, sp_s(metadata_s()));
    let v = x.val().0;
    with(x, Directive { date: (v.0).0, metadata: x.val().1, variant: DirectiveVariant::Custom(Custom { type_: (v.0).1, values: v.1 }) })
""",sub=[(".repeated()",".known_as(Ghost(sp_s(meta_value_s()))).repeated()")])
T('''type TransactionHeaderLine<'s> = (Spanned<Date>, Spanned<Flag>, (Option<Spanned<&'s str>>, Option<Spanned<&'s str>>), TagsLinks<'s>);
struct TransactionMade {}
impl<'s> Checks<(TransactionHeaderLine<'s>, Spanned<Metadata<'s>>, Vec<Spanned<Posting<'s>>>), Directive<'s>> for TransactionMade {
    spec fn made(self, x: (TransactionHeaderLine<'s>, Spanned<Metadata<'s>>, Vec<Spanned<Posting<'s>>>)) -> (Directive<'s>, int) {
        directive_made((x.0).0, DirectiveVariant::Transaction(Transaction { flag: (x.0).1, payee: ((x.0).2).0, narration: ((x.0).2).1, postings: x.2 }), x.1, (x.0).3) } }
/// one string is the narration, of two the first is the payee; an empty one is none
spec fn payee_of<'s>(s1: Option<Spanned<&'s str>>, s2: Option<Spanned<&'s str>>) -> Option<Spanned<&'s str>> { if s2 is None { None } else { nonempty(s1) } }
spec fn narration_of<'s>(s1: Option<Spanned<&'s str>>, s2: Option<Spanned<&'s str>>) -> Option<Spanned<&'s str>> { if s2 is None { nonempty(s1) } else { nonempty(s2) } }
''')
G("transaction_header_line","TransactionHeaderLine<'s>","""
    let x = skip(then(then(then(then(sp_s(date_s())(i, a, st), i, sp_s(txn_s())), i, opt_s(sp_s(string_s()))), i, opt_s(sp_s(string_s()))), i, tags_links_s()), i, eol_s());
    let v = x.val();
    let s1 = ((v.0).0).1;
    let s2 = (v.0).1;
    with(x, ((((v.0).0).0).0, (((v.0).0).0).1, (payee_of(s1, s2), narration_of(s1, s2)), v.1))
""",contract=[("map#1","payee_narration_nonempty")])
G("transaction","Directive<'s>","""
    let x = then(then(transaction_header_line_g(i, a, st), i, sp_s(metadata_s())), i, |i: In<'s>, a: int, st: St| many_of::<_, Vec<Spanned<Posting<'s>>>>(posting_s(), i, a, st));
    checked(TransactionMade {}, with(x, ((x.val().0).0, (x.val().0).1, x.val().1)))
""",tags="C20",contract=[("validate#0","TransactionMade {}")])
KW=[("price","Price"),("balance","Balance"),("open_directive","Open"),("close","Close"),("commodity","Commodity"),("pad","Pad"),("document","Document"),("note","Note"),("event","Event"),("query","Query"),("custom","Custom")]
for n,V in KW: N(n,AT("Date")+" && "+AT(V,off=1),"date_g",*(["open_header_line_g"] if V=="Open" else []))
N("transaction",AT("Date")+" && "+AT("Txn","DedicatedFlag","Asterisk","Hash",off=1),"transaction_header_line_g","date_g","txn_g","flag_g")
T("/// C20: the keyword decides which directive it is")
G("directive","Directive<'s>","\n    if "+"\n    else if ".join(f"{AT(V,off=1)} {{ {n}_g(i, a, st) }}" for n,V in KW)+"\n    else { transaction_g(i, a, st) }\n",sub=[("open()","open_directive()")],use=", ".join("only_"+n for n,_ in KW)+", only_transaction")
N("directive",AT("Date"),*(n+"_g" for n,_ in KW),"transaction_g","open_header_line_g","transaction_header_line_g","date_g")
T('''// ---------------------------------------------------------------- pragmas
/// C08: an option processed, or an error and the option which is ignored (units options and names)
uninterp spec fn option_of<'s>(name: Spanned<&'s str>, value: Spanned<&'s str>, path: Option<&'s Path>, st: St) -> (BeancountOption<'s>, int, St);
struct OptionNoted<'s> { path: Option<&'s Path> }
impl<'s> Notes<(Spanned<&'s str>, Spanned<&'s str>), BeancountOption<'s>> for OptionNoted<'s> { spec fn noted(self, x: (Spanned<&'s str>, Spanned<&'s str>), span: Span, st: St) -> (BeancountOption<'s>, int, St) { option_of(x.0, x.1, self.path, st) } }
#[verifier::opaque] spec fn option_g<'s>(path: Option<&'s Path>, i: In<'s>, a: int, st: St) -> Res<BeancountOption<'s>> {
    noted_with(OptionNoted { path }, i, a, then(last(token_g(Token::Option, i, a, st), i, sp_s(string_s())), i, sp_s(string_s())))
}
spec fn option_s<'s>(path: Option<&'s Path>) -> Sem<'s, BeancountOption<'s>> { |i: In<'s>, a: int, st: St| option_g(path, i, a, st) }
@@fn src/parsers.rs option
@sig
fn option<'s>(source_path: Option<&'s Path>) -> (p: P<'s, BeancountOption<'s>>)
@pure
@contract validate#0
OptionNoted { path: source_path }
@subst .validate(OptionNoted { path: source_path }) =>> .noting(OptionNoted { path: source_path })
@spec
    ensures p.sem() == option_s(source_path), // [C08]
@wrapend
    proof { reveal(option_g); assert forall|i: In<'s>, a: int, st: St| #[trigger] r_.run(i, a, st) == option_g(source_path, i, a, st) by {} same(r_, option_s(source_path)); } // [C08]
@@end
#[verifier::opaque] spec fn pragma_g<'s>(path: Option<&'s Path>, i: In<'s>, a: int, st: St) -> Res<Pragma<'s>> {
    let x1 = last(token_g(Token::Pushtag, i, a, st), i, tag_s());
    let x2 = last(token_g(Token::Poptag, i, a, st), i, tag_s());
    let x3 = last(token_g(Token::Pushmeta, i, a, st), i, meta_key_value_s());
    let x4 = skip(last(token_g(Token::Popmeta, i, a, st), i, key_s()), i, tok_s(Token::Colon));
    let x5 = last(token_g(Token::Include, i, a, st), i, sp_s(string_s()));
    let x6 = option_g(path, i, a, st);
    let x7 = then(last(token_g(Token::Plugin, i, a, st), i, sp_s(string_s())), i, opt_s(sp_s(string_s())));
    let x = if at(i, a, |t: Token<'s>| t is Pushtag) { with(x1, Pragma::Pushtag(Spanned { item: x1.val(), span: span_of(i, a, x1.end()) })) }
        else if at(i, a, |t: Token<'s>| t is Poptag) { with(x2, Pragma::Poptag(Spanned { item: x2.val(), span: span_of(i, a, x2.end()) })) }
        else if at(i, a, |t: Token<'s>| t is Pushmeta) { with(x3, Pragma::Pushmeta(x3.val())) }
        else if at(i, a, |t: Token<'s>| t is Popmeta) { with(x4, Pragma::Popmeta(Spanned { item: x4.val(), span: span_of(i, a, x4.end()) })) }
        else if at(i, a, |t: Token<'s>| t is Include) { with(x5, Pragma::Include(x5.val())) }
        else if at(i, a, |t: Token<'s>| t is Option) { with(x6, Pragma::Option(x6.val())) }
        else { with(x7, Pragma::Plugin(Plugin { module_name: x7.val().0, config: x7.val().1 })) };
    skip(x, i, eol_s())
}
spec fn pragma_s<'s>(path: Option<&'s Path>) -> Sem<'s, Pragma<'s>> { |i: In<'s>, a: int, st: St| pragma_g(path, i, a, st) }
@@fn src/parsers.rs pragma
@sig
fn pragma<'s>(source_path: Option<&'s Path>) -> (p: P<'s, Pragma<'s>>)
@pure
@spec
    ensures p.sem() == pragma_s(source_path),
@wrapend
    proof {
        reveal(option_g); reveal(pragma_g);
        assert forall|i: In<'s>, a: int, st: St| #[trigger] r_.run(i, a, st) == pragma_g(source_path, i, a, st) by {
            if at(i, a, |t: Token<'s>| t is Pushtag || t is Poptag) {
                assert(r_.run(i, a, st) == pragma_g(source_path, i, a, st)); // [C06]
            } else
            if at(i, a, |t: Token<'s>| t is Pushmeta || t is Popmeta) {
                assert(r_.run(i, a, st) == pragma_g(source_path, i, a, st)); // [C07]
            } else
            if at(i, a, |t: Token<'s>| t is Include) {
                assert(r_.run(i, a, st) == pragma_g(source_path, i, a, st)); // [C17]
            } else
            if at(i, a, |t: Token<'s>| t is Option) {
                assert(r_.run(i, a, st) == pragma_g(source_path, i, a, st)); // [C08]
            } else
            {
                assert(r_.run(i, a, st) == pragma_g(source_path, i, a, st)); // [C16]
            }
        }
        same(r_, pragma_s(source_path));
    }
@@end

// ---------------------------------------------------------------- files
broadcast proof fn only_pragma<'s>(path: Option<&'s Path>, i: In<'s>, a: int, st: St)
    requires !at(i, a, |t: Token<'s>| t is Pushtag || t is Poptag || t is Pushmeta || t is Popmeta || t is Include || t is Option || t is Plugin),
    ensures #[trigger] pragma_g(path, i, a, st) == fails::<Pragma<'s>>(st),
{ reveal(pragma_g); reveal(option_g); }
#[verifier::opaque] spec fn any_declaration_g<'s>(path: Option<&'s Path>, i: In<'s>, a: int, st: St) -> Res<Spanned<Declaration<'s>>> {
    let x = directive_g(i, a, st);
    let y = pragma_g(path, i, a, st);
    let d = if at(i, a, |t: Token<'s>| t is Date) { with(x, Declaration::Directive(x.val())) } else { with(y, Declaration::Pragma(y.val())) };
    with_span(d, i, a)
}
spec fn any_declaration_s<'s>(path: Option<&'s Path>) -> Sem<'s, Spanned<Declaration<'s>>> { |i: In<'s>, a: int, st: St| any_declaration_g(path, i, a, st) }
#[verifier::opaque] spec fn declaration_g<'s>(path: Option<&'s Path>, i: In<'s>, a: int, st: St) -> Res<Spanned<Declaration<'s>>> {
    let x = any_declaration_g(path, i, a, st);
    alt(x, retry(any_declaration_s(path), i, a, x.st))
}
spec fn declaration_s<'s>(path: Option<&'s Path>) -> Sem<'s, Spanned<Declaration<'s>>> { |i: In<'s>, a: int, st: St| declaration_g(path, i, a, st) }
@@fn src/parsers.rs declaration
@sig
fn declaration<'s>(source_path: Option<&'s Path>) -> (p: P<'s, Spanned<Declaration<'s>>>)
@pure
@start
    broadcast use {only_directive, only_pragma};
    proof { reveal(any_declaration_g); }
@subst .recover_with =>> .known_as(Ghost(any_declaration_s(source_path))).recover_with
@spec
    ensures p.sem() == declaration_s(source_path), // [C16]
@wrapend
    proof { reveal(declaration_g); assert forall|i: In<'s>, a: int, st: St| #[trigger] r_.run(i, a, st) == declaration_g(source_path, i, a, st) by {} same(r_, declaration_s(source_path)); } // [C16]
@@end
spec fn file_s<'s>(path: Option<&'s Path>) -> Sem<'s, Vec<Spanned<Declaration<'s>>>> { |i: In<'s>, a: int, st: St| many_of::<_, Vec<Spanned<Declaration<'s>>>>(declaration_s(path), i, a, st) }
@@fn src/parsers.rs file
@sig
fn file<'s>(source_path: Option<&'s Path>) -> (p: P<'s, Vec<Spanned<Declaration<'s>>>>)
@spec
    ensures p.sem() == file_s(source_path), // [C01] [C16]
@wrapend
    proof { assert forall|i: In<'s>, a: int, st: St| #[trigger] r_.run(i, a, st) == file_s(source_path)(i, a, st) by {} same(r_, file_s(source_path)); } // [C01] [C16]
@@end
''')

T('''
// ---------------------------------------------------------------- includes
/// C17: the texts which follow the keyword include, in order; nothing else in the file matters
spec fn included<'s>(i: In<'s>, a: int) -> Seq<Seq<char>> decreases i.len() - a {
    if a >= i.len() || a < 0 { seq![] }
    else if i[a].0 is Include && at(i, a + 1, |t: Token<'s>| t is StringLiteral) { seq![text_of(i[a + 1].0->StringLiteral_0)@] + included(i, a + 2) }
    else { included(i, a + 1) }
}
spec fn include_or_any_s<'s>() -> Sem<'s, Option<&'s str>> { |i: In<'s>, a: int, st: St| {
    let x = last(token_g(Token::Include, i, a, st), i, string_s());
    let y = any_g(i, a, x.st);
    if x.ok() { with(x, Some(x.val())) } else { with(y, None) } } }
spec fn texts<'a>(s: Seq<Option<&'a str>>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![] } else if s[0] is Some { seq![(s[0]->0)@] + texts(s.drop_first()) } else { texts(s.drop_first()) }
}
proof fn included_many<'s>(i: In<'s>, a: int, st: St)
    requires 0 <= a <= i.len(),
    ensures ({ let x = many(include_or_any_s(), i, a, st); x.ok() && x.end() == i.len() && texts(x.val()) == included(i, a) }),
    decreases i.len() - a,
{
    reveal(string_g);
    let x = include_or_any_s()(i, a, st);
    if a < i.len() {
        included_many(i, x.end(), x.st);
        let y = many(include_or_any_s(), i, x.end(), x.st);
        assert((seq![x.val()] + y.val()).drop_first() =~= y.val());
    }
}
spec fn strings(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
// Vec::into_iter, filter_map and collect
struct Items<A> { v: Vec<A> }
fn into_items<A>(v: Vec<A>) -> (r: Items<A>) ensures r.v@ == v@ { Items { v } }
spec fn somes<B>(s: Seq<Option<B>>) -> Seq<B> decreases s.len() { if s.len() == 0 { seq![] } else if s[0] is Some { seq![s[0]->0] + somes(s.drop_first()) } else { somes(s.drop_first()) } }
spec fn applied_to_all<A, B, F: Fn(A) -> Option<B>>(f: F, s: Seq<A>, o: Seq<Option<B>>) -> bool { o.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> f.ensures((s[k],), #[trigger] o[k]) }
impl<A> Items<A> {
    #[verifier::external_body]
    fn filter_map<B, F: Fn(A) -> Option<B>>(self, f: F) -> (r: Items<B>)
        requires forall|x: A| f.requires((x,)),
        ensures exists|o: Seq<Option<B>>| #[trigger] applied_to_all(f, self.v@, o) && r.v@ == somes(o),
    { unimplemented!() }
    fn collect<C: FromItems<A>>(self) -> (r: C) ensures r.from_items(self.v@) { C::make(self) }
}
trait FromItems<A>: Sized { spec fn from_items(self, s: Seq<A>) -> bool; fn make(i: Items<A>) -> (r: Self) ensures r.from_items(i.v@); }
impl<A> FromItems<A> for Vec<A> { spec fn from_items(self, s: Seq<A>) -> bool { self@ == s } fn make(i: Items<A>) -> (r: Self) { i.v } }
spec fn owned_of<'a>(s: Option<&'a str>, r: Option<String>) -> bool { r is Some == s is Some && (s is Some ==> (r->0)@ == (s->0)@) }
// s.as_ref().map(|s| s.to_string())
#[verifier::external_body]
fn owned<'a>(s: Option<&'a str>) -> (r: Option<String>) ensures owned_of(s, r) { unimplemented!() }
proof fn somes_texts<'a>(s: Seq<Option<&'a str>>, o: Seq<Option<String>>)
    requires s.len() == o.len(), forall|k: int| 0 <= k < s.len() ==> owned_of(s[k], #[trigger] o[k]),
    ensures strings(somes(o)) == texts(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(owned_of(s[0], o[0]));
        assert forall|k: int| 0 <= k < s.drop_first().len() implies owned_of(s.drop_first()[k], #[trigger] o.drop_first()[k]) by { assert(owned_of(s[k + 1], o[k + 1])); }
        somes_texts(s.drop_first(), o.drop_first());
        assert(strings(seq![o[0]->0] + somes(o.drop_first())) =~= seq![(o[0]->0)@] + strings(somes(o.drop_first())));
    } else { assert(strings(somes(o)) =~= texts(s)); }
}
@@closure src/parsers.rs includes map#1
@sig
fn include_texts<'a>(p0: Vec<Option<&'a str>>) -> (r: Vec<String>)
@spec
    ensures strings(r@) == texts(p0@), // [C17]
@subst? includes.into_iter() =>> into_items(includes)
@subst? s.as_ref().map(|s| s.to_string()) =>> owned(s)
@closure filter_map#0
|$p0: Option<&'a str>| -> (r: Option<String>) ensures owned_of($p0, r)
@wrapend
    proof {
        let o = choose|o: Seq<Option<String>>| o.len() == p0@.len() && (forall|k: int| 0 <= k < p0@.len() ==> owned_of(p0@[k], #[trigger] o[k])) && r_@ == somes(o);
        somes_texts(p0@, o);
    }
@@end
@@fn src/parsers.rs includes
@sig
fn includes<'s>() -> (p: P<'s, Vec<String>>)
@pure
@contract map#1
include_texts
@closure map#0
|x_: Token<'s>| -> (r: Option<&'s str>) ensures r is None { $bind0(x_) $body }
@subst .repeated() =>> .known_as(Ghost(include_or_any_s())).repeated()
@spec
    ensures forall|i: In<'s>, st: St| (#[trigger] p.run(i, 0, st)).ok() && p.run(i, 0, st).end() == i.len() && strings(p.run(i, 0, st).val()@) == included(i, 0), // [C17]
@start
    broadcast use vec_of_view;
@wrapend
    proof { assert forall|i: In<'s>, st: St| (#[trigger] r_.run(i, 0, st)).ok() && r_.run(i, 0, st).end() == i.len() && strings(r_.run(i, 0, st).val()@) == included(i, 0) by { included_many(i, 0, st); } }
@@end
''')
