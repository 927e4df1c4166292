// ---------------------------------------------------------------- tokens (extracted), over opaque payload types
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Date { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Time { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Decimal { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Flag { x: u8 }
#[verifier::external_body] pub struct LexerError { x: u8 }
#[verifier::external_body] pub struct CowStr<'a> { x: &'a str }

@@item src/lexer.rs Token
@subst Cow<'a, str> =>> CowStr<'a>
@@end

// assumed: the derived equality of Token is equality of values
impl PartialEq for Token<'_> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Token<'_> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
@@item src/lexer.rs RangedToken;

spec fn eolish(t: Token) -> bool { t is EolThenIndent || t is Eol || t is EolComment }

impl Token<'_> {
@@fn src/lexer.rs Token::is_eol
@ret r
@spec
    ensures r == eolish(*self),
@@end
}

/// the contract of `next`: s before, t after, r returned
spec fn pops<T>(s: Seq<T>, r: Option<T>, t: Seq<T>) -> bool {
    match r {
        None => s.len() == 0 && t =~= s,
        Some(x) => s.len() > 0 && x == s[0] && t =~= s.drop_first(),
    }
}

/// What is assumed of an iterator: it yields the tokens of a fixed sequence in order, then none for ever.
/// What is proved of each adaptor: that it is such an iterator, of the sequence its `rem` defines.
trait Iterator {
    type Item;
    spec fn wf(&self) -> bool;
    spec fn rem(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            pops(old(self).rem(), r, final(self).rem());
}
