@@item src/lexer.rs RecoveryToken;
@@item src/lexer.rs RangedTokenOrError;

// ---------------------------------------------------------------- assumed: slicing of str, and the generated recovery lexer
uninterp spec fn blen(s: &str) -> nat;                                        // length in bytes
uninterp spec fn slice<'a>(s: &'a str, a: int, b: int) -> &'a str;             // the bytes from a to b
uninterp spec fn on_chars(s: &str, a: int, b: int) -> bool;                    // a <= b <= length, both on character boundaries
#[verifier::external_body]
proof fn slices(s: &str, a: int, b: int)
    requires on_chars(s, a, b),
    ensures 0 <= a <= b <= blen(s) <= usize::MAX, blen(slice(s, a, b)) == b - a,
{}
#[verifier::external_body]
fn str_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires on_chars(s, a as int, b as int),
    ensures r == slice(s, a as int, b as int),
{ &s[a..b] }

/// what the generated lexer makes of a text
uninterp spec fn relex(s: &str) -> Seq<(Result<RecoveryToken, LexerError>, Range<usize>)>;
mod logos {
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct SpannedIter<'a, T> { x: &'a T }
}
#[verifier::external_body]
struct Lexer<'a> { x: &'a str }
impl<'a> Lexer<'a> {
    uninterp spec fn text(&self) -> &'a str;
    #[verifier::external_body]
    fn spanned(self) -> (r: logos::SpannedIter<'a, RecoveryToken>)
        ensures r.wf(), r.rem() == relex(self.text()), bounded(r.rem(), blen(self.text())),
    { unimplemented!() }
}
impl RecoveryToken {
    #[verifier::external_body]
    fn lexer<'a>(s: &'a str) -> (r: Lexer<'a>)
        ensures r.text() == s,
    { unimplemented!() }
}
/// spans of the lexer lie within the text
spec fn bounded(s: Seq<(Result<RecoveryToken, LexerError>, Range<usize>)>, n: nat) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.start <= s[i].1.end <= n
}
impl<'a> Iterator for logos::SpannedIter<'a, RecoveryToken> {
    type Item = (Result<RecoveryToken, LexerError>, Range<usize>);
    uninterp spec fn wf(&self) -> bool;
    uninterp spec fn rem(&self) -> Seq<Self::Item>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Self::Item>) { unimplemented!() }
}

// ---------------------------------------------------------------- specification

spec fn full<'a>(t: RecoveryToken) -> Token<'a> {
    match t {
        RecoveryToken::Minus => Token::Minus, RecoveryToken::Slash => Token::Slash, RecoveryToken::Colon => Token::Colon,
        RecoveryToken::Date(d) => Token::Date(d), RecoveryToken::Number(n) => Token::Number(n),
    }
}
/// a token or error from re-lexing text which starts at `o`, in its true position
spec fn placed<'a>(x: (Result<RecoveryToken, LexerError>, Range<usize>), o: int) -> RangedToken<'a> {
    (match x.0 { Ok(t) => full(t), Err(e) => Token::Error(e) }, Range { start: (x.1.start + o) as usize, end: (x.1.end + o) as usize })
}
spec fn places<'a>(s: Seq<(Result<RecoveryToken, LexerError>, Range<usize>)>, o: int) -> Seq<RangedToken<'a>> {
    Seq::new(s.len(), |i: int| placed(s[i], o))
}
/// C05: tokens pass through; rejected text is replaced by what re-lexing it gives, in its true position
spec fn recovered<'a>(src: &str, s: Seq<RangedTokenOrError<'a>>) -> Seq<RangedToken<'a>> decreases s.len() {
    if s.len() == 0 { seq![] } else {
        (match s[0].0 {
            Ok(t) => seq![(t, s[0].1)],
            Err(_) => places(relex(slice(src, s[0].1.start as int, s[0].1.end as int)), s[0].1.start as int),
        }) + recovered(src, s.drop_first())
    }
}
spec fn valid<'a>(src: &str, s: Seq<RangedTokenOrError<'a>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> on_chars(src, (#[trigger] s[i]).1.start as int, s[i].1.end as int)
}
