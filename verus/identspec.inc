// what the character classes are, and C10's rules
uninterp spec fn alnum(c: char) -> bool;       // char::is_alphanumeric
uninterp spec fn alpha(c: char) -> bool;       // char::is_alphabetic
spec fn upper(c: char) -> bool { 'A' <= c <= 'Z' }
spec fn lower(c: char) -> bool { 'a' <= c <= 'z' }
spec fn digit(c: char) -> bool { '0' <= c <= '9' }
spec fn ascii(c: char) -> bool { c <= '\x7f' }
#[verifier::external_body]
broadcast proof fn ascii_alnum(c: char) ensures upper(c) || lower(c) || digit(c) ==> #[trigger] alnum(c) {}
/// the pieces between colons, at least one
uninterp spec fn pieces(s: Seq<char>) -> Seq<Seq<char>>;
spec fn rest_ok(s: Seq<char>, p: spec_fn(char) -> bool) -> bool { forall|i: int| 1 <= i < s.len() ==> p(#[trigger] s[i]) }
spec fn type_name_ok(s: Seq<char>) -> bool { s.len() > 0 && upper(s[0]) && rest_ok(s, |c: char| alnum(c) || c == '-') }
spec fn name_initial(c: char) -> bool { upper(c) || digit(c) || !ascii(c) && alpha(c) }
spec fn name_ok(s: Seq<char>) -> bool { s.len() > 0 && name_initial(s[0]) && rest_ok(s, |c: char| alnum(c) || c == '-') }
spec fn key_ok(s: Seq<char>) -> bool { s.len() > 0 && lower(s[0]) && rest_ok(s, |c: char| alnum(c) || c == '-' || c == '_') }
spec fn tag_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> tag_char(#[trigger] s[i]) }
spec fn tag_char(c: char) -> bool { alnum(c) || c == '-' || c == '_' || c == '/' || c == '.' }
spec fn currency_mid(c: char) -> bool { upper(c) || digit(c) || c == '\'' || c == '.' || c == '_' || c == '-' }
spec fn currency_ok(s: Seq<char>) -> bool {
    &&& s.len() > 0
    &&& upper(s[0]) || s[0] == '/'
    &&& upper(s.last()) || digit(s.last())
    &&& forall|i: int| 1 <= i < s.len() - 1 ==> currency_mid(#[trigger] s[i])
    &&& exists|i: int| 0 <= i < s.len() && upper(#[trigger] s[i])
}
spec fn subaccount_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < pieces(s).len() ==> name_ok(#[trigger] pieces(s)[i]) }

