// ---------------------------------------------------------------- specification

/// the key which a keyword spells
spec fn keyword(t: Token) -> Option<&'static str> {
    match t {
        Token::Txn => Some("txn"), Token::Balance => Some("balance"), Token::Open => Some("open"), Token::Close => Some("close"),
        Token::Commodity => Some("commodity"), Token::Pad => Some("pad"), Token::Event => Some("event"), Token::Query => Some("query"),
        Token::Custom => Some("custom"), Token::Price => Some("price"), Token::Note => Some("note"), Token::Document => Some("document"),
        Token::Pushtag => Some("pushtag"), Token::Poptag => Some("poptag"), Token::Pushmeta => Some("pushmeta"), Token::Popmeta => Some("popmeta"),
        Token::Option => Some("option"), Token::Options => Some("options"), Token::Plugin => Some("plugin"), Token::Include => Some("include"),
        _ => None,
    }
}

/// C05: a keyword immediately before a colon becomes a key, in its own position; all else is unchanged
spec fn keyed<'a>(s: Seq<RangedToken<'a>>) -> Seq<RangedToken<'a>> {
    Seq::new(s.len(), |i: int|
        if i + 1 < s.len() && s[i + 1].0 is Colon && keyword(s[i].0) is Some { (Token::Key(keyword(s[i].0)->0), s[i].1) }
        else { s[i] })
}
