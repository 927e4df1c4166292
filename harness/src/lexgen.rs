//! token pieces with what they lex to, shared by C04 and C05
use crate::core::Rng;

/// (text, [(Debug of token, start, end)])
pub type Piece = (String, Vec<(String, usize, usize)>);
pub const UNREC: &str = "Error(LexerError { message: \"unrecognized token\" })";

pub const KEYWORDS: &[(&str, &str)] = &[
    ("txn", "Txn"), ("balance", "Balance"), ("open", "Open"), ("close", "Close"), ("commodity", "Commodity"), ("pad", "Pad"), ("event", "Event"),
    ("query", "Query"), ("custom", "Custom"), ("price", "Price"), ("note", "Note"), ("document", "Document"), ("pushtag", "Pushtag"),
    ("poptag", "Poptag"), ("pushmeta", "Pushmeta"), ("popmeta", "Popmeta"), ("option", "Option"), ("options", "Options"), ("plugin", "Plugin"),
    ("include", "Include"),
];
const SIMPLE: &[(&str, &str)] = &[
    ("TRUE", "True"), ("FALSE", "False"), ("NULL", "Null"), ("USD", "Currency(\"USD\")"), ("V", "Currency(\"V\")"), ("|", "Pipe"), ("@@", "AtAt"),
    ("@", "At"), ("{{", "LcurlCurl"), ("}}", "RcurlCurl"), ("{", "Lcurl"), ("}", "Rcurl"), (",", "Comma"), ("~", "Tilde"), ("+", "Plus"), ("-", "Minus"),
    ("(", "Lparen"), (")", "Rparen"), ("#", "Hash"), ("*", "Asterisk"), ("!", "DedicatedFlag(Exclamation)"), ("&", "DedicatedFlag(Ampersand)"),
    ("?", "DedicatedFlag(Question)"), ("%", "DedicatedFlag(Percent)"), ("'A", "DedicatedFlag(Letter(FlagLetter('A')))"),
    ("2020-01-02", "Date(2020-01-02)"), ("12:30", "Time(12:30:00.0)"), ("Assets:Cash", "Account(\"Assets:Cash\")"), ("Ünï:Ż", "Account(\"Ünï:Ż\")"),
    ("\"s\"", "StringLiteral(\"s\")"), ("\"two\nlines ; no comment\n  : no\"", "StringLiteral(\"two\\nlines ; no comment\\n  : no\")"), ("\"\"", "StringLiteral(\"\")"),
    ("1,234.50", "Number(1234.50)"), ("7", "Number(7)"), ("#tag", "Tag(\"tag\")"), ("^li-nk", "Link(\"li-nk\")"), ("foo", "Key(\"foo\")"), ("opener", "Key(\"opener\")"),
    ("/A1'._-B", "Currency(\"/A1'._-B\")"), ("/1-2._'X", "Currency(\"/1-2._'X\")"), ("A'B.C_D-E", "Currency(\"A'B.C_D-E\")"), ("'Z", "DedicatedFlag(Letter(FlagLetter('Z')))"),
    ("2020/01/02", "Date(2020-01-02)"), ("2020-02/29", "Date(2020-02-29)"), ("0000/01-01", "Date(0000-01-01)"), ("1:30", "Time(1:30:00.0)"), ("23:59:59", "Time(23:59:59.0)"),
    ("1234567", "Number(1234567)"), ("1234,567", "Number(1234567)"), ("0.010", "Number(0.010)"), ("1,000,000.5", "Number(1000000.5)"),
    ("\"a\\\"b\\\\\"", "StringLiteral(\"a\\\"b\\\\\")"), ("\"\\n\\t\"", "StringLiteral(\"\\n\\t\")"), ("#a.", "Tag(\"a.\")"), ("#/-_.", "Tag(\"/-_.\")"), ("^1/2.", "Link(\"1/2.\")"),
    ("k-", "Key(\"k-\")"), ("kA9_", "Key(\"kA9_\")"), ("Á-1:9-a:Ⅷ:中ǅ²", "Account(\"Á-1:9-a:Ⅷ:中ǅ²\")"), ("A:B", "Account(\"A:B\")"),
    ("optional", "Key(\"optional\")"), ("EolThenIndent", ""),
];
const REJECTED: &[(&str, &[(&str, usize, usize)])] = &[
    ("/1.24", &[("Slash", 0, 1), ("Number(1.24)", 1, 5)]),
    ("/2", &[("Slash", 0, 1), ("Number(2)", 1, 2)]),
    ("/7-1", &[("Slash", 0, 1), ("Number(7)", 1, 2), ("Minus", 2, 3), ("Number(1)", 3, 4)]),
    ("$", &[(UNREC, 0, 1)]),
    ("é", &[(UNREC, 0, 2)]),
    ("x", &[(UNREC, 0, 1)]),
    ("\u{a0}", &[(UNREC, 0, 2)]),
    ("\u{3000}", &[(UNREC, 0, 3)]),
    ("\u{85}", &[(UNREC, 0, 2)]),
    ("\u{b}", &[(UNREC, 0, 1)]),
    ("\u{c}", &[(UNREC, 0, 1)]),
    ("\u{feff}", &[(UNREC, 0, 3)]),
    ("\u{0}", &[(UNREC, 0, 1)]),
    ("2020-13-01", &[("Error(LexerError { message: \"month out of range\" })", 0, 10)]),
    ("99:99", &[("Number(99)", 0, 2), ("Colon", 2, 3), ("Number(99)", 3, 5)]),
    ("/1.2.3", &[("Slash", 0, 1), ("Number(1.2)", 1, 4), (UNREC, 4, 5), ("Number(3)", 5, 6)]),
    ("/1:2", &[("Slash", 0, 1), ("Number(1)", 1, 2), ("Colon", 2, 3), ("Number(2)", 3, 4)]),
];

pub fn one(t: &str, d: &str) -> Piece {
    (t.to_string(), vec![(d.to_string(), 0, t.len())])
}

/// a piece other than a colon
pub fn piece(r: &mut Rng, keyword_p: usize, rejected_p: usize) -> Piece {
    if r.p(keyword_p) {
        let (t, d) = r.pick(KEYWORDS);
        one(t, d)
    } else if r.p(rejected_p) {
        let (t, v) = r.pick(REJECTED);
        (t.to_string(), v.iter().map(|(d, a, b)| (d.to_string(), *a, *b)).collect())
    } else {
        let (t, d) = &SIMPLE[r.n(SIMPLE.len() - 1)];
        one(t, d)
    }
}

pub type Tok = (String, usize, usize);

/// a keyword immediately before a colon is a key
pub fn keyed(v: &[Tok]) -> Vec<Tok> {
    v.iter()
        .enumerate()
        .map(|(i, t)| {
            if i + 1 < v.len() && v[i + 1].0 == "Colon" {
                if let Some((k, _)) = KEYWORDS.iter().find(|(_, d)| *d == t.0) {
                    return (format!("Key({k:?})"), t.1, t.2);
                }
            }
            t.clone()
        })
        .collect()
}

pub fn lex(text: &str) -> Vec<Tok> {
    beancount_parser_lima::lex_with_source(beancount_parser_lima::SourceId::default(), text)
        .into_iter()
        .map(|(t, s)| (format!("{t:?}"), s.start, s.end))
        .collect()
}
