//! C10: identifiers are accepted exactly when well formed
use crate::core::*;
use beancount_parser_lima::*;

fn upper(c: char) -> bool { ('A'..='Z').contains(&c) }
fn digit(c: char) -> bool { ('0'..='9').contains(&c) }
fn currency(s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    let n = v.len();
    n > 0
        && (upper(v[0]) || v[0] == '/')
        && (upper(v[n - 1]) || digit(v[n - 1]))
        && (n < 3 || v[1..n - 1].iter().all(|c| upper(*c) || digit(*c) || "'._-".contains(*c)))
        && v.iter().any(|c| upper(*c))
}
fn tag(s: &str) -> bool { s.chars().all(|c| c.is_alphanumeric() || "-_/.".contains(c)) }
fn key(s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    !v.is_empty() && ('a'..='z').contains(&v[0]) && v[1..].iter().all(|c| c.is_alphanumeric() || *c == '-' || *c == '_')
}
fn account_name(s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    !v.is_empty() && (upper(v[0]) || digit(v[0]) || (!v[0].is_ascii() && v[0].is_alphabetic())) && v[1..].iter().all(|c| c.is_alphanumeric() || *c == '-')
}
fn type_name(s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    !v.is_empty() && upper(v[0]) && v[1..].iter().all(|c| c.is_alphanumeric() || *c == '-')
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "all strings of up to 3 characters over 24 representative characters (every class the rules distinguish and their neighbours, ASCII and not), random ones up to 40 long, and every char for flags; \
               expected: the published rules restated; accepted ones preserved; non-trivial: every string"
        .into();
    let alphabet: Vec<char> = "AZaz09'._-/:#^ \"@[`{é中٣😱Éªß".chars().collect();
    let mut todo: Vec<String> = vec![String::new()];
    for a in &alphabet {
        todo.push(a.to_string());
        for b in &alphabet {
            todo.push(format!("{a}{b}"));
            for c in &alphabet {
                todo.push(format!("{a}{b}{c}"));
            }
        }
    }
    let mut r = Rng::new(cx.seed ^ 0xC10);
    for _ in 0..cx.scale(20000, 2000000) {
        let n = r.range(1, 40);
        let mut s = String::new();
        // mostly good characters, so that long ones are accepted at times
        let good = *r.pick(&["AB9", "AB-'._9", "abz-_9", "A-9é"]);
        let g: Vec<char> = good.chars().collect();
        for _ in 0..n {
            s.push(if r.p(97) { *r.pick(&g) } else { *r.pick(&alphabet) });
        }
        todo.push(s);
    }
    // the case file is written per batch, not per string
    for chunk in todo.chunks(500) {
        if !cx.go() {
            break;
        }
        for s in chunk {
            if s.len() > 3 {
                cx.distinct.insert(hash(s));
            }
        }
        cx.evaluations += chunk.len() as u64 - 1;
        cx.case(&chunk.join("\n"), true, || {
            for s in chunk {
                one(s)?;
            }
            Ok(())
        });
    }
    cx.case("flag letters: every char", true, || {
        for c in '\0'..=char::MAX {
            match FlagLetter::try_from(c) {
                Ok(f) if upper(c) && f.char() == c => {}
                Err(_) if !upper(c) => {}
                x => return Err(format!("flag letter {c:?}: {x:?}")),
            }
        }
        Ok(())
    });
}
fn one(s: &str) -> Result<(), String> {
    fn cmp<T: AsRef<str> + for<'x> PartialEq<&'x str>, E>(what: &str, s: &str, want: bool, got: Result<T, E>) -> Result<(), String> {
        if let Ok(x) = &got {
            let more = format!("{s}A");
            if !(*x == s) || *x == more.as_str() || s.get(1..).map_or(false, |t| *x == t) {
                return Err(format!("{what} from {s:?} compares wrongly with a string"));
            }
        }
        kept(what, s, want, got)
    }
    fn kept<T: AsRef<str>, E>(what: &str, s: &str, want: bool, got: Result<T, E>) -> Result<(), String> {
        match got {
            Ok(x) if want && x.as_ref() == s => Ok(()),
            Err(_) if !want => Ok(()),
            Ok(x) => Err(format!("{what} from {s:?} gives {:?}, {}", x.as_ref(), if want { "changed" } else { "must be refused" })),
            Err(_) => Err(format!("{what} from {s:?} is refused, must be accepted")),
        }
    }
    cmp("currency", s, currency(s), Currency::try_from(s))?;
    cmp("tag", s, tag(s), Tag::try_from(s))?;
    cmp("link", s, tag(s), Link::try_from(s))?;
    cmp("key", s, key(s), Key::try_from(s))?;
    cmp("account name", s, account_name(s), AccountName::try_from(s))?;
    cmp("account type name", s, type_name(s), AccountTypeName::try_from(s))?;
    kept("subaccount", s, s.split(':').all(account_name), Subaccount::try_from(s))?;
    Ok(())
}
