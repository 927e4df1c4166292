//! C04: the token stream is cleanly structured into lines
use crate::core::*;
use crate::lexgen::*;

pub fn run(cx: &mut Ctx) {
    cx.rule = "texts built from lines: tokens (with or without leading blanks, trailing comment, rejected text), blank, comment, ignored (colon or heading) lines, \
               LF/CRLF, with or without final newline, expected token list known by construction; plus arbitrary character soup for the structural part; \
               non-trivial: at least one blank, comment or ignored line and one token line"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC04);
    for i in 0..cx.scale(30000, 1500000) {
        if !cx.go() {
            break;
        }
        if i % 5 == 4 {
            let t = soup(&mut r);
            cx.case(&t.clone(), t.contains('\n'), || structure(&lex(&t)));
        } else {
            let (t, want, nt) = lines(&mut r);
            cx.case(&format!("{t:?}"), nt, || {
                let got = lex(&t);
                structure(&got)?;
                // an indent is among the blanks before the line's first token
                for w in got.windows(2) {
                    if w[0].0 == "Indent" && !(w[0].1 < w[0].2 && w[0].2 == w[1].1 && t.get(w[0].1..w[0].2).is_some_and(|b| b.chars().all(|c| c == ' ' || c == '\t'))) {
                        return Err(format!("indent at {}..{} before {:?}", w[0].1, w[0].2, w[1]));
                    }
                }
                compare(&want, &got)
            });
        }
    }
}

/// positions of Eol and Indent are not compared
fn compare(want: &[Tok], got: &[Tok]) -> Result<(), String> {
    let n = |v: &[Tok]| -> Vec<Tok> {
        v.iter().map(|t| if t.0 == "Eol" || t.0 == "Indent" { (t.0.clone(), 0, 0) } else { t.clone() }).collect()
    };
    let (w, g) = (n(want), n(got));
    if w != g {
        return Err(format!("expected {}, got {}", show(&w), show(&g)));
    }
    Ok(())
}
pub fn show(v: &[Tok]) -> String {
    v.iter().map(|t| format!("{}@{}..{}", t.0, t.1, t.2)).collect::<Vec<_>>().join(" ")
}

fn structure(v: &[Tok]) -> Result<(), String> {
    let e = |m: &str| Err(format!("{m}: {}", show(v)));
    for (i, t) in v.iter().enumerate() {
        match t.0.as_str() {
            "Eol" if i == 0 => return e("begins with an end-of-line"),
            "Eol" if v[i - 1].0 == "Eol" => return e("two ends of line in a row"),
            "Indent" if i == 0 || v[i - 1].0 != "Eol" => return e("indent not after an end-of-line"),
            "Indent" if v.get(i + 1).map(|t| t.0.as_str()).unwrap_or("Eol") == "Eol" => return e("indent of an empty line"),
            "EolThenIndent" | "EolComment" => return e("internal marker survives"),
            _ => {}
        }
    }
    if !v.is_empty() && v.last().unwrap().0 != "Eol" {
        return e("does not end with an end-of-line");
    }
    Ok(())
}

fn soup(r: &mut Rng) -> String {
    let n = r.n(30);
    (0..n)
        .map(|_| {
            *r.pick(&[
                "\n", "\n", "\r\n", " ", "\t", "  ", ":", ":", ";", "; c", "*", "!", "#", "\"", "\"x\"", "open", "foo", "1", "2020-01-01", "USD", "/1", "é", "$", "\\", "A:B", "\r", ",", "^", "'A", "0",
            ])
        })
        .collect()
}

fn lines(r: &mut Rng) -> (String, Vec<Tok>, bool) {
    let mut t = String::new();
    let mut out: Vec<Tok> = vec![];
    let n = r.range(1, 9);
    let crlf = r.p(25);
    let (mut any_tok, mut any_skip) = (false, false);
    for i in 0..n {
        let last = i + 1 == n;
        let newline = !last || r.p(60);
        let kind = r.n(10);
        match kind {
            0 => {
                any_skip = true;
                t.push_str(*r.pick(&["", " ", "\t", "    "]));
            }
            1 => {
                any_skip = true;
                t.push_str(*r.pick(&[";", "; open: x", "  ; foo", "\t;\"", " ;;;:", "; a ; b", "  ;\u{e9};$ ;"]));
            }
            2 => {
                any_skip = true;
                t.push_str(*r.pick(&[":", ": open x 1", ":: \\ $", ":foo: bar /1.2", "  :", "\t: open", "   :x: ; c", "  : 2020-01-01 open : foo"]));
            }
            3 if i > 0 && newline => {
                any_skip = true;
                t.push_str(*r.pick(&["* heading", "! x \"", "&", "# x", "? ", "%:", "*"]));
            }
            _ => {
                let indent = *r.pick(&["", "", " ", "  ", "\t", "    "]);
                t.push_str(indent);
                let np = r.range(1, 5);
                let mut here = vec![];
                for k in 0..np {
                    let p = loop {
                        let p = if k > 0 && r.p(20) { one(":", "Colon") } else { piece(r, 25, 10) };
                        if k == 0 && "*!&#?%:".contains(p.0.chars().next().unwrap()) && (indent.is_empty()) {
                            continue;
                        }
                        break p;
                    };
                    if k > 0 {
                        t.push_str(*r.pick(&[" ", "  ", "\t"]));
                    }
                    let o = t.len();
                    t.push_str(&p.0);
                    here.extend(p.1.iter().map(|(d, a, b)| (d.clone(), a + o, b + o)));
                }
                if !indent.is_empty() && any_tok {
                    out.push(("Indent".into(), 0, 0));
                }
                any_tok = true;
                out.extend(keyed(&here));
                out.push(("Eol".into(), 0, 0));
                if r.p(20) {
                    t.push_str(*r.pick(&[" ", "\t"]));
                }
                if newline && crlf && r.p(5) {
                    // a carriage return which is not part of the line ending is no whitespace
                    out.insert(out.len() - 1, (UNREC.into(), t.len(), t.len() + 1));
                    t.push_str("\r\r\n");
                    continue;
                }
                if r.p(20) {
                    t.push_str(*r.pick(&["; c", " ; open: 1", ";", ";;", "; a ; b", ";\t;\"x ;", "; \u{e9};\u{4e2d}", ";$ ; 2020-01-01 open: {"]));
                }
            }
        }
        if newline {
            t.push_str(if crlf && r.p(70) { "\r\n" } else { "\n" });
        }
    }
    (t, out, any_tok && any_skip)
}
