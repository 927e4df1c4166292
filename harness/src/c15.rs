//! C15: diagnostics keep everything attached to them, in order
use crate::core::*;
use crate::gen::*;
use beancount_parser_lima::*;

#[derive(Clone)]
struct El(&'static str);
impl ElementType<'static> for El {
    fn element_type(&self) -> &'static str {
        self.0
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Want {
    message: String,
    reason: String,
    span: (usize, usize, usize),
    contexts: Vec<(String, (usize, usize, usize))>,
    related: Vec<(String, (usize, usize, usize))>,
}
fn s3(s: &Span) -> (usize, usize, usize) {
    (s.source, s.start, s.end)
}
fn got<R: Report>(e: &R) -> Want {
    Want {
        message: e.message().into(),
        reason: e.reason().into(),
        span: s3(&e.span()),
        contexts: e.contexts().map(|(a, b)| (a.to_string(), s3(&b))).collect(),
        related: e.related().map(|(a, b)| (a.to_string(), s3(&b))).collect(),
    }
}

fn chain<K: ErrorOrWarningKind + Clone>(r: &mut Rng, mut e: ErrorOrWarning<K>, w: &mut Want, pool: &[Spanned<El>], acct: &Spanned<Account>, dir: &Spanned<Directive>, dkind: &str, log: &mut String) -> Result<ErrorOrWarning<K>, String> {
    for _ in 0..*r.pick(&[0usize, 1, 2, 4, 9]) {
        let before = e.clone();
        let k = r.n(6);
        let ctx = r.p(50);
        let mut add: Vec<(String, (usize, usize, usize))> = vec![];
        e = match k {
            0 => {
                add.push(("account".into(), s3(acct.span())));
                if ctx { e.in_context(acct) } else { e.related_to(acct) }
            }
            1 => {
                add.push((dkind.to_string(), s3(dir.span())));
                if ctx { e.in_context(dir) } else { e.related_to(dir) }
            }
            2 | 3 => {
                let n = r.n(4);
                let v: Vec<Spanned<El>> = (0..n).map(|_| r.pick(pool).clone()).collect();
                add.extend(v.iter().map(|x| (x.item().0.to_string(), s3(x.span()))));
                if ctx { e.in_contexts(&v) } else { e.related_to_all(v.iter()) }
            }
            _ => {
                let x = r.pick(pool);
                add.push((x.item().0.to_string(), s3(x.span())));
                if ctx { e.in_context(x) } else { e.related_to(x) }
            }
        };
        log.push_str(&format!("{} {:?}\n", if ctx { "in context" } else { "related" }, add));
        if got(&before) != *w {
            return Err(format!("a clone changed: {:?}, expected {w:?}", got(&before)));
        }
        if ctx { w.contexts.extend(add) } else { w.related.extend(add) }
        if got(&e) != *w {
            return Err(format!("after\n{log}\ngot {:?}\nexpected {w:?}", got(&e)));
        }
    }
    Ok(e)
}

fn strip(s: &[u8]) -> String {
    // without colour
    let s = String::from_utf8_lossy(s);
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// the report whose only label is at start..end of the text says where that is, and underlines exactly that
fn placed(o: &str, name: &str, text: &str, start: usize, end: usize) -> Result<(), String> {
    let line = text[..start].matches('\n').count() + 1;
    let bol = text[..start].rfind('\n').map_or(0, |i| i + 1);
    let col = text[bol..start].chars().count() + 1;
    if !o.contains(&format!("[ {name}:{line}:{col} ]")) {
        return Err(format!("report is not at {name}:{line}:{col}:\n{o}"));
    }
    let eol = text[start..].find('\n').map_or(text.len(), |i| i + start);
    let n = text[start..end].chars().count();
    // characters one column wide only
    if n == 0 || end > eol || text[bol..eol].chars().any(|c| c.is_control() || c as u32 >= 0x250) {
        return Ok(());
    }
    let want = format!("{}{}", " ".repeat(col - 1), "-".repeat(n));
    let got: Vec<String> = o.lines().filter_map(|l| l.split_once("\u{2502} ")).map(|(_, l)| l.replace(['\u{2500}', '\u{252c}'], "-")).map(|l| l.trim_end().to_string()).collect();
    if got.iter().any(|l| *l == want) {
        Ok(())
    } else {
        Err(format!("report does not underline {:?}, columns {col} to {} of line {line}:\n{o}", &text[start..end], col + n - 1))
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "errors and warnings made from elements of random ledgers, with up to 9 attachments (single, many, none; contexts and related; real elements and others), accessors compared after each; then annotated \
               (twice or not at all) and rendered; expected: the attachments in order; non-trivial: two or more attachments"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC15);
    for _ in 0..cx.scale(2500, 80000) {
        if !cx.go() {
            break;
        }
        let c = Cfg::new();
        let mut w = W::default();
        let mut kinds = vec![];
        for _ in 0..r.range(1, 3) {
            let k = *r.pick(&["open", "close", "note", "pad", "balance"]);
            let mut c2 = c.clone();
            c2.kinds = vec![k];
            c2.dates = vec![format!("2020-01-0{}", kinds.len() + 1)];
            w.directive(&mut r, &c2);
            kinds.push(k);
        }
        let text = w.out.clone();
        let mut q = r.clone();
        let is_err = q.p(50);
        let reason: String = string_lit(&mut q, false).1;
        let mut input = format!("{text}\n{}: {reason:?}\n", if is_err { "error" } else { "warning" });
        r.next();
        let mut n_att = 0;
        let ok = {
            let mut log = String::new();
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
                let src = BeancountSources::from(text.as_str());
                let parser = BeancountParser::new(&src);
                let p = parser.parse().map_err(|e| errs(&e))?;
                let i = q.n(p.directives.len());
                let d = &p.directives[i];
                let kind = d.item().element_type();
                use DirectiveVariant::*;
                let (want_kind, acct) = match d.variant() {
                    Open(x) => ("open", x.account()),
                    Close(x) => ("close", x.account()),
                    Note(x) => ("note", x.account()),
                    Pad(x) => ("pad", x.account()),
                    Balance(x) => ("balance", x.account()),
                    _ => return Err("unexpected directive".into()),
                };
                if kind != want_kind {
                    return Err(format!("element type {kind}, expected {want_kind}"));
                }
                let n = text.len();
                let pool: Vec<Spanned<El>> = (0..4)
                    .map(|_| {
                        let mut a = q.n(n + 1);
                        let mut b = q.n(n + 1);
                        while !text.is_char_boundary(a) {
                            a -= 1;
                        }
                        while !text.is_char_boundary(b) {
                            b -= 1;
                        }
                        // no line ends, which the renderer may not show a label for
                        let (a, b) = (a.min(b), a.max(b));
                        spanned(El(*q.pick(&["thing", "gadget", "long element name", "größe", "item e.g.", "UPPER", "x;", "a_b"])), Span { source: d.span().source, start: a, end: b })
                    })
                    .collect();
                let base = q.n(3);
                macro_rules! go {
                    ($m:ident, $pre:expr) => {{
                        let (e, el, sp) = match base {
                            0 => (d.$m(reason.clone()), kind, *d.span()),
                            1 => (acct.$m(reason.as_str()), "account", *acct.span()),
                            _ => (pool[0].$m(reason.clone()), pool[0].item().0, *pool[0].span()),
                        };
                        let mut w = Want { message: format!("{} {el}", $pre), reason: reason.clone(), span: s3(&sp), ..Default::default() };
                        if got(&e) != w {
                            return Err(format!("created {:?}, expected {w:?}", got(&e)));
                        }
                        let e = chain(&mut q, e, &mut w, &pool, acct, d, kind, &mut log)?;
                        n_att = w.contexts.len() + w.related.len();
                        let notes = ["first note", "second\nnote", "", " padded. ", "line\n", "  ", "größer"];
                        let ann: Option<&str> = if q.p(60) { Some(*q.pick(&notes)) } else { None };
                        let a = match ann {
                            None => e.clone().into(),
                            Some(n) => e.clone().with_annotation(n),
                        };
                        if a.annotation() != ann {
                            return Err(format!("annotation {:?}, expected {ann:?}", a.annotation()));
                        }
                        if got(&a.error_or_warning) != w || got(&*a) != w {
                            return Err(format!("annotating changed it to {:?}, expected {w:?}", got(&a.error_or_warning)));
                        }
                        let mut last = ann;
                        let a = if q.p(30) {
                            let n2 = *q.pick(&notes);
                            last = Some(n2);
                            a.error_or_warning.with_annotation(n2)
                        } else {
                            a
                        };
                        if a.annotation() != last {
                            return Err(format!("annotation {:?}, expected {last:?}", a.annotation()));
                        }
                        // rendered: two reports, each in full
                        let mut out: Vec<u8> = vec![];
                        let second = acct.$m("the second report");
                        src.write_errors_or_warnings(&mut out, vec![a, second.into()]).map_err(|e| format!("cannot write: {e}"))?;
                        let o = strip(&out);
                        let (o1, o2) = o.split_at(o.find(&format!("{} account", $pre)).filter(|_| base != 1).or_else(|| o.rfind(&format!("{} account", $pre))).ok_or(format!("second report missing:\n{o}"))?);
                        let plain = |s: &str| s.chars().all(|c| c.is_ascii_graphic() || c == ' ');
                        if !o1.contains(&w.message) || (plain(&w.reason) && !o1.contains(w.reason.trim())) {
                            return Err(format!("report lacks {:?} or {:?}:\n{o1}", w.message, w.reason));
                        }
                        if !o2.contains("the second report") {
                            return Err(format!("second report lacks its reason:\n{o2}"));
                        }
                        placed(o2, "inline", &text, acct.span().start, acct.span().end)?;
                        // as text
                        let t = format!("{e}");
                        let mut from = t.find(&w.message).ok_or(format!("{t:?} lacks the message of {w:?}"))?;
                        if !t.contains(&w.reason) || !t.contains(&format!("{}..{}", w.span.1, w.span.2)) {
                            return Err(format!("{t:?} lacks the reason or position of {w:?}"));
                        }
                        from += w.message.len();
                        from += t[from..].find(&w.reason).ok_or(format!("{t:?} lacks the reason of {w:?}"))? + w.reason.len();
                        for (el, _) in &w.contexts {
                            from += t[from..].find(el.as_str()).ok_or(format!("{t:?} lacks context {el} of {w:?}"))? + el.len();
                        }
                        for (el, _) in &w.contexts {
                            if !o1.contains(&format!("in this {el}")) {
                                return Err(format!("report lacks context {el}:\n{o1}"));
                            }
                        }
                        for (el, _) in &w.related {
                            if !o1.contains(el.as_str()) {
                                return Err(format!("report lacks related {el}:\n{o1}"));
                            }
                        }
                        if let Some(n) = last {
                            let tail = &o1[..o1.rfind(if is_err { "Error" } else { "Warning" }).filter(|i| *i > 0).unwrap_or(o1.len())];
                            if !tail.ends_with(&format!("{n}\n")) {
                                return Err(format!("annotation {n:?} does not follow its report:\n{o1}"));
                            }
                        }
                    }};
                }
                if is_err {
                    go!(error, "invalid");
                } else {
                    go!(warning, "questionable");
                }
                Ok(())
            }));
            input.push_str(&log);
            res
        };
        cx.case(&input, n_att >= 2, || match ok {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        });
    }
    // reports on synthetic fragments and on the real source, through the synthetic sources
    for _ in 0..cx.scale(300, 5000) {
        if !cx.go() {
            break;
        }
        let mut q = r.clone();
        r.next();
        let text = "2020-01-01 open Assets:Gr\u{f6}\u{df}e USD\n2020-01-02 note Assets:Gr\u{f6}\u{df}e \"\u{e4}\"\n  foo: 1\n";
        let names = ["plugin", "other", "\u{fc}ber"];
        let pieces = ["abc\n", "gr\u{f6}\u{df}e def\n", "x", "y z\n", "\u{e4}\u{e4}\n"];
        let script: Vec<(usize, usize)> = (0..q.range(1, 6)).map(|_| (q.n(3), q.n(5))).collect();
        let input = format!("{text}\n{:?}", script.iter().map(|(n, p)| (names[*n], pieces[*p])).collect::<Vec<_>>());
        cx.case(&input, script.len() > 1, || {
            let src = BeancountSources::from(text);
            let mut syn = SyntheticSources::new(&src);
            let mut all = [String::new(), String::new(), String::new()];
            let mut made = vec![];
            for (n, p) in &script {
                let s = syn.create_synthetic_span(names[*n], pieces[*p]);
                let a = all[*n].len();
                all[*n].push_str(pieces[*p]);
                made.push((*n, s, a, a + pieces[*p].trim_end().len()));
            }
            for (n, s, a, b) in &made {
                let mut out: Vec<u8> = vec![];
                let e = spanned(El("thing"), *s).error("why");
                let f = spanned(El("other"), *s).error("because").with_annotation("noted");
                syn.write_errors_or_warnings(&mut out, vec![AnnotatedErrorOrWarning::from(e), f]).map_err(|e| e.to_string())?;
                let o = strip(&out);
                let i = o.find("Error: invalid other").ok_or(format!("second report missing:\n{o}"))?;
                placed(&o[..i], names[*n], &all[*n], *a, *b)?;
                placed(&o[i..], names[*n], &all[*n], *a, *b)?;
                if !o[..i].contains("why") || !o[..i].contains("invalid thing") || !o[i..].contains("because") || !o.ends_with("noted\n") {
                    return Err(format!("incomplete:\n{o}"));
                }
            }
            // each label in its own source
            for (n, s, a, b) in &made {
                for (m, t, c, d) in made.iter().filter(|x| x.0 != *n) {
                    let (x, y) = (spanned(El("thing"), *s), spanned(El("elsewhere"), *t));
                    for (e, l) in [(x.error("why").related_to(&y), "elsewhere"), (x.error("why").in_context(&y), "in this elsewhere")] {
                        let mut out: Vec<u8> = vec![];
                        syn.write_errors_or_warnings(&mut out, vec![e]).map_err(|e| e.to_string())?;
                        let o = strip(&out);
                        placed(&o, names[*n], &all[*n], *a, *b)?;
                        placed(&o, names[*m], &all[*m], *c, *d)?;
                        if !o.contains("why") || !o.contains(l) {
                            return Err(format!("incomplete, without {l:?}:\n{o}"));
                        }
                    }
                }
            }
            let at = text.rfind("Assets").unwrap();
            let e = spanned(El("thing"), Span { source: 0, start: at, end: at + "Assets:Gr\u{f6}\u{df}e".len() }).error("why");
            for real in [true, false] {
                let mut out: Vec<u8> = vec![];
                if real { src.write_errors_or_warnings(&mut out, vec![e.clone()]) } else { syn.write_errors_or_warnings(&mut out, vec![e.clone()]) }.map_err(|e| e.to_string())?;
                placed(&strip(&out), "inline", text, at, at + "Assets:Gr\u{f6}\u{df}e".len())?;
            }
            Ok(())
        });
    }
    // element kinds
    let text = "2020-01-01 open Assets:A USD \"STRICT\" #t ^l\n  foo: 1\n2020-01-02 * \"a\" \"b\"\n  ! Assets:A 1 USD {1 USD}\n2020-01-03 balance Assets:A 1 USD\n2020-01-04 price USD 1 NZD\n";
    cx.case(text, true, || {
        let src = BeancountSources::from(text);
        with_parse(&src, |_, res| {
            let p = res.as_ref().map_err(errs)?;
            fn t<'a, T: ElementType<'a>>(x: &Spanned<T>, k: &str, s: Sp) -> Result<(), String> {
                let (e, w) = (x.error("r"), x.warning("r"));
                if e.message() == format!("invalid {k}") && w.message() == format!("questionable {k}") && sp(&e.span()) == Some(s) && sp(&w.span()) == Some(s) && e.reason() == "r" && w.reason() == "r" {
                    Ok(())
                } else {
                    Err(format!("expected {k} at {s:?}, got {:?} and {:?}", got(&e), got(&w)))
                }
            }
            let at = |s: &str, from: usize| -> Sp {
                let i = text[from..].find(s).unwrap() + from;
                (i, i + s.len())
            };
            for d in &p.directives {
                let b = d.span().start;
                match d.variant() {
                    DirectiveVariant::Open(x) => {
                        t(x.account(), "account", at("Assets:A", b))?;
                        t(x.currencies().next().unwrap(), "currency", at("USD", b))?;
                        t(x.booking().unwrap(), "booking", at("\"STRICT\"", b))?;
                        t(d.metadata().tags().next().unwrap(), "tag", at("#t", b))?;
                        t(d.metadata().links().next().unwrap(), "link", at("^l", b))?;
                        t(d.metadata().key_values().next().unwrap().0, "key", at("foo", b))?;
                        t(d, "open", (b, d.span().end))?;
                    }
                    DirectiveVariant::Transaction(x) => {
                        t(x.flag(), "flag", at("*", b))?;
                        let q = x.postings().next().unwrap();
                        t(q, "posting", (at("!", b).0, at("{1 USD}", b).1))?;
                        t(q.flag().unwrap(), "flag", at("!", b))?;
                        t(q.amount().unwrap(), "amount", at("1", at("Assets:A", b).1))?;
                        t(q.cost_spec().unwrap(), "cost specification", at("{1 USD}", b))?;
                        t(d, "transaction", (b, d.span().end))?;
                    }
                    DirectiveVariant::Balance(_) => t(d, "balance", (b, d.span().end))?,
                    DirectiveVariant::Price(_) => t(d, "price", (b, d.span().end))?,
                    _ => {}
                }
            }
            Ok(())
        })
    });
}
