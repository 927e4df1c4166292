//! C19: over-long strings, and only those, draw a warning
use crate::core::*;
use beancount_parser_lima::*;

struct B {
    t: String,
    limit: Option<(usize, (usize, usize))>,
    want: Vec<((usize, usize), usize, Option<(usize, (usize, usize))>)>, // string, lines, limit in force
    strings: Vec<String>,
}
impl B {
    fn s(&mut self, r: &mut Rng) {
        let lim = self.limit.map(|x| x.0).unwrap_or(64);
        let n = match r.n(6) {
            0 => lim,
            1 => lim + 1,
            2 => lim.saturating_sub(1),
            3 => lim + r.n(5),
            _ => r.range(1, 4),
        }
        .max(1);
        let a = self.t.len();
        let mut v = String::new();
        for k in 0..n {
            if k > 0 {
                if r.p(15) {
                    v.push('\r');
                }
                v.push('\n');
            }
            v.push_str(*r.pick(&["", "x", "é ü", "; no comment", "  indented", "2020-01-01 open", "* heading", "#tag"]));
        }
        if v.is_empty() {
            v.push('y');
        }
        self.t.push('"');
        self.t.push_str(&v);
        self.t.push('"');
        if n > lim {
            self.want.push(((a, self.t.len()), n, self.limit));
        }
        self.strings.push(v);
    }
    fn p(&mut self, s: &str) {
        self.t.push_str(s);
    }
}

fn ledger(r: &mut Rng, options: bool, day: &mut usize) -> B {
    let mut b = B { t: String::new(), limit: None, want: vec![], strings: vec![] };
    let mut title = false;
    for _ in 0..r.range(1, 8) {
        if options && r.p(35) {
            let n = *r.pick(&[0usize, 1, 2, 3, 5, 10, 63, 64, 65, 100]);
            b.p("option \"long_string_maxlines\" ");
            let a = b.t.len();
            b.p(&format!("\"{n}\""));
            // the option's own strings count too, but are one line: under a limit of 0 they draw warnings themselves
            b.limit = Some((n, (a, b.t.len())));
            b.p("\n");
            continue;
        }
        // a limit of nothing makes all the strings too long, the grammar's own included: keep it simple
        *day += 1;
        let d = format!("{}-{:02}-{:02} ", 2000 + *day / 300, 1 + (*day / 25) % 12, 1 + *day % 25);
        match r.n(11) {
            0 => {
                b.p(&d);
                b.p("note Assets:A ");
                b.s(r);
            }
            1 => {
                b.p(&d);
                b.p("* ");
                b.s(r);
            }
            2 => {
                b.p(&d);
                b.p("* ");
                b.s(r);
                b.p(" ");
                b.s(r);
                b.p("\n  foo: ");
                b.s(r);
                b.p("\n  Assets:A 1 USD {1 USD, ");
                b.s(r);
                b.p("}\n    bar: ");
                b.s(r);
            }
            3 => {
                b.p(&d);
                b.p("event ");
                b.s(r);
                b.p(" ");
                b.s(r);
            }
            4 => {
                b.p(&d);
                b.p("query ");
                b.s(r);
                b.p(" ");
                b.s(r);
            }
            5 => {
                b.p(&d);
                b.p("custom ");
                b.s(r);
                b.p(" ");
                b.s(r);
                b.p(" 1 ");
                b.s(r);
            }
            6 => {
                b.p(&d);
                b.p("document Assets:A ");
                b.s(r);
            }
            7 => {
                b.p(&d);
                b.p("open Assets:A USD\n  foo: ");
                b.s(r);
            }
            8 if options && !title => {
                title = true;
                // the name and the value
                if b.limit.map(|l| l.0) != Some(0) {
                    b.p("option \"title\" ");
                    b.s(r);
                }
            }
            9 if options => {
                b.p("plugin ");
                b.s(r);
                if r.p(50) {
                    b.p(" ");
                    b.s(r);
                }
            }
            _ => {
                b.p(&d);
                b.p("commodity USD");
            }
        }
        b.p("\n");
    }
    b
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "ledgers with strings of lengths around the limit (default, and set any number of times, 0 to 100) wherever a string may stand, LF and CRLF, also in included files; \
               expected: exactly one warning for each string over the limit in force, at its position, with its line count and the option's position, and all strings kept; non-trivial: a warning expected"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC19);
    for i in 0..cx.scale(3000, 100000) {
        if !cx.go() {
            break;
        }
        let mut day = 0;
        // with an included file: no options, so the default holds in both
        let incl = i % 5 == 4;
        let mut b = ledger(&mut r, !incl, &mut day);
        if b.want.is_empty() && b.strings.is_empty() {
            continue;
        }
        let zero = b.t.contains("maxlines\" \"0\"");
        let inc = if incl { Some(ledger(&mut r, false, &mut day)) } else { None };
        if incl {
            b.t.push_str("include \"b.beancount\"\n");
        }
        let desc = format!("{}{}", b.t, inc.as_ref().map(|x| format!("--- b.beancount\n{}", x.t)).unwrap_or_default());
        let nt = !b.want.is_empty();
        let sc = if incl { Some(Scratch::new()) } else { None };
        if let (Some(s), Some(x)) = (&sc, &inc) {
            std::fs::write(s.0.join("a.beancount"), &b.t).unwrap();
            std::fs::write(s.0.join("b.beancount"), &x.t).unwrap();
        }
        cx.case(&desc, nt, || {
            let src = match &sc {
                Some(s) => BeancountSources::try_from(s.0.join("a.beancount")).map_err(|e| e.to_string())?,
                None => BeancountSources::from(b.t.as_str()),
            };
            with_parse(&src, |src, res| {
                let p = res.as_ref().map_err(|e| format!("refused: {}", errs(e)))?;
                let mut left: Vec<_> = b.want.iter().map(|w| (0, w)).collect();
                if let Some(x) = &inc {
                    left.extend(x.want.iter().map(|w| (1, w)));
                }
                for w in &p.warnings {
                    let s = (w.span().start, w.span().end);
                    let file = src.resolve_span(&w.span()).file_name.map(|n| n.contains("b.beancount") as usize).unwrap_or(0);
                    let Some(k) = left.iter().position(|(f, l)| *f == file && l.0 == s) else {
                        // names of options and the values of the option itself, one line each, under a limit of nothing
                        let t = &b.t[s.0..s.1];
                        if zero && !t.contains('\n') && file == 0 && (t.starts_with("\"long_string") || t.starts_with("\"title") || t[1..t.len() - 1].parse::<usize>().is_ok()) {
                            continue;
                        }
                        return Err(format!("a warning at {s:?} which is not too long, or twice: {} ({})", w.message(), w.reason()));
                    };
                    let (_, (_, n, lim)) = left.remove(k);
                    let nums: Vec<usize> = w.reason().split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
                    if !nums.contains(n) || !nums.contains(&lim.map(|l| l.0).unwrap_or(64)) {
                        return Err(format!("string of {n} lines under {lim:?}, but the warning says {}", w.reason()));
                    }
                    if w.reason().contains("default") != lim.is_none() {
                        return Err(format!("a limit of {lim:?}, but the warning says {}", w.reason()));
                    }
                    let rel: Vec<(usize, usize)> = w.related().map(|x| (x.1.start, x.1.end)).collect();
                    let want: Vec<(usize, usize)> = lim.iter().map(|l| l.1).collect();
                    if rel != want {
                        return Err(format!("the warning points at {rel:?}, but the option is at {want:?}"));
                    }
                }
                if let Some((_, l)) = left.first() {
                    return Err(format!("no warning for the string of {} lines at {:?}, limit {:?}", l.1, l.0, l.2));
                }
                // unaffected
                let mut all: Vec<String> = b.strings.clone();
                if let Some(x) = &inc {
                    all.extend(x.strings.clone());
                }
                let mut got: Vec<String> = vec![];
                for d in &p.directives {
                    let mut meta = |m: &Metadata| {
                        for (_, v) in m.key_values() {
                            if let MetaValue::Simple(SimpleValue::String(s)) = v.item() {
                                got.push(s.to_string());
                            }
                        }
                    };
                    meta(d.metadata());
                    if let DirectiveVariant::Transaction(x) = d.variant() {
                        for q in x.postings() {
                            meta(q.metadata());
                        }
                    }
                    use DirectiveVariant::*;
                    match d.variant() {
                        Note(x) => got.push(x.comment().to_string()),
                        Transaction(x) => {
                            got.extend(x.payee().map(|s| s.to_string()));
                            got.extend(x.narration().map(|s| s.to_string()));
                            for q in x.postings() {
                                got.extend(q.cost_spec().and_then(|c| c.label().map(|s| s.to_string())));
                            }
                        }
                        Event(x) => got.extend([x.event_type().to_string(), x.description().to_string()]),
                        Query(x) => got.extend([x.name().to_string(), x.content().to_string()]),
                        Custom(x) => {
                            got.push(x.type_().to_string());
                            for v in x.values() {
                                if let MetaValue::Simple(SimpleValue::String(s)) = v.item() {
                                    got.push(s.to_string());
                                }
                            }
                        }
                        Document(x) => got.push(x.path().to_string()),
                        _ => {}
                    }
                }
                got.extend(p.options.title().map(|s| s.item().to_string()));
                for q in &p.plugins {
                    got.push(q.module_name().to_string());
                    got.extend(q.config().map(|s| s.to_string()));
                }
                got.sort();
                all.sort();
                if got == all { Ok(()) } else { Err("the strings are not those written".into()) }
            })
        });
    }
}
