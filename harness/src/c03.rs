//! C03: synthetic spans keep denoting their fragment as more are added
use crate::c02::{check, expect, text, wild};
use crate::core::*;
use beancount_parser_lima::*;

pub fn run(cx: &mut Ctx) {
    cx.rule = "histories of up to 14 registrations of random Unicode fragments (also empty and blank) under up to 5 names, every span so far resolved after every registration, \
               real-source spans and arbitrary triples resolved with and without; non-trivial: at least 3 registrations under one name"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC03);
    for i in 0..cx.scale(4000, 200000) {
        if !cx.go() {
            break;
        }
        let scratch;
        let root = text(&mut r, 20);
        let steps: Vec<(String, String)> = (0..r.range(1, 14)).map(|_| (name(&mut r), if r.p(8) { String::new() } else { text(&mut r, 12) })).collect();
        let probes: Vec<Span> = (0..12).map(|_| Span { source: if r.p(10) { wild(&mut r, 9) } else { r.n(9) }, start: wild(&mut r, 15), end: wild(&mut r, 15) }).collect();
        let nt = steps.iter().any(|n| steps.iter().filter(|s| s.0 == n.0).count() >= 3);
        let b = if i % 25 == 3 {
            scratch = Scratch::new();
            std::fs::write(scratch.0.join("a.bean"), text(&mut r, 20)).unwrap();
            std::fs::write(scratch.0.join("r.bean"), format!("{}\ninclude \"a.bean\"\n", root.replace('"', "q"))).unwrap();
            BeancountSources::try_from(scratch.0.join("r.bean")).unwrap()
        } else {
            BeancountSources::from(root.as_str())
        };
        cx.case(&format!("root {root:?} registrations {steps:?}"), nt, || {
            let mut syn = SyntheticSources::new(&b);
            let mut held: Vec<(String, String)> = vec![]; // name, text
            let mut spans: Vec<(Span, String, String)> = vec![];
            let base = if i % 25 == 3 { 2 } else { 1 };
            for (n, t) in &steps {
                let sp = syn.create_synthetic_span(n, t);
                match held.iter_mut().find(|h| h.0 == *n) {
                    Some(h) => h.1.push_str(t),
                    None => held.push((n.clone(), t.clone())),
                }
                spans.push((sp, n.clone(), t.clone()));
                for (sp, n, t) in &spans {
                    let got = syn.resolve_span(sp);
                    let tt = t.trim_end();
                    let tt = if tt.is_empty() { t.as_str() } else { tt };
                    if got.content != tt || got.file_name != Some(n.as_str()) {
                        return Err(format!("fragment {t:?} of {n:?} (span {sp:?}) resolves to {:?} of {:?}", got.content, got.file_name));
                    }
                    let whole = &held.iter().find(|h| h.0 == *n).unwrap().1;
                    check(&got, &expect(whole, sp.start, sp.end)).map_err(|m| format!("fragment {t:?} of {n:?}: {m}"))?;
                    let er = spanned(Tag::try_from("t").unwrap(), *sp).error("reason");
                    if syn.error_source_text(&er) != tt {
                        return Err(format!("error text of fragment {t:?} is {:?}", syn.error_source_text(&er)));
                    }
                }
                for (k, (n, whole)) in held.iter().enumerate() {
                    for q in &probes {
                        let sp = Span { source: base + k, ..*q };
                        let got = syn.resolve_span(&sp);
                        check(&got, &expect(whole, sp.start, sp.end)).map_err(|m| format!("span {sp:?} of {n:?} {whole:?}: {m}"))?;
                        if got.file_name != Some(n.as_str()) {
                            return Err(format!("span {sp:?}: name {:?}, expected {n:?}", got.file_name));
                        }
                    }
                }
                for q in &probes {
                    if q.source >= base && q.source < base + held.len() {
                        continue;
                    }
                    let (x, y) = (syn.resolve_span(q), b.resolve_span(q));
                    if (x.content, x.start_line, x.end_line) != (y.content, y.start_line, y.end_line) {
                        return Err(format!("span {q:?}: {:?} {}..{} with, {:?} {}..{} without synthetic sources", x.content, x.start_line, x.end_line, y.content, y.start_line, y.end_line));
                    }
                    if q.source < base && y.file_name.is_some() && x.file_name != y.file_name {
                        return Err(format!("span {q:?}: file {:?} with, {:?} without synthetic sources", x.file_name, y.file_name));
                    }
                    if q.source >= base + held.len() && (x.content, x.start_line, x.end_line) != ("", 1, 1) {
                        return Err(format!("span {q:?}, of no source, resolves to {:?}", x.content));
                    }
                }
            }
            Ok(())
        });
    }
}

/// few names, so that they recur, and names that nearly coincide
fn name(r: &mut Rng) -> String {
    let mut n = r.pick(&["syn", "plugin é", "x", "inline", ""]).to_string();
    if r.p(15) {
        let c = (32 + r.n(95)) as u8 as char;
        if r.p(50) { n.push(c) } else { n.insert(0, c) }
    }
    if r.p(5) { n = n.to_uppercase(); }
    n
}
