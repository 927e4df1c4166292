//! C02: every span resolves to its own text, lines and file, and never panics
use crate::core::*;
use beancount_parser_lima::*;

pub fn text(r: &mut Rng, max: usize) -> String {
    let n = r.n(max);
    (0..n)
        .map(|_| {
            if r.p(12) {
                return ((32 + r.n(95)) as u8 as char).to_string();
            }
            r.pick(&["a", "b", " ", "\n", "\n", "\t", "\r\n", "é", "€", "🙂", "\u{a0}", "\u{2003}", ";", "x y", "\u{301}", "\u{85}", "\u{0}", "\u{feff}"]).to_string()
        })
        .collect()
}
/// text, start line, end line
pub fn expect(s: &str, a: usize, b: usize) -> (String, usize, usize) {
    match if a <= b { s.get(a..b) } else { None } {
        None => (String::new(), 1, 1),
        Some(t) => {
            let tt = t.trim_end();
            let tt = if tt.is_empty() { t } else { tt };
            let l = |k: usize| s.as_bytes()[..k].iter().filter(|c| **c == b'\n').count() + 1;
            (tt.to_string(), l(a), l(a + tt.len()))
        }
    }
}
pub fn check(s: &SpannedSource, want: &(String, usize, usize)) -> Result<(), String> {
    if (s.content, s.start_line, s.end_line) != (want.0.as_str(), want.1, want.2) {
        return Err(format!("resolved to {:?} lines {}..{}, expected {:?} lines {}..{}", s.content, s.start_line, s.end_line, want.0, want.1, want.2));
    }
    Ok(())
}
pub fn wild(r: &mut Rng, n: usize) -> usize {
    match r.n(12) {
        0 => n,
        1 => n + 1,
        2 => n + r.n(20),
        3 => usize::MAX - r.n(3),
        4 => 1 << 32,
        _ => r.n(n + 1),
    }
}
pub fn resolve_all(b: &BeancountSources, id: usize, s: &str, name: Option<&str>, pairs: &[(usize, usize)]) -> Result<(), String> {
    for (a, e) in pairs {
        let sp = Span { source: id, start: *a, end: *e };
        let want = expect(s, *a, *e);
        let got = b.resolve_span(&sp);
        check(&got, &want).map_err(|m| format!("span {id}:{a}..{e} of {s:?}: {m}"))?;
        if got.file_name != name {
            return Err(format!("span {id}:{a}..{e}: file name {:?}, expected {name:?}", got.file_name));
        }
        let er = spanned(Tag::try_from("t").unwrap(), sp).error("reason");
        let t = b.error_source_text(&er);
        if t != want.0 {
            return Err(format!("error text of span {id}:{a}..{e} of {s:?} is {t:?}, expected {:?}", want.0));
        }
    }
    Ok(())
}
fn pairs(r: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    if n <= 14 {
        (0..=n + 2).flat_map(|a| (0..=n + 2).map(move |b| (a, b))).collect()
    } else {
        (0..40).map(|_| (wild(r, n), wild(r, n))).collect()
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "random Unicode texts (multi-byte, LF/CRLF, all kinds of whitespace), inline and as files reached through includes; spans: all pairs of offsets for short texts, else random, \
               boundary and huge offsets, in every source and in sources which do not exist; also spans of parsed directives; non-trivial: text with a multi-byte character and a newline"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC02);
    let mut scratch = Scratch::new();
    for i in 0..cx.scale(6000, 200000) {
        if !cx.go() {
            break;
        }
        let t = text(&mut r, if i % 2 == 0 { 8 } else { 60 });
        let nt = !t.is_ascii() && t.contains('\n');
        if i % 20 == 7 {
            // files
            if i % 2000 == 7 {
                scratch = Scratch::new();
            }
            let n = r.range(2, 4);
            let names = ["é/a b.bean", "é/x.bean", "é/€/y.bean", "z.bean"];
            std::fs::create_dir_all(scratch.0.join("é/€")).unwrap();
            let root = scratch.0.join("root.beancount");
            let texts: Vec<String> = (0..n).map(|_| text(&mut r, 30)).collect();
            let mut rt = t.replace('"', "q"); // an open string would swallow the includes
            rt.push('\n');
            for (k, x) in texts.iter().enumerate() {
                std::fs::write(scratch.0.join(names[k]), x).unwrap();
                rt.push_str(&format!("include \"{}\"\n", names[k]));
            }
            std::fs::write(&root, &rt).unwrap();
            let case = format!("root {rt:?} files {texts:?}");
            let r2 = &mut r;
            cx.case(&case, nt, || {
                let b = BeancountSources::try_from(root.clone()).map_err(|e| e.to_string())?;
                resolve_all(&b, 0, &rt, root.to_str(), &pairs(r2, rt.len()))?;
                for (k, x) in texts.iter().enumerate() {
                    let p = scratch.0.join(names[k]);
                    resolve_all(&b, k + 1, x, p.to_str(), &pairs(r2, x.len()))?;
                }
                bad_source(&b, n + 1)
            });
        } else {
            let ps = pairs(&mut r, t.len());
            cx.case(&format!("inline {t:?}"), nt, || {
                let b = BeancountSources::from(t.as_str());
                resolve_all(&b, 0, &t, None, &ps)?;
                bad_source(&b, 1)
            });
        }
    }
}
fn bad_source(b: &BeancountSources, n: usize) -> Result<(), String> {
    for id in [n, n + 1, n + 7, u32::MAX as usize, 1 << 32, (1 << 32) + 1, usize::MAX] {
        for (a, e) in [(0, 0), (0, 1), (3, 2), (usize::MAX, usize::MAX)] {
            let sp = Span { source: id, start: a, end: e };
            check(&b.resolve_span(&sp), &(String::new(), 1, 1)).map_err(|m| format!("span {id}:{a}..{e}, of no source: {m}"))?;
            let er = spanned(Tag::try_from("t").unwrap(), sp).error("reason");
            if !b.error_source_text(&er).is_empty() {
                return Err(format!("error text of span {id}:{a}..{e}, of no source, is not empty"));
            }
        }
    }
    Ok(())
}
