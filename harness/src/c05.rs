//! C05: keywords become keys exactly before a colon; rejected text is re-lexed in place
use crate::c04::show;
use crate::core::*;
use crate::lexgen::*;

pub fn run(cx: &mut Ctx) {
    cx.rule = "lines of keywords, colons, other tokens and rejected text, every keyword before and not before a colon, positions compared; \
               non-trivial: contains a keyword before a colon and one not before a colon"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC05);
    // every keyword in every position relative to a colon
    for (k, d) in KEYWORDS {
        for (l, ld) in [("", ""), ("foo ", "foo"), (": ", ":"), ("x ", "x"), ("1 : ", "")] {
            for s in ["", ":", " :", "\t: 1", " foo", " : :", "\n:", "; c", " open:"] {
                if l == ": " {
                    continue;
                }
                let _ = ld;
                let t = format!("{l}{k}{s}");
                let is_key = s.trim_start_matches([' ', '\t']).starts_with(':');
                let want = if is_key { format!("Key({k:?})") } else { d.to_string() };
                cx.case(&t.clone(), true, || {
                    let got = lex(&t);
                    let at = l.len();
                    match got.iter().find(|g| g.1 == at) {
                        Some(g) if g.0 == want && g.2 == at + k.len() => Ok(()),
                        o => Err(format!("expected {want} at {at}..{}, got {o:?} of {}", at + k.len(), show(&got))),
                    }
                });
            }
        }
    }
    for _ in 0..cx.scale(30000, 1500000) {
        if !cx.go() {
            break;
        }
        let mut t = String::new();
        let mut here: Vec<Tok> = vec![];
        let n = r.range(1, 12);
        let mut at_start = true;
        for k in 0..n {
            let p = if !at_start && r.p(35) { one(":", "Colon") } else { piece(&mut r, 45, 25) };
            if k == 0 && p.0.starts_with(':') {
                continue;
            }
            if !at_start {
                t.push_str(if p.0 == ":" && here.last().map(|h| h.0.starts_with("Key") || KEYWORDS.iter().any(|k| k.1 == h.0)).unwrap_or(false) {
                    r.pick(&["", " ", "\t"])
                } else {
                    r.pick(&[" ", "  ", "\t"])
                });
            } else if k > 0 && "*!&#?%:".contains(p.0.chars().next().unwrap()) {
                continue;
            }
            let o = t.len();
            t.push_str(&p.0);
            here.extend(p.1.iter().map(|(d, a, b)| (d.clone(), a + o, b + o)));
            at_start = false;
            if r.p(12) {
                let o = t.len();
                t.push('\n');
                here.push(("Eol".into(), o, o + 1));
                at_start = true;
            }
        }
        let want: Vec<Tok> = keyed(&here);
        let nt = here.iter().zip(&want).any(|(a, b)| a != b) && want.iter().any(|w| KEYWORDS.iter().any(|k| k.1 == w.0));
        cx.case(&t.clone(), nt, || {
            let f = |v: &[Tok]| -> Vec<Tok> { v.iter().filter(|t| t.0 != "Eol").cloned().collect() };
            let got = lex(&t);
            if f(&got) != f(&want) {
                return Err(format!("expected {}, got {}", show(&f(&want)), show(&f(&got))));
            }
            Ok(())
        });
    }
}
