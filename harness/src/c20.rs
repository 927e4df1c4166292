//! C20: every directive carries exactly the fields as written
use crate::core::*;
use crate::gen::*;
use beancount_parser_lima::*;

pub fn run(cx: &mut Ctx) {
    cx.rule = "ledgers of one to six directives of every kind, each field and option present or absent, cost specifications, price annotations, metadata on directives and postings, comments and blank lines between, LF and CRLF, multi-line strings; \
               expected: exactly the facts written, with positions; non-trivial: five facts or more"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC20);
    for i in 0..cx.scale(6000, 250000) {
        if !cx.go() {
            break;
        }
        let mut c = Cfg::new();
        c.crlf = r.p(20);
        c.multiline = r.p(20);
        c.noise_p = *r.pick(&[0usize, 0, 15, 40]);
        c.kinds = if i % 3 == 0 { vec!["transaction"] } else { KINDS.to_vec() };
        c.tag_p = *r.pick(&[0usize, 30, 80]);
        c.meta_p = *r.pick(&[0usize, 35, 80]);
        c.cost_p = *r.pick(&[0usize, 30, 80]);
        let mut w = W::default();
        let mut want: Vec<(Vec<Fact>, Sp)> = vec![];
        for k in 0..r.range(1, 6) {
            // increasing dates, so that the order is as written
            c.dates = vec![format!("{:04}{}{:02}{}{:02}", 1990 + k, *r.pick(&["-", "/"]), r.range(1, 12), *r.pick(&["-", "/"]), r.range(1, 28))];
            let a = w.out.len();
            w.directive(&mut r, &c);
            want.push((w.facts.clone(), (a, w.out.len())));
        }
        let text = w.out.clone();
        let clean = c.noise_p == 0;
        let nt = want.iter().any(|x| x.0.len() >= 5);
        cx.case(&text, nt, || {
            let s = BeancountSources::from(text.as_str());
            with_parse(&s, |_, res| {
                let p = res.as_ref().map_err(|e| format!("refused: {}", errs(e)))?;
                if p.directives.len() != want.len() {
                    return Err(format!("{} directives, expected {}", p.directives.len(), want.len()));
                }
                for ((f, s), d) in want.iter().zip(&p.directives) {
                    if let Some(x) = diff(f, &facts(d)) {
                        return Err(x);
                    }
                    let (a, b) = (d.span().start, d.span().end);
                    if a != s.0 || b > s.1 || (clean && text[a..b].trim_end() != text[s.0..s.1].trim_end()) {
                        return Err(format!("a directive written at {s:?} has position {a}..{b}"));
                    }
                }
                Ok(())
            })
        });
    }
    // payee and narration, exhaustively over empty and not
    for flag in ["*", "txn", "!", "'A", "#"] {
        for n in 0..3usize {
            for m in 0..1usize << n {
                for tail in ["", " #t ^l", " ; \"comment\""] {
                    let lits: Vec<&str> = (0..n).map(|k| if m >> k & 1 == 1 { ["p", "q"][k] } else { "" }).collect();
                    let t = format!("2020-01-01 {flag}{}{tail}\n", lits.iter().map(|l| format!(" \"{l}\"")).collect::<String>());
                    cx.case(&t, true, || {
                        let s = BeancountSources::from(t.as_str());
                        with_parse(&s, |_, res| {
                            let p = res.as_ref().map_err(|e| format!("refused: {}", errs(e)))?;
                            let DirectiveVariant::Transaction(x) = p.directives[0].variant() else { return Err("not a transaction".into()) };
                            let some = |s: &&str| if s.is_empty() { None } else { Some(s.to_string()) };
                            let payee = if n == 2 { some(&lits[0]) } else { None };
                            let narr = lits.last().and_then(some);
                            let got = (x.payee().map(|s| s.to_string()), x.narration().map(|s| s.to_string()));
                            if got == (payee.clone(), narr.clone()) { Ok(()) } else { Err(format!("payee and narration {got:?}, expected {:?}", (payee, narr))) }
                        })
                    });
                }
            }
        }
    }
}
