//! C13: tags, links, keys, currencies: all kept, no duplicates
use crate::core::*;
use crate::gen::*;
use beancount_parser_lima::*;

struct Elem {
    // (kind, name) -> spans, in order written
    seen: Vec<(&'static str, String, Vec<Sp>)>,
}
impl Elem {
    fn add(&mut self, k: &'static str, n: &str, s: Sp) {
        match self.seen.iter_mut().find(|x| x.0 == k && x.1 == n) {
            Some(x) => x.2.push(s),
            None => self.seen.push((k, n.to_string(), vec![s])),
        }
    }
}

fn tag_or_link(w: &mut W, r: &mut Rng, e: &mut Elem, pool: &[&str]) {
    let t = *r.pick(pool);
    let (k, c) = if r.p(60) { ("tag", '#') } else { ("link", '^') };
    let s = w.tok(&format!("{c}{t}"));
    e.add(k, t, s);
}
fn meta(w: &mut W, r: &mut Rng, c: &Cfg, e: &mut Elem, pre: &str, pool: &[&str], n: usize) {
    for _ in 0..n {
        w.tok(*r.pick(&["  ", "    ", "\t"]));
        if r.p(50) {
            let k = *r.pick(&["foo", "bar", "fo", "open", "fooo", "foO", "zz-top", "n1", "n2", "n3"]);
            let s = w.tok(k);
            w.tok(": ");
            let fresh = !e.seen.iter().any(|x| x.0 == "key" && x.1 == k);
            e.add("key", k, s);
            let (v, vs, _) = w.metaval(r, c, false);
            if fresh {
                w.fact(format!("{pre}key.{k}"), v, Some(vs));
                w.fact(format!("{pre}keyat"), k, Some(s));
            }
        } else {
            tag_or_link(w, r, e, pool);
        }
        w.eol(r, c);
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "directives of every kind with up to 6 tags and links on the first line and up to 8 metadata lines, postings with their own, opens with up to 6 currencies, from small pools; \
               expected: exactly the distinct ones when nothing repeats, and otherwise an error for each repeated one, at one of its places, and no other; \
               the same tag on a directive and its posting, or as tag and as link, is no repetition; non-trivial: two or more attached"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC13);
    let wide = ["a", "b", "aa", "c1", "d-d", "e_e", "f/g", "h.i", "A", "B", "C", "D9", "trip", "Trip"];
    for _ in 0..cx.scale(5000, 200000) {
        if !cx.go() {
            break;
        }
        let mut c = Cfg::new();
        c.noise_p = 10;
        let nd = r.range(1, 3);
        let mut w = W::default();
        let mut elems: Vec<Elem> = vec![];
        let mut want: Vec<Vec<Fact>> = vec![];
        for di in 0..nd {
            let pool = &wide[..if r.p(60) { wide.len() } else { 4 }];
            w.facts.clear();
            let mut e = Elem { seen: vec![] };
            let kind = *r.pick(&["open", "open", "transaction", "transaction", "close", "price", "note", "commodity", "balance", "pad", "event", "query", "document", "custom"]);
            w.tok(&format!("2020-01-0{} ", di + 1));
            match kind {
                "open" => {
                    w.tok("open Assets:A");
                    let cp = &["USD", "NZD", "GBP", "EUR", "V", "A1"][..if r.p(70) { 6 } else { 3 }];
                    for k in 0..r.n(7) {
                        w.tok(if k == 0 { " " } else { *r.pick(&[", ", ",", " , "]) });
                        let x = *r.pick(cp);
                        let s = w.tok(x);
                        e.add("currency", x, s);
                    }
                }
                "transaction" => {
                    w.tok("* \"n\"");
                }
                "close" => {
                    w.tok("close Assets:A");
                }
                "price" => {
                    w.tok("price USD 1 NZD");
                }
                "note" => {
                    w.tok("note Assets:A \"x\"");
                }
                "commodity" => {
                    w.tok("commodity USD");
                }
                "balance" => {
                    w.tok("balance Assets:A 1 USD");
                }
                "pad" => {
                    w.tok("pad Assets:A Assets:B");
                }
                "event" => {
                    w.tok("event \"a\" \"b\"");
                }
                "custom" => {
                    w.tok("custom \"a\" 1");
                }
                "query" => {
                    w.tok("query \"a\" \"b\"");
                }
                _ => {
                    w.tok("document Assets:A \"p\"");
                }
            }
            for _ in 0..(if kind == "custom" { 0 } else { *r.pick(&[0usize, 0, 1, 2, 3, 6]) }) {
                w.tok(" ");
                tag_or_link(&mut w, &mut r, &mut e, pool);
            }
            w.eol(&mut r, &c);
            let n = *r.pick(&[0usize, 0, 1, 2, 3, 8]);
            meta(&mut w, &mut r, &c, &mut e, "", pool, n);
            elems.push(e);
            let di0 = elems.len() - 1;
            if kind == "transaction" {
                for i in 0..r.n(3) {
                    let mut e = Elem { seen: vec![] };
                    w.tok("  Assets:A 1 USD");
                    w.eol(&mut r, &c);
                    let n = *r.pick(&[0usize, 1, 2, 4]);
                    let pre = format!("p{i}.");
                    meta(&mut w, &mut r, &c, &mut e, &pre, pool, n);
                    for (k, n, s) in &e.seen {
                        if *k != "key" {
                            w.facts.push(fact(format!("{pre}{k}"), n.clone(), Some(s[0])));
                        }
                    }
                    elems.push(e);
                }
            }
            for (k, n, s) in &elems[di0].seen {
                if *k != "key" {
                    w.facts.push(fact(*k, n.clone(), Some(s[0])));
                }
            }
            want.push(w.facts.clone());
        }
        let dups: Vec<(&str, String, Vec<Sp>)> = elems.iter().flat_map(|e| e.seen.iter()).filter(|x| x.2.len() > 1).cloned().collect();
        let nontrivial = elems.iter().any(|e| e.seen.len() > 1);
        let text = w.out.clone();
        cx.case(&text, nontrivial, || {
            let s = BeancountSources::from(text.as_str());
            with_parse(&s, |_, res| match res {
                Ok(p) => {
                    if let Some(d) = dups.first() {
                        return Err(format!("accepted, though {} {} is given {} times, at {:?}", d.0, d.1, d.2.len(), d.2));
                    }
                    if p.directives.len() != want.len() {
                        return Err(format!("{} directives, expected {}", p.directives.len(), want.len()));
                    }
                    for (w, d) in want.iter().zip(&p.directives) {
                        let open = matches!(d.variant(), DirectiveVariant::Open(_));
                        let keep = |f: &Fact| {
                            let l = f.path.trim_start_matches(|c: char| c == 'p' || c.is_ascii_digit()).trim_start_matches('.');
                            f.path == "tag" || f.path == "link" || f.path.starts_with("key") || (open && f.path == "currency") || (f.path.starts_with('p') && (l == "tag" || l == "link" || l.starts_with("key")))
                        };
                        let got: Vec<Fact> = facts(d).into_iter().filter(keep).collect();
                        if let Some(x) = diff(w, &got) {
                            return Err(x);
                        }
                    }
                    Ok(())
                }
                Err(e) => {
                    if dups.is_empty() {
                        return Err(format!("refused, though nothing is given twice: {}", errs(e)));
                    }
                    let all: Vec<(String, Sp)> = e.errors.iter().map(|x| (x.reason().to_string(), (x.span().start, x.span().end))).collect();
                    let hit = |d: &(&str, String, Vec<Sp>), x: &(String, Sp)| {
                        d.2.contains(&x.1) && x.0.starts_with(&format!("duplicate {} ", d.0)) && x.0.trim_end().trim_end_matches(['"', '\'']).ends_with(d.1.as_str())
                    };
                    for d in &dups {
                        if !all.iter().any(|x| hit(d, x)) {
                            return Err(format!("{} {} is given {} times, at {:?}, but not reported: {all:?}", d.0, d.1, d.2.len(), d.2));
                        }
                    }
                    for x in &all {
                        if !dups.iter().any(|d| hit(d, x)) {
                            return Err(format!("unexpected error {x:?}, repeated are {dups:?}"));
                        }
                    }
                    Ok(())
                }
            })
        });
    }
}
