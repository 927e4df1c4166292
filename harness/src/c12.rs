//! C12: cost specifications keep every component, each at most once
use crate::core::*;
use crate::gen::*;
use beancount_parser_lima::*;

pub fn run(cx: &mut Ctx) {
    cx.rule = "every sequence of up to 3 components of 9 forms, and random ones up to 9 long, on one of several postings; expected: each component's value at its own position, \
               or an error naming each repeated component; non-trivial: two components or more"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC12);
    let mut plans: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..9 {
        plans.push(vec![a]);
        for b in 0..9 {
            plans.push(vec![a, b]);
            for c in 0..9 {
                plans.push(vec![a, b, c]);
            }
        }
    }
    // all distinct, in any order
    for _ in 0..cx.scale(800, 30000) {
        let mut v = vec![];
        match r.n(4) {
            0 => v.extend([0, 3, 6]),
            1 => v.extend([1, 0, 6]),
            2 => v.extend([2, 6]),
            _ => v.push(5),
        }
        v.extend([4, 7, 8]);
        r.shuffle(&mut v);
        let n = r.range(1, v.len());
        if r.p(60) {
            v.truncate(n);
        }
        if r.p(30) {
            let k = r.n(9);
            let at = r.n(v.len() + 1);
            v.insert(at, k);
        }
        plans.push(v);
    }
    for _ in 0..cx.scale(400, 30000) {
        let n = r.range(4, 9);
        plans.push((0..n).map(|_| r.n(9)).collect());
    }
    for plan in plans {
        if !cx.go() {
            break;
        }
        one(cx, &mut r, &plan);
    }
}

fn one(cx: &mut Ctx, r: &mut Rng, plan: &[usize]) {
    let c = Cfg::new();
    let mut w = W::default();
    w.tok("2020-01-01 *\n");
    let mut cd = c.clone();
    cd.cost_p = 50;
    // other postings, with costs of their own
    let np = r.range(1, 3);
    let which = r.n(np);
    let mut counts = [0usize; 6]; // per-unit total currency date label merge
    let names = ["per-unit", "total", "currency", "date", "label", "merge-cost"];
    for i in 0..np {
        if i != which {
            w.posting(r, &cd, &format!("p{i}."));
            continue;
        }
        w.tok("  Assets:Cash 10 USD ");
        let path = format!("p{i}.cost");
        let a = w.tok("{");
        let gap = |r: &mut Rng| *r.pick(&["", " ", "  "]);
        for (j, k) in plan.iter().enumerate() {
            if j > 0 {
                let g = gap(r);
                w.tok(g);
                w.tok(",");
            }
            // a comma between digits would be part of a number
            let g = if j > 0 { *r.pick(&[" ", "  ", "\t"]) } else { gap(r) };
            w.tok(g);
            let st = w.out.len();
            let mut fs: Vec<(usize, String)> = vec![];
            let mut ex = |w: &mut W, r: &mut Rng, which: usize| {
                let d = r.n(2);
                let (t, v) = good_expr(r, d);
                w.tok(&t);
                fs.push((which, dec(v)));
            };
            let mut cur = false;
            match k {
                0 => ex(&mut w, r, 0),
                1 => {
                    w.tok("# ");
                    ex(&mut w, r, 1);
                }
                2 | 5 => {
                    ex(&mut w, r, 0);
                    w.tok(" # ");
                    ex(&mut w, r, 1);
                    cur = *k == 5;
                }
                3 => {
                    w.tok("#");
                    w.tok(" ");
                    ex(&mut w, r, 1);
                    cur = r.p(50);
                }
                4 => {
                    let k = r.pick(&c.dates).clone();
                    w.tok(&k);
                    fs.push((3, canon_date(&k)));
                }
                6 => {
                    if r.p(30) {
                        w.tok("# ");
                    }
                    cur = true;
                }
                7 => {
                    let (l, v) = string_lit(r, false);
                    w.tok(&l);
                    fs.push((4, v));
                }
                _ => {
                    w.tok("*");
                    counts[5] += 1;
                }
            }
            if cur {
                w.tok(" ");
                let k = r.pick(&c.currencies).clone();
                w.tok(&k);
                fs.push((2, k));
            }
            let en = w.out.len();
            let st = if cur && fs.len() == 1 && w.out[st..].starts_with(' ') { st + 1 } else { st };
            for (n, v) in fs {
                counts[n] += 1;
                let f = ["per_unit", "total", "currency", "date", "label"][n];
                w.fact(format!("{path}.{f}"), v, Some((st, en)));
            }
        }
        let g = gap(r);
        w.tok(g);
        let b = w.tok("}");
        w.fact(path.clone(), "", Some((a.0, b.1)));
        if counts[5] > 0 {
            w.fact(format!("{path}.merge"), "", None);
        }
        w.tok("\n");
    }
    let dup: Vec<&str> = (0..6).filter(|i| counts[*i] > 1).map(|i| names[i]).collect();
    let text = w.out.clone();
    let want: Vec<Fact> = w.facts.iter().filter(|f| f.path.contains(".cost")).cloned().collect();
    cx.case(&text, plan.len() > 1, || {
        let s = BeancountSources::from(text.as_str());
        with_parse(&s, |_, res| match res {
            Ok(p) => {
                if !dup.is_empty() {
                    return Err(format!("accepted, though {dup:?} is given more than once"));
                }
                let got: Vec<Fact> = facts(&p.directives[0]).into_iter().filter(|f| f.path.contains(".cost")).collect();
                diff(&want, &got).map_or(Ok(()), Err)
            }
            Err(e) => {
                let m = errs(e);
                if dup.is_empty() {
                    return Err(format!("refused, though each component is given at most once: {m}"));
                }
                for n in names {
                    let said = m.contains(&format!("duplicate {n} field in cost specification"));
                    if said != dup.contains(&n) {
                        return Err(format!("repeated: {dup:?}, but {n} is {}reported: {m}", if said { "" } else { "not " }));
                    }
                }
                Ok(())
            }
        })
    });
}
