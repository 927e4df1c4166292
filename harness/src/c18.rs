//! C18: source positions never affect equality, hashing or mapped values
use crate::core::*;
use crate::gen::*;
use beancount_parser_lima::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn span(r: &mut Rng) -> Span {
    let v = [0usize, 1, 2, 7, 100, usize::MAX / 2, usize::MAX];
    Span { source: *r.pick(&v), start: *r.pick(&v), end: *r.pick(&v) }
}

/// everything about two elements with contents a and b
fn pair<T: Clone + PartialEq + Eq + Hash + std::fmt::Debug + std::fmt::Display>(r: &mut Rng, a: T, b: T) -> Result<(), String> {
    let (sa, sb) = (span(r), span(r));
    let (x, y) = (spanned(a.clone(), sa), spanned(b.clone(), sb));
    if (x == y) != (a == b) || (x != y) != (a != b) || (y == x) != (a == b) {
        return Err(format!("{x:?} == {y:?} is {}", x == y));
    }
    if a == b && h(&x) != h(&y) {
        return Err(format!("{x:?} and {y:?} hash differently"));
    }
    if h(&a) != h(&b) && h(&x) == h(&y) {
        return Err(format!("{x:?} and {y:?} hash alike"));
    }
    let set: HashSet<Spanned<T>> = [x.clone()].into_iter().collect();
    if set.contains(&y) != (a == b) {
        return Err(format!("a set with {x:?} {} {y:?}", if set.contains(&y) { "contains" } else { "lacks" }));
    }
    if x.item() != &a || *x.span() != sa || *x != a || x.to_string() != a.to_string() {
        return Err(format!("spanned({a:?}, {sa:?}) is {x:?}"));
    }
    let r1 = x.as_ref();
    if *r1.item() != &a || *r1.span() != sa {
        return Err(format!("as_ref of {x:?} is {r1:?}"));
    }
    let mut seen = vec![];
    let m = x.map(|v| {
        seen.push(v.clone());
        (v.clone(), 7)
    });
    if m.item() != &(a.clone(), 7) || *m.span() != sa || seen != [a.clone()] {
        return Err(format!("map of {x:?} is {m:?}"));
    }
    let mut n = 0;
    let m = x.clone().map_into(|v| {
        n += 1;
        Some(v)
    });
    if m.item().as_ref() != Some(&a) || *m.span() != sa || n != 1 {
        return Err(format!("map_into of {x:?} is {m:?}"));
    }
    let c = x.clone();
    if c.item() != &a || *c.span() != sa {
        return Err(format!("clone of {x:?} is {c:?}"));
    }
    let mut c = x.clone();
    *c = b.clone();
    if c.item() != &b || *c.span() != sa {
        return Err(format!("assigning {b:?} to {x:?} gives {c:?}"));
    }
    if Some(&x).item() != Some(&a) || None::<&Spanned<T>>.item().is_some() {
        return Err(format!("optional item of {x:?}"));
    }
    Ok(())
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "pairs of elements of several types with arbitrary positions; directives parsed twice from the same text at different places in one or two sources, and different directives; \
               expected: the relation of the contents; non-trivial: every pair"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC18);
    for i in 0..cx.scale(4000, 200000) {
        if !cx.go() {
            return;
        }
        let mut q = r.clone();
        r.next();
        cx.case(&format!("pairs {i} of seed {}", cx.seed), true, || {
            let w = ["a", "b", "", "aa", "é"];
            pair(&mut q, 1u32, 1)?;
            let (a, b) = (q.n(3), q.n(3));
            pair(&mut q, a, b)?;
            let (a, b) = (*q.pick(&w), *q.pick(&w));
            pair(&mut q, a, b)?;
            pair(&mut q, a.to_string(), b.to_string())?;
            let t = ["t", "u", "T"];
            let (a, b) = (*q.pick(&t), *q.pick(&t));
            pair(&mut q, Tag::try_from(a).unwrap(), Tag::try_from(b).unwrap())?;
            pair(&mut q, Link::try_from(a).unwrap(), Link::try_from(b).unwrap())?;
            let t = ["USD", "NZD", "USDX"];
            let (a, b) = (*q.pick(&t), *q.pick(&t));
            pair(&mut q, Currency::try_from(a).unwrap(), Currency::try_from(b).unwrap())
        });
    }
    for _ in 0..cx.scale(1500, 60000) {
        if !cx.go() {
            return;
        }
        let mut c = Cfg::new();
        c.max_postings = 3;
        // the same day, so that order is as written
        c.dates = strs(&["2020-01-01"]);
        c.kinds = vec![*r.pick(KINDS)];
        let mut w = W::default();
        w.directive(&mut r, &c);
        let (one, fa) = (w.out.clone(), w.facts.clone());
        let mut w = W::default();
        w.directive(&mut r, &c);
        let (other, fb) = (w.out.clone(), w.facts.clone());
        let pre = *r.pick(&["", "\n\n", "; a comment with é\n", "option \"title\" \"x\"\n"]);
        let text = format!("{one}{pre}{one}{other}");
        let text2 = format!("; elsewhere\n\n{one}");
        cx.case(&format!("{text}--- and\n{text2}"), true, || {
            let (s1, s2) = (BeancountSources::from(text.as_str()), BeancountSources::from(text2.as_str()));
            let (p1, p2) = (BeancountParser::new(&s1), BeancountParser::new(&s2));
            let a = p1.parse().map_err(|e| errs(&e))?;
            let b = p2.parse().map_err(|e| errs(&e))?;
            let (x, y, o, z) = (&a.directives[0], &a.directives[1], &a.directives[2], &b.directives[0]);
            if x.span() == y.span() {
                return Err("two directives at one position".into());
            }
            if x != y || x.item() != y.item() || x != z || y != z {
                return Err(format!("the same directive twice, but not equal: {:?} {:?} {:?}", facts(x), facts(y), facts(z)));
            }
            let strip = |v: &[Fact]| {
                let mut v: Vec<(String, String)> = v.iter().map(|f| (f.path.clone(), f.val.clone())).collect();
                v.sort();
                v
            };
            if strip(&fa) != strip(&fb) && (x == o || x.item() == o.item()) {
                return Err(format!("equal, but {} and {}", one, other));
            }
            // parts
            use DirectiveVariant::*;
            if let (Transaction(p), Transaction(q), Transaction(s)) = (x.variant(), y.variant(), z.variant()) {
                for ((p, q), s) in p.postings().zip(q.postings()).zip(s.postings()) {
                    if p != q || p != s || h(&p.account().to_string()) != h(&q.account().to_string()) {
                        return Err("postings differ".into());
                    }
                }
            }
            for ((k, v), (l, u)) in x.metadata().key_values().flat_map(|a| y.metadata().key_values().map(move |b| (a, b))) {
                if (k == l) != (k.item() == l.item()) || (k == l && h(k) != h(l)) || (v == u) != (v.item() == u.item()) || (k == l && v != u) {
                    return Err(format!("keys {k:?} {l:?}, values {v:?} {u:?}"));
                }
            }
            Ok(())
        });
    }
    // two directives which differ little: a few tokens taken out or exchanged
    for _ in 0..cx.scale(1200, 60000) {
        if !cx.go() {
            return;
        }
        let mut c = Cfg::new();
        c.max_postings = 2;
        c.cost_p = 60;
        c.dates = strs(&["2020-01-01"]);
        let k = *r.pick(KINDS);
        c.kinds = vec![*r.pick(&["transaction", k])];
        let mut w = W::default();
        w.directive(&mut r, &c);
        let one = w.out.clone();
        let mut toks: Vec<(usize, usize)> = vec![];
        for (i, ch) in one.char_indices() {
            let e = i + ch.len_utf8();
            let wordy = |c: char| c.is_alphanumeric() || "-:.#^'_/\"".contains(c);
            match toks.last_mut() {
                Some(t) if wordy(ch) && one[t.0..t.1].chars().all(wordy) => t.1 = e,
                _ => toks.push((i, e)),
            }
        }
        let with = ["*", "!", "@", "@@", "#", "2021-02-03", "USD", "NZD", "1", "2.50", "\"z\"", "TRUE", "FALSE", "NULL", "#t2", "^l2", "Assets:Other", "{", "}", ", *", ", \"lot\"", "-", "~", " "];
        let mut vary: Vec<String> = vec![];
        for _ in 0..24 {
            let k = r.n(toks.len());
            let m = (k + *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4])).min(toks.len());
            let end = if m == 0 { toks[k].0 } else { toks[m - 1].1.max(toks[k].0) };
            let ins = if r.p(50) { "" } else { *r.pick(&with) };
            let t = format!("{}{ins}{}", &one[..toks[k].0], &one[end..]);
            if t != one {
                vary.push(t);
            }
        }
        let input = format!("{one}--- and one of\n{}", vary.join("---\n"));
        cx.case(&input, true, || {
            let s1 = BeancountSources::from(one.as_str());
            let p1 = BeancountParser::new(&s1);
            let a = p1.parse().map_err(|e| errs(&e))?;
            let x = &a.directives[0];
            let strip = |d: &Spanned<Directive>| {
                let mut v: Vec<(String, String)> = facts(d).iter().map(|f| (f.path.clone(), f.val.clone())).collect();
                v.sort();
                v
            };
            let fx = strip(x);
            for t in &vary {
                let s2 = BeancountSources::from(t.as_str());
                let p2 = BeancountParser::new(&s2);
                let Ok(b) = p2.parse() else { continue };
                for y in &b.directives {
                    if strip(y) != fx && (x == y || x.item() == y.item() || y == x || x.variant() == y.variant() && x.metadata() == y.metadata() && x.date() == y.date()) {
                        return Err(format!("equal, but {one} and {t}"));
                    }
                }
            }
            Ok(())
        });
    }
}
