//! C01: directives complete, date-ordered, open < balance < others, stable; includes in place
use crate::core::*;
use crate::gen::*;
use beancount_parser_lima::*;
use std::path::{Path, PathBuf};

fn class(kind: &str) -> u8 {
    match kind {
        "open" => 0,
        "balance" => 1,
        _ => 2,
    }
}

type Exp = (String, &'static str, Vec<Fact>);

pub fn run(cx: &mut Ctx) {
    cx.rule = "random ledgers of 0-40 directives of all kinds on 1-7 dates, inline or over up to 6 files with nested includes; \
               expected = declaration order stably sorted by (date, open<balance<rest), every public field compared; \
               non-trivial: at least two directives share a date"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC01);
    let n = cx.scale(2500, 60000);
    for i in 0..n {
        if !cx.go() {
            break;
        }
        let mut c = Cfg::new();
        match r.n(3) {
            0 => {}
            1 => c.dates = near_dates(&mut r),
            _ => {
                let d = near_dates(&mut r);
                c.dates.extend(d);
            }
        }
        r.shuffle(&mut c.dates);
        let nd = r.range(1, 7);
        c.dates.truncate(nd);
        c.meta_p = 10;
        c.tag_p = 10;
        c.crlf = r.p(20);
        if r.p(30) {
            c.kinds = vec!["open", "balance", "note", "price"];
        }
        let size = *r.pick(&[0usize, 1, 2, 5, 12, 25, 40]);
        if i % 4 != 3 {
            let (text, exp) = inline(&mut r, &c, size);
            let nt = nontrivial(&exp);
            cx.case(&text.clone(), nt, || check(&BeancountSources::from(text.as_str()), &exp));
        } else {
            let sc = Scratch::new();
            let mut files = vec![];
            let mut exp = vec![];
            let mut count = 0;
            tree(&mut r, &c, &sc.0, "main.beancount".into(), 0, &mut count, &mut files, &mut exp);
            let desc: String = files.iter().map(|(p, t)| format!("--- {}\n{}", p.display(), t)).collect();
            for (p, t) in &files {
                let full = sc.0.join(p);
                std::fs::create_dir_all(full.parent().unwrap()).unwrap();
                std::fs::write(full, t).unwrap();
            }
            let nt = nontrivial(&exp);
            let root = sc.0.join("main.beancount");
            cx.case(&desc, nt, || {
                let s = BeancountSources::try_from(root).map_err(|e| format!("cannot read root: {e}"))?;
                check(&s, &exp)
            });
        }
    }
}

/// dates close to one another: the same or neighbouring days, months and years, around month and year ends
fn near_dates(r: &mut Rng) -> Vec<String> {
    let (y, m) = (r.range(1, 9999), r.range(1, 12));
    let mut v = vec![];
    for _ in 0..r.range(3, 8) {
        let (mut y2, mut m2) = (y, m);
        match r.n(8) {
            0 => m2 = if m == 12 { y2 += 1; 1 } else { m + 1 },
            1 => m2 = if m == 1 { y2 -= 1; 12 } else { m - 1 },
            2 => y2 = y + 1,
            3 => m2 = r.range(1, 12),
            _ => {}
        }
        if y2 < 1 || y2 > 9999 {
            y2 = y;
        }
        let leap = y2 % 4 == 0 && (y2 % 100 != 0 || y2 % 400 == 0);
        let last = match m2 { 2 => if leap { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
        let d = match r.n(4) {
            0 => r.range(1, 3),
            1 => r.range(1, last),
            _ => last - r.n(3),
        };
        v.push(format!("{y2:04}-{m2:02}-{d:02}"));
    }
    v
}

fn nontrivial(exp: &[Exp]) -> bool {
    exp.iter().enumerate().any(|(i, e)| exp[..i].iter().any(|f| f.0 == e.0))
}

fn inline(r: &mut Rng, c: &Cfg, size: usize) -> (String, Vec<Exp>) {
    let mut w = W::default();
    let mut exp = vec![];
    for _ in 0..size {
        let k = w.directive(r, c);
        let d = w.facts.iter().find(|f| f.path == "date").unwrap().val.clone();
        exp.push((d, k, w.facts.clone()));
    }
    (w.out, exp)
}

#[allow(clippy::too_many_arguments)]
fn tree(r: &mut Rng, c: &Cfg, _root: &Path, path: PathBuf, depth: usize, count: &mut usize, files: &mut Vec<(PathBuf, String)>, exp: &mut Vec<Exp>) {
    let mut w = W::default();
    *count += 1;
    let slot = files.len();
    files.push((path.clone(), String::new()));
    for _ in 0..r.n(10) {
        if depth < 3 && *count < 6 && r.p(25) {
            let sub = r.pick(&["", "sub/", "deep/er/", "../up/"]).to_string();
            // keep within the scratch directory
            let sub = if sub == "../up/" && path.parent().map(|p| p.as_os_str().is_empty()).unwrap_or(true) { "sub/".to_string() } else { sub };
            let rel = format!("{sub}f{}.beancount", *count);
            w.tok(&format!("include \"{rel}\"\n"));
            let target = norm(&path.parent().unwrap_or(Path::new("")).join(&rel));
            tree(r, c, _root, target, depth + 1, count, files, exp);
        } else {
            let k = w.directive(r, c);
            let d = w.facts.iter().find(|f| f.path == "date").unwrap().val.clone();
            exp.push((d, k, w.facts.clone()));
        }
    }
    files[slot].1 = w.out;
}

pub fn norm(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                o.pop();
            }
            c => o.push(c),
        }
    }
    o
}

fn check(s: &BeancountSources, exp: &[Exp]) -> Result<(), String> {
    let mut want: Vec<&Exp> = exp.iter().collect();
    want.sort_by(|a, b| (a.0.as_str(), class(a.1)).cmp(&(b.0.as_str(), class(b.1))));
    with_parse(s, |_, r| match r {
        Err(e) => Err(format!("well-formed ledger rejected: {}", errs(e))),
        Ok(ok) => {
            if ok.directives.len() != want.len() {
                return Err(format!("{} directives declared, {} returned", want.len(), ok.directives.len()));
            }
            for (i, (d, e)) in ok.directives.iter().zip(&want).enumerate() {
                let a = facts(d);
                if let Some(x) = diff(&e.2, &a) {
                    return Err(format!("directive {i} in order should be the {} of {}: {x}", e.1, e.0));
                }
            }
            Ok(())
        }
    })
}
