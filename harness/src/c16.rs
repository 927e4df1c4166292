//! C16: success exactly if nothing is wrong; everything wrong is reported; plugins and warnings
use crate::core::*;
use crate::gen::*;
use crate::world::*;
use beancount_parser_lima::*;
use std::path::Path;

pub fn run(cx: &mut Ctx) {
    cx.rule = "random ledgers over 1-5 files with 0-6 planted faults (lexical, syntactic, option, tag, metadata, include) and over-long strings at random places in any file; \
               expected: Err exactly if a fault is reachable, each fault covered by an error within its line, none elsewhere, a warning per over-long string either way, plugins in order of declaration; \
               non-trivial: more than one file or more than one fault"
        .into();
    bulk(cx);
    let mut r = Rng::new(cx.seed ^ 0xC16);
    let n = cx.scale(1500, 40000);
    for _ in 0..n {
        if !cx.go() {
            break;
        }
        let mut c = Cfg::new();
        c.cost_p = 5;
        c.max_postings = 2;
        c.tag_p = 10;
        c.meta_p = 10;
        let faulty = r.p(60);
        let w = Weights {
            dir: 40,
            tag: if faulty { 4 } else { 0 },
            meta: if faulty { 4 } else { 0 },
            include: 12,
            bad_include: if faulty { 3 } else { 0 },
            plugin: 15,
            bad: if faulty { *r.pick(&[2, 6, 12]) } else { 0 },
            warn: if r.p(30) { 4 } else { 0 },
            max_files: *r.pick(&[1, 2, 3, 5]),
            max_items: if r.p(1) { 400 } else { *r.pick(&[2, 5, 12, 20]) },
            graph: false,
            balance: 60,
        };
        let sc = Scratch::new();
        let world = generate(&mut r, &c, &w, &sc.0);
        let m = meaning(&world);
        let faults = m.bad.len() + m.tag_errors.len() + m.meta_errors.len() + m.meta_leftover.len() + m.include_errors.len();
        let nt = world.files.len() > 1 || faults > 1;
        let desc = world.describe();
        cx.case(&desc, nt, || {
            world.write(&sc.0);
            check(&world, &m, &sc.0)
        });
    }
}

fn check(world: &World, m: &Meaning, root: &Path) -> Result<(), String> {
    let s = BeancountSources::try_from(root.join("main.b")).map_err(|e| e.to_string())?;
    with_parse(&s, |s, r| {
        let warnings = match r {
            Ok(x) => {
                if !m.ok() {
                    return Err(format!("success in spite of faults at {:?} {:?} {:?} {:?} {:?}", m.bad, m.tag_errors, m.meta_errors, m.meta_leftover, m.include_errors));
                }
                let p: Vec<(String, Option<String>)> = x
                    .plugins
                    .iter()
                    .map(|p| (p.module_name().item().to_string(), p.config().map(|c| c.item().to_string())))
                    .collect();
                if p != m.plugins {
                    return Err(format!("plugins {p:?}, expected {:?}", m.plugins));
                }
                &x.warnings
            }
            Err(e) => {
                let all = error_spans(e);
                if m.ok() {
                    return Err(format!("failed without a fault: {}", errs(e)));
                }
                for (what, list) in [("malformed line", &m.bad), ("unbalanced tag", &m.tag_errors), ("unbalanced metadata", &m.meta_errors), ("failing include", &m.include_errors)] {
                    for a in list {
                        if !all.iter().any(|(x, _)| near(world, root, s, x, a)) {
                            return Err(format!("{what} not reported at {a:?} of {}: {:?}; reported {all:?}", world.files[a.file].0, world.files[a.file].2.get(a.outer.0..a.outer.1)));
                        }
                    }
                }
                for alts in &m.meta_leftover {
                    if !all.iter().any(|(x, _)| alts.iter().any(|a| near(world, root, s, x, a))) {
                        return Err(format!("push never popped not reported at {:?}", alts[0]));
                    }
                }
                for (x, msg) in &all {
                    let known = m.bad.iter().chain(&m.tag_errors).chain(&m.meta_errors).chain(&m.include_errors).chain(m.meta_leftover.iter().flatten());
                    if !known.clone().any(|a| near(world, root, s, x, a)) {
                        return Err(format!("error where there is no fault: {msg} at {x:?}"));
                    }
                }
                &e.warnings
            }
        };
        let spans: Vec<(Span, String)> = warnings.iter().map(|w| (w.span(), w.message().to_string())).collect();
        let rest = world.match_errors(root, s, &spans, &m.warns, "an over-long string (warning)")?;
        if !rest.is_empty() {
            return Err(format!("warnings not to be expected: {rest:?}"));
        }
        Ok(())
    })
}
/// at the fault, or at the very end of its line
fn near(world: &World, root: &Path, s: &BeancountSources, x: &Span, a: &At) -> bool {
    world.within(root, s, x, &At { file: a.file, outer: (a.outer.0, a.outer.1 + 1), inner: a.inner })
}

/// many faults, warnings and plugins: every one is there, whatever their number
fn bulk(cx: &mut Ctx) {
    for k in [9usize, 17, 33, 65, 101, 129, 257, 513, 1025] {
        let dup = |k: usize| (0..k).map(|i| format!("2020-01-01 open Assets:A{i} #t #t\n")).collect::<String>();
        let opt = |k: usize| (0..k).map(|i| format!("option \"nosuch{i}\" \"x\"\n")).collect::<String>();
        let pop = |k: usize| (0..k).map(|i| format!("poptag #t{i}\n")).collect::<String>();
        let popm = |k: usize| (0..k).map(|i| format!("popmeta t{i}:\n")).collect::<String>();
        let push = |k: usize| (0..k).map(|i| format!("pushtag #t{i}\n")).collect::<String>();
        let pushm = |k: usize| (0..k).map(|i| format!("pushmeta t{i}: 1\n")).collect::<String>();
        let title = |k: usize| (0..k + 1).map(|i| format!("option \"title\" \"{i}\"\n")).collect::<String>();
        let inc = |k: usize| (0..k).map(|i| format!("include \"/nosuch/{i}\"\n")).collect::<String>();
        let syntax = |k: usize| (0..k).map(|i| format!("2020-01-01 open Assets:A{i}\n2020-01-01 nosuch\n2020-01-01 close Assets:A{i}\n")).collect::<String>();
        for (what, text) in [("dup", dup(k)), ("opt", opt(k)), ("pop", pop(k)), ("popm", popm(k)), ("push", push(k)), ("pushm", pushm(k)), ("title", title(k)), ("inc", inc(k)), ("syntax", syntax(k))] {
            if !cx.go() || (what == "syntax" || what == "inc") && k > 300 {
                continue;
            }
            cx.case(&format!("{k} faults of kind {what}:\n{text}"), true, || {
                let s = BeancountSources::from(text.clone());
                with_parse(&s, |_, r| match r {
                    Ok(_) => Err("success".into()),
                    Err(e) if e.errors.len() == k => Ok(()),
                    Err(e) => Err(format!("{} errors instead of {k}", e.errors.len())),
                })
            });
        }
        let long = format!("option \"long_string_maxlines\" \"1\"\n{}", (0..k).map(|i| format!("plugin \"p{i}\"\n2020-01-01 note Assets:A \"a\nb{i}\"\n")).collect::<String>());
        for faulty in [false, true] {
            if !cx.go() {
                break;
            }
            let text = if faulty { format!("{long}poptag #none\n") } else { long.clone() };
            cx.case(&text, true, || {
                let s = BeancountSources::from(text.clone());
                with_parse(&s, |_, r| {
                    let w = match r {
                        Ok(x) if faulty => return Err(format!("success with {} warnings", x.warnings.len())),
                        Ok(x) => {
                            let p: Vec<String> = x.plugins.iter().map(|p| p.module_name().item().to_string()).collect();
                            if p != (0..k).map(|i| format!("p{i}")).collect::<Vec<_>>() {
                                return Err(format!("{} plugins instead of {k}, or in another order", p.len()));
                            }
                            if x.directives.len() != k {
                                return Err(format!("{} directives instead of {k}", x.directives.len()));
                            }
                            &x.warnings
                        }
                        Err(e) if faulty && e.errors.len() == 1 => &e.warnings,
                        Err(e) => return Err(format!("errors: {}", errs(e))),
                    };
                    if w.len() == k { Ok(()) } else { Err(format!("{} warnings instead of {k}", w.len())) }
                })
            });
        }
    }
}
