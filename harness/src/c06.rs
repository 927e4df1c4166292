//! C06 and C07: pushed tags and metadata apply to exactly the directives in their scope.
//! The same sources with the pragmas blanked out, at the same offsets, say what a directive has of its own.
use crate::core::*;
use crate::gen::*;
use crate::world::*;
use beancount_parser_lima::*;
use std::collections::HashMap;
use std::path::Path;

pub fn run(cx: &mut Ctx, metas: bool) {
    cx.rule = format!(
        "random ledgers over 1-4 files, pushing and popping {} from small pools (nested, repeated, interleaved, unbalanced), among directives with and without {0} of their own; \
         expected: what the same text with those pragmas blanked out gives, plus the pushes in force by a stack model, positions included; errors at unmatched pops and leftover pushes, no others; \
         non-trivial: some directive is in the scope of a push",
        if metas { "metadata" } else { "tags" }
    );
    let mut r = Rng::new(cx.seed ^ if metas { 0xC07 } else { 0xC06 });
    let n = cx.scale(1500, 40000);
    for _ in 0..n {
        if !cx.go() {
            break;
        }
        let mut c = Cfg::new();
        c.tags.truncate(r.range(1, 4));
        c.keys.truncate(r.range(1, 4));
        c.cost_p = 0;
        c.max_postings = 2;
        c.tag_p = if metas { 10 } else { 50 };
        c.meta_p = if metas { 60 } else { 20 };
        c.crlf = r.p(10);
        let w = Weights {
            dir: 45,
            tag: if metas { 0 } else { 45 },
            meta: if metas { 45 } else { 0 },
            include: 12,
            bad_include: 0,
            plugin: 0,
            bad: 0,
            warn: 0,
            max_files: *r.pick(&[1, 1, 2, 4]),
            max_items: *r.pick(&[3, 8, 16, 30]),
            graph: false,
            balance: 70,
        };
        let sc = Scratch::new();
        let world = generate(&mut r, &c, &w, &sc.0);
        let m = meaning(&world);
        let nt = m.dirs.iter().any(|d| !d.tags.is_empty() || !d.metas.is_empty());
        let desc = world.describe();
        cx.case(&desc, nt, || check(&world, &m, &sc.0, metas));
    }
}

type Key = (usize, usize);
fn collect(world: &World, root: &Path, s: &BeancountSources, x: &ParseSuccess) -> HashMap<Key, (Vec<Fact>, Vec<(String, Span)>, Vec<(String, Span)>)> {
    let mut h = HashMap::new();
    for d in &x.directives {
        if let Some(f) = world.file_of(root, s, d.span()) {
            let t = d.item().metadata().tags().map(|t| (t.item().as_ref().to_string(), *t.span())).collect();
            let k = d.item().metadata().key_values().map(|(k, _)| (k.item().as_ref().to_string(), *k.span())).collect();
            let mut fs = facts(d);
            for x in &mut fs {
                // an absent value has no position of its own
                if x.val == "null" {
                    x.span = None;
                }
            }
            h.insert((f, d.span().start), (fs, t, k));
        }
    }
    h
}

fn check(world: &World, m: &Meaning, root: &Path, metas: bool) -> Result<(), String> {
    // without the pragmas
    let blank = World {
        files: world
            .files
            .iter()
            .map(|(n, items, t)| {
                let mut b = t.clone().into_bytes();
                for i in items {
                    if let Item::Push(_, a) | Item::Pop(_, a) | Item::PushMeta(_, _, _, a) | Item::PopMeta(_, a) = i {
                        b[a.outer.0..a.outer.1].fill(b' ');
                    }
                }
                (n.clone(), items.clone(), String::from_utf8(b).unwrap())
            })
            .collect(),
        extra: vec![],
        links: vec![],
        dirs: world.dirs.clone(),
    };
    blank.write(root);
    let s0 = BeancountSources::try_from(root.join("main.b")).map_err(|e| e.to_string())?;
    let base = with_parse(&s0, |s, r| r.as_ref().ok().map(|x| collect(&blank, root, s, x)));
    let Some(base) = base else { return Ok(()) }; // not about pragmas
    world.write(root);
    let s1 = BeancountSources::try_from(root.join("main.b")).map_err(|e| e.to_string())?;
    with_parse(&s1, |s, r| match r {
        Err(e) => {
            let all = error_spans(e);
            let rest = world.match_errors(root, s, &all, if metas { &m.meta_errors } else { &m.tag_errors }, "an unbalanced push or pop")?;
            let mut rest = rest;
            for alts in &m.meta_leftover {
                // one report at least per key, at any of its outstanding pushes
                let n = rest.len();
                rest.retain(|(x, _)| !alts.iter().any(|a| world.covers(root, s, x, a)));
                if rest.len() == n {
                    return Err(format!("no error for the push never popped at {:?}", alts[0]));
                }
            }
            if m.ok() || !rest.is_empty() {
                return Err(format!("errors not to be expected: {rest:?}"));
            }
            Ok(())
        }
        Ok(x) => {
            if !m.ok() {
                return Err(format!("unbalanced pushes or pops not reported: {:?} {:?} {:?}", m.tag_errors, m.meta_errors, m.meta_leftover));
            }
            let act = collect(world, root, s, x);
            for d in &m.dirs {
                let key = (d.file, d.at.0);
                let (Some(b), Some(a)) = (base.get(&key), act.get(&key)) else { continue };
                let mut exp = b.0.clone();
                for (t, _) in &d.tags {
                    exp.push(fact("tag", t.clone(), None));
                }
                for (k, v, vs, _) in &d.metas {
                    exp.push(fact("keyat", k.clone(), None));
                    exp.push(fact(format!("key.{k}"), v.clone(), if v == "null" { None } else { Some(*vs) }));
                }
                if let Some(e) = diff(&exp, &a.0) {
                    return Err(format!("directive at byte {} of {}: {e}", d.at.0, world.files[d.file].0));
                }
                for (t, at) in &d.tags {
                    let p = a.1.iter().find(|x| x.0 == *t).unwrap();
                    if !world.covers(root, s, &p.1, at) {
                        return Err(format!("tag {t} of directive at byte {} of {} is at {:?}, not at its last push {at:?}", d.at.0, world.files[d.file].0, p.1));
                    }
                }
                for (k, _, _, at) in &d.metas {
                    let p = a.2.iter().find(|x| x.0 == *k).unwrap();
                    if !world.covers(root, s, &p.1, at) {
                        return Err(format!("key {k} of directive at byte {} of {} is at {:?}, not at its last push {at:?}", d.at.0, world.files[d.file].0, p.1));
                    }
                }
            }
            Ok(())
        }
    })
}
