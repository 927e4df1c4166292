//! C17: includes
use crate::core::*;
use crate::gen::*;
use crate::world::*;
use beancount_parser_lima::*;
use std::path::{Path, PathBuf};

pub fn run(cx: &mut Ctx) {
    cx.rule = "random ledgers over 2-7 files in several directories including each other arbitrarily (repeated, cyclic, by relative, dotted, absolute, single-match pattern and linked paths), some below a directory with pattern characters in its name, under changing pushed tags and metadata, \
               with missing, unreadable and ill-formed includes; files and directories without permission, read as an unprivileged user; root given by absolute or relative path; expected: depth-first order of first includes, errors exactly at failing includes and repetitions in another context; \
               and patterns matching several files, compared irrespective of order; non-trivial: some file is included"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC17);
    let n = cx.scale(1500, 40000);
    for i in 0..n {
        if !cx.go() {
            break;
        }
        if i % 10 == 9 {
            globs(cx, &mut r);
            inline(cx, &mut r);
            if i % 50 == 9 {
                denied(cx, &mut r);
            }
            continue;
        }
        let mut c = Cfg::new();
        c.dates.truncate(1);
        c.kinds = vec!["note", "event", "custom", "close", "price"];
        c.tag_p = 5;
        c.meta_p = 5;
        c.tags.truncate(2);
        c.keys.truncate(2);
        let ctx = r.p(50);
        let w = Weights {
            dir: 40,
            tag: if ctx { 10 } else { 0 },
            meta: if ctx { 10 } else { 0 },
            include: 35,
            bad_include: if r.p(30) { 6 } else { 0 },
            plugin: 0,
            bad: 0,
            warn: 0,
            max_files: r.range(2, NAMES.len()),
            max_items: *r.pick(&[2, 4, 8]),
            graph: true,
            balance: 100,
        };
        let sc = Scratch::new();
        let base = if r.p(15) { sc.0.join(*r.pick(&["we [i]rd", "st*r", "a[]b", "[!a]?"])) } else { sc.0.clone() };
        let world = generate(&mut r, &c, &w, &base);
        let m = meaning(&world);
        let nt = m.dirs.iter().any(|d| d.file > 0);
        let desc = format!("{}in {:?}", world.describe(), base.file_name().filter(|_| base != sc.0));
        let rel = r.n(3);
        cx.case(&desc, nt, || {
            std::fs::create_dir_all(&base).unwrap();
            world.write(&base);
            let old = std::env::current_dir().unwrap();
            let root = match rel {
                0 => base.join("main.b"),
                1 => {
                    std::env::set_current_dir(&base).unwrap();
                    PathBuf::from("main.b")
                }
                _ => {
                    std::env::set_current_dir(base.join("sub")).unwrap();
                    PathBuf::from("../main.b")
                }
            };
            let r = check(&world, &m, &base, root);
            std::env::set_current_dir(old).unwrap();
            r
        });
    }
}

fn check(world: &World, m: &Meaning, dir: &Path, root: PathBuf) -> Result<(), String> {
    let s = BeancountSources::try_from(root).map_err(|e| e.to_string())?;
    with_parse(&s, |s, r| match r {
        Ok(x) => {
            if !m.include_errors.is_empty() {
                return Err(format!("includes not reported: {:?}", m.include_errors));
            }
            let got: Vec<(Option<usize>, usize)> = x.directives.iter().map(|d| (world.file_of(dir, s, d.span()), d.span().start)).collect();
            let want: Vec<(Option<usize>, usize)> = m.dirs.iter().map(|d| (Some(d.file), d.at.0)).collect();
            if got != want {
                return Err(format!("directives (file, offset) {got:?}, expected {want:?}"));
            }
            Ok(())
        }
        Err(e) => {
            // only what is reported at includes matters here
            let mut includes = vec![];
            for (_, items, _) in &world.files {
                for i in items {
                    if let Item::Include(_, a) = i {
                        includes.push(a.clone());
                    }
                }
            }
            let all: Vec<(Span, String)> = error_spans(e).into_iter().filter(|(x, _)| includes.iter().any(|a| world.within(dir, s, x, a))).collect();
            let rest = world.match_errors(dir, s, &all, &m.include_errors, "a failing include")?;
            if !rest.is_empty() {
                return Err(format!("includes reported without cause: {rest:?}"));
            }
            if m.ok() {
                return Err(format!("failed without cause: {}", errs(e)));
            }
            Ok(())
        }
    })
}

/// one pattern matching several files, some of them hidden or below
fn globs(cx: &mut Ctx, r: &mut Rng) {
    let sc = Scratch::new();
    let pool = ["d/x1.b", "d/x2.b", "d/x3.b", "d/.x4.b", "d/y1.b", "d/x1.c", "d/e/x5.b", "d/e/f/x6.b", "d/x[7].b", "d/xé.b"];
    let (pat, ok): (&str, fn(&str) -> bool) = *r.pick::<(&str, fn(&str) -> bool)>(&[
        ("d/x*.b", |p| p.starts_with("d/x") && p.ends_with(".b")),
        ("d/x?.b", |p| matches!(p, "d/x1.b" | "d/x2.b" | "d/x3.b" | "d/xé.b")),
        ("d/x[12].b", |p| matches!(p, "d/x1.b" | "d/x2.b")),
        ("d/x[!12].b", |p| matches!(p, "d/x3.b" | "d/xé.b")),
        ("d/*", |p| !p[2..].contains('/') && !p.starts_with("d/.")),
        ("d/**/*.b", |p| p.ends_with(".b") && !p.contains("/.")),
        ("d/*/x5.b", |p| p == "d/e/x5.b"),
        ("d/x[[]7].b", |p| p == "d/x[7].b"),
    ]);
    let mut files: Vec<&str> = pool.iter().copied().filter(|_| r.p(60)).collect();
    if pat == "d/*" {
        // a directory would match as well, and cannot be read
        files.retain(|f| !f.starts_with("d/e/"));
    }
    let mut root = format!("include \"{pat}\"\n");
    if r.p(30) {
        root.push_str(&format!("include \"{pat}\"\n"));
    }
    let mut want: Vec<String> = files.iter().filter(|f| ok(f)).map(|f| f.to_string()).collect();
    want.sort();
    let desc = format!("{root}--- with files {files:?}");
    cx.case(&desc, want.len() > 1, || {
        std::fs::create_dir_all(sc.0.join("d")).unwrap();
        if files.iter().any(|f| f.starts_with("d/e/")) {
            std::fs::create_dir_all(sc.0.join("d/e/f")).unwrap();
        }
        for f in &files {
            std::fs::write(sc.0.join(f), format!("2020-01-01 event \"{f}\" \"\"\n")).unwrap();
        }
        std::fs::write(sc.0.join("main.b"), &root).unwrap();
        let s = BeancountSources::try_from(sc.0.join("main.b")).map_err(|e| e.to_string())?;
        with_parse(&s, |_, r| match r {
            Err(e) if want.is_empty() => {
                if e.errors.iter().all(|x| x.span().start >= 8) {
                    Ok(())
                } else {
                    Err(format!("error elsewhere: {}", errs(e)))
                }
            }
            Err(e) => Err(format!("failed: {}", errs(e))),
            Ok(_) if want.is_empty() => Err("a pattern without match is not reported".into()),
            Ok(x) => {
                let mut got: Vec<String> = x
                    .directives
                    .iter()
                    .filter_map(|d| match d.item().variant() {
                        DirectiveVariant::Event(e) => Some(e.event_type().item().to_string()),
                        _ => None,
                    })
                    .collect();
                got.sort();
                if got == want {
                    Ok(())
                } else {
                    Err(format!("files included {got:?}, expected {want:?}"))
                }
            }
        })
    });
}

/// the root given as text: its includes are relative to the working directory, before and after each of them
fn inline(cx: &mut Ctx, r: &mut Rng) {
    const N: [&str; 6] = ["a.b", "x/a.b", "x/b.b", "y/a.b", "y/x/a.b", "x/y/b.b"];
    // what each file (0 is the root) consists of: an event of its own or an include of another file
    let items: Vec<Vec<Option<usize>>> = (0..=N.len()).map(|i| (0..r.range(1, 5)).map(|_| if r.p(55) { let j = r.range(1, N.len()); Some(j).filter(|j| *j != i) } else { None }).collect()).collect();
    let text = |i: usize| -> String {
        items[i].iter().enumerate().map(|(n, x)| match x {
            None => format!("2020-01-01 event \"{i}.{n}\" \"\"\n"),
            Some(j) => format!("include \"{}\"\n", if i == 0 { N[j - 1].to_string() } else { relative(N[i - 1], N[j - 1]) }),
        }).collect()
    };
    fn walk(items: &[Vec<Option<usize>>], i: usize, seen: &mut Vec<usize>, out: &mut Vec<String>) {
        for (n, x) in items[i].iter().enumerate() {
            match x {
                None => out.push(format!("{i}.{n}")),
                Some(j) if seen.contains(j) => {}
                Some(j) => {
                    seen.push(*j);
                    walk(items, *j, seen, out);
                }
            }
        }
    }
    let mut want = vec![];
    walk(&items, 0, &mut vec![], &mut want);
    let desc = (0..=N.len()).map(|i| format!("--- {}\n{}", if i == 0 { "inline" } else { N[i - 1] }, text(i))).collect::<String>();
    cx.case(&desc, want.iter().any(|x| !x.starts_with("0.")), || {
        let sc = Scratch::new();
        for (i, n) in N.iter().enumerate() {
            let p = sc.0.join(n);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, text(i + 1)).unwrap();
        }
        let old = std::env::current_dir().unwrap();
        std::env::set_current_dir(&sc.0).unwrap();
        let r = std::panic::catch_unwind(|| {
            let s = BeancountSources::from(text(0));
            with_parse(&s, |_, r| match r {
                Ok(x) => Ok(x.directives.iter().map(|d| match d.item().variant() {
                    DirectiveVariant::Event(e) => e.event_type().item().to_string(),
                    _ => "?".into(),
                }).collect::<Vec<_>>()),
                Err(e) => Err(format!("errors: {}", errs(e))),
            })
        });
        std::env::set_current_dir(old).unwrap();
        match r {
            Err(_) => Err("panic".into()),
            Ok(Err(e)) => Err(e),
            Ok(Ok(got)) if got == want => Ok(()),
            Ok(Ok(got)) => Err(format!("{got:?}, expected {want:?}")),
        }
    });
}

extern "C" {
    fn setfsuid(uid: u32) -> i32;
}

/// reads files as an unprivileged user, in this thread, while it lives
struct AsNobody;
impl AsNobody {
    fn new() -> Self {
        unsafe { setfsuid(65534) };
        AsNobody
    }
}
impl Drop for AsNobody {
    fn drop(&mut self) {
        unsafe { setfsuid(0) };
    }
}

/// a file or a directory that may not be read is an error at the include that names it, and the rest is included
fn denied(cx: &mut Ctx, r: &mut Rng) {
    use std::os::unix::fs::PermissionsExt;
    let sc = Scratch::new();
    let chmod = |p: &str, m: u32| std::fs::set_permissions(sc.0.join(p), std::fs::Permissions::from_mode(m)).unwrap();
    chmod("", 0o755);
    for d in ["d", "d/open", "d/shut"] {
        std::fs::create_dir_all(sc.0.join(d)).unwrap();
        chmod(d, 0o755);
    }
    for f in ["d/open/a.b", "d/open/b.b", "d/shut/c.b", "e.b"] {
        std::fs::write(sc.0.join(f), "2020-01-01 event \"x\" \"y\"\n").unwrap();
        chmod(f, 0o644);
    }
    let (shut, inc) = *r.pick(&[
        ("d/shut", "d/*/*.b"),
        ("d/shut", "d/shut/*.b"),
        ("d/shut", "d/shut/c.b"),
        ("d/shut/c.b", "d/shut/c.b"),
        ("d/shut/c.b", "d/*/*.b"),
        ("d/shut/c.b", "d/*/c.b"),
        ("d/open/b.b", "d/open/?.b"),
    ]);
    let before = r.p(50);
    let (x, y) = if before { ("include \"e.b\"\n", "") } else { ("", "include \"e.b\"\n") };
    let root = format!("{x}include \"{inc}\"\n{y}");
    let at = x.len();
    let desc = format!("{root}--- with {shut} not to be read");
    cx.case(&desc, true, || {
        std::fs::write(sc.0.join("main.b"), &root).unwrap();
        chmod("main.b", 0o644);
        chmod(shut, 0o000);
        let res = {
            let _n = AsNobody::new();
            let closed = std::fs::File::open(sc.0.join(shut)).is_err();
            let open = std::fs::read(sc.0.join("e.b")).is_ok();
            if closed && open {
                Some(BeancountSources::try_from(sc.0.join("main.b")))
            } else {
                None
            }
        };
        chmod(shut, 0o755);
        let Some(s) = res else { return Ok(()) };
        let s = s.map_err(|e| e.to_string())?;
        with_parse(&s, |_, r| match r {
            Ok(_) => Err("an include that may not be read is not reported".into()),
            Err(e) if e.errors.len() == 1 && e.errors[0].span().start >= at + 8 && e.errors[0].span().end <= at + 8 + inc.len() + 2 => Ok(()),
            Err(e) => Err(format!("instead of one error at the include: {}", errs(e))),
        })
    });
}
