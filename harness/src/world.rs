//! ledgers spread over several files, with pragmas, and what they mean
use crate::core::*;
use crate::gen::*;
use beancount_parser_lima::*;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

pub type Range = (usize, usize);
/// a stretch of one of the files
#[derive(Clone, Debug, PartialEq)]
pub struct At {
    pub file: usize,
    pub outer: Range,
    pub inner: Range,
}

#[derive(Clone, Debug)]
pub enum Item {
    Dir(&'static str, Vec<Fact>, Range),
    Push(String, At),
    Pop(String, At),
    PushMeta(String, String, Range, At),
    PopMeta(String, At),
    /// target: Ok(file) or Err: must be reported
    Include(Option<usize>, At),
    Plugin(String, Option<String>, At),
    /// certainly an error somewhere within
    Bad(At),
    /// certainly one warning, the rest being a directive
    Warn(At),
}

#[derive(Clone)]
pub struct Weights {
    pub dir: usize,
    pub tag: usize,
    pub meta: usize,
    pub include: usize,
    pub bad_include: usize,
    pub plugin: usize,
    pub bad: usize,
    pub warn: usize,
    pub max_files: usize,
    pub max_items: usize,
    /// repeated includes, cycles, other spellings
    pub graph: bool,
    /// chance in percent that every outstanding push is popped at the end
    pub balance: usize,
}

pub struct World {
    pub files: Vec<(String, Vec<Item>, String)>,
    pub extra: Vec<(String, Vec<u8>)>,
    pub links: Vec<(String, String)>,
    pub dirs: Vec<String>,
}

pub const NAMES: &[&str] = &["main.b", "a.b", "sub/c.beancount", "sub/deep/d.b", "b b.b", "other/é.b", "sub/e.b"];

/// the pattern which matches this text only
pub fn escaped(s: &str) -> String {
    s.chars().map(|c| if "[]?*".contains(c) { format!("[{c}]") } else { c.to_string() }).collect()
}

/// path of `to` relative to the directory of `from`
pub fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let f = &f[..f.len() - 1];
    let t: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    while k < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
    }
    let mut v = vec![".."; f.len() - k];
    v.extend(&t[k..]);
    v.join("/")
}

pub fn generate(r: &mut Rng, c: &Cfg, w: &Weights, abs_root: &Path) -> World {
    let nf = r.range(1, w.max_files.max(1));
    let mut world = World { files: vec![], extra: vec![], links: vec![], dirs: vec!["sub".into(), "sub/deep".into(), "other".into()] };
    // nesting of pushes is tracked only in order to pop sensibly, in file order
    let mut tags: Vec<String> = vec![];
    let mut keys: Vec<String> = vec![];
    let mut untouched: Vec<usize> = (1..nf).collect();
    for fi in 0..nf {
        let name = NAMES[fi].to_string();
        let mut o = W::default();
        let mut items = vec![];
        let n = r.n(w.max_items + 1);
        let total = w.dir + w.tag + w.meta + w.include + w.bad_include + w.plugin + w.bad + w.warn;
        let mut todo: Vec<usize> = vec![];
        for _ in 0..n {
            let mut k = r.n(total);
            let mut sel = 0;
            for (i, x) in [w.dir, w.tag, w.meta, w.include, w.bad_include, w.plugin, w.bad, w.warn].iter().enumerate() {
                if k < *x {
                    sel = i;
                    break;
                }
                k -= *x;
            }
            todo.push(sel);
        }
        if fi == 0 {
            // reach some of the files from the root
            for _ in 1..nf {
                if w.include > 0 && r.p(60) {
                    todo.insert(r.n(todo.len() + 1), 3);
                }
            }
            if r.p(w.balance) {
                todo.push(99);
            }
        }
        for sel in todo {
            let a = o.out.len();
            match sel {
                0 => {
                    let k = o.directive(r, c);
                    items.push(Item::Dir(k, o.facts.clone(), (a, o.out.len())));
                }
                1 => {
                    let push = tags.is_empty() || r.p(55);
                    let t = if !push && r.p(80) {
                        let i = if r.p(70) { tags.len() - 1 } else { r.n(tags.len()) };
                        tags.remove(i)
                    } else {
                        r.pick(&c.tags).clone()
                    };
                    emit_tag(&mut o, r, c, fi, push, t.clone(), &mut items);
                    if push {
                        tags.push(t);
                    }
                }
                2 => {
                    let push = keys.is_empty() || r.p(55);
                    let t = if !push && r.p(80) {
                        let i = if r.p(70) { keys.len() - 1 } else { r.n(keys.len()) };
                        keys.remove(i)
                    } else {
                        r.pick(&c.keys).clone()
                    };
                    emit_meta(&mut o, r, c, fi, push, t.clone(), &mut items);
                    if push {
                        keys.push(t);
                    }
                }
                3 => {
                    if nf < 2 {
                        continue;
                    }
                    let target = if !w.graph {
                        if untouched.is_empty() || untouched[0] <= fi {
                            untouched.retain(|x| *x > fi);
                            if untouched.is_empty() {
                                continue;
                            }
                        }
                        let i = r.n(untouched.len());
                        untouched.remove(i)
                    } else {
                        r.range(1, nf - 1)
                    };
                    let to = NAMES[target];
                    let rel = relative(&name, to);
                    let sp = match if w.graph { r.n(12) } else { 0 } {
                        0..=4 => rel,
                        5 => format!("./{rel}"),
                        6 => relative(&name, &format!("sub/../{to}")),
                        7 => relative(&name, &format!("sub/deep/../../{to}")),
                        8 => Path::new(&escaped(&abs_root.display().to_string())).join(to).display().to_string(),
                        9 => {
                            // a pattern which matches this file only
                            let i = rel.rfind('.').unwrap();
                            format!("{}[.]{}", &rel[..i], &rel[i + 1..])
                        }
                        10 => {
                            let i = rel.rfind('.').unwrap();
                            format!("{}?{}", &rel[..i], &rel[i + 1..])
                        }
                        _ => {
                            let l = format!("{}.lnk", to);
                            if !world.links.iter().any(|x| x.0 == l) {
                                world.links.push((l.clone(), to.rsplit('/').next().unwrap().to_string()));
                            }
                            relative(&name, &l)
                        }
                    };
                    o.tok("include");
                    o.ws(r);
                    let s = o.tok(&format!("\"{sp}\""));
                    let e = o.out.len();
                    o.eol(r, c);
                    items.push(Item::Include(Some(target), At { file: fi, outer: (a, e), inner: s }));
                }
                4 => {
                    let sp = match r.n(5) {
                        0 => "missing.b".to_string(),
                        1 => "no/such/dir/*.b".to_string(),
                        2 => {
                            let d = "adir.b";
                            let p = Path::new(&name).parent().unwrap().join(d).display().to_string();
                            if !world.dirs.contains(&p) {
                                world.dirs.push(p);
                            }
                            d.to_string()
                        }
                        3 => {
                            let d = "bad-utf8.b";
                            let p = Path::new(&name).parent().unwrap().join(d).display().to_string();
                            if !world.extra.iter().any(|x| x.0 == p) {
                                world.extra.push((p, b"2020-01-01 open Assets:\xff\xfe\n".to_vec()));
                            }
                            d.to_string()
                        }
                        _ => "x***y.b".to_string(),
                    };
                    o.tok("include");
                    o.ws(r);
                    let s = o.tok(&format!("\"{sp}\""));
                    let e = o.out.len();
                    o.eol(r, c);
                    items.push(Item::Include(None, At { file: fi, outer: (a, e), inner: s }));
                }
                5 => {
                    o.tok("plugin");
                    o.ws(r);
                    let (mut l, mut v) = string_lit(r, false);
                    while v.is_empty() {
                        (l, v) = string_lit(r, false);
                    }
                    let s = o.tok(&l);
                    let mut cfg = None;
                    if r.p(40) {
                        o.ws(r);
                        let (l, v) = string_lit(r, false);
                        o.tok(&l);
                        cfg = Some(v);
                    }
                    let e = o.out.len();
                    o.eol(r, c);
                    items.push(Item::Plugin(v, cfg, At { file: fi, outer: (a, e), inner: s }));
                }
                6 => {
                    let b = *r.pick(&[
                        "garbage", "2020-01-01 open Bogus:Account", "2020-01-01 note Assets:Cash", "option \"no_such_option\" \"x\"", "option \"render_commas\" \"maybe\"",
                        "2020-13-01 open Assets:Cash", "2020-01-01 open Assets:Cash USD,USD", "2020-01-01 price USD 1/0 NZD", "2020-01-01 txn \"a\" #t #t", "include", "poptag #never-pushed", "popmeta neverpushed:",
                        "2020-01-01 close Assets:Cash ^l ^l", "2020-01-01 commodity", "2020-01-01 note Assets:Cash \"bad \\q escape\"",
                    ]);
                    o.tok(b);
                    let e = o.out.len();
                    o.out.push('\n');
                    items.push(Item::Bad(At { file: fi, outer: (a, e + 1), inner: (a, e) }));
                    // the parser recovers from a malformed line at the next well formed declaration
                    let a = o.out.len();
                    let k = o.directive(r, c);
                    items.push(Item::Dir(k, o.facts.clone(), (a, o.out.len())));
                }
                7 => {
                    let n = r.range(65, 80);
                    o.tok("2020-01-01 note Assets:Cash");
                    o.ws(r);
                    let s = o.tok(&format!("\"{}\"", vec!["line"; n].join("\n")));
                    let e = o.out.len();
                    o.eol(r, c);
                    items.push(Item::Warn(At { file: fi, outer: (a, e), inner: s }));
                }
                _ => {
                    while let Some(t) = tags.pop() {
                        emit_tag(&mut o, r, c, fi, false, t, &mut items);
                    }
                    while let Some(t) = keys.pop() {
                        emit_meta(&mut o, r, c, fi, false, t, &mut items);
                    }
                }
            }
        }
        if fi == 0 {
            // what other files push is not popped by the root; they start afresh
            tags.clear();
            keys.clear();
        }
        world.files.push((name, items, o.out));
    }
    world
}

fn emit_tag(o: &mut W, r: &mut Rng, c: &Cfg, fi: usize, push: bool, t: String, items: &mut Vec<Item>) {
    let a = o.out.len();
    o.tok(if push { "pushtag" } else { "poptag" });
    o.ws(r);
    let s = o.tok(&format!("#{t}"));
    let e = o.out.len();
    o.eol(r, c);
    let at = At { file: fi, outer: (a, e), inner: s };
    items.push(if push { Item::Push(t, at) } else { Item::Pop(t, at) });
}
fn emit_meta(o: &mut W, r: &mut Rng, c: &Cfg, fi: usize, push: bool, t: String, items: &mut Vec<Item>) {
    let a = o.out.len();
    o.tok(if push { "pushmeta" } else { "popmeta" });
    o.ws(r);
    let s = o.tok(&t);
    o.tok(":");
    if push {
        o.ws(r);
        let (v, vs, _) = o.metaval(r, c, false);
        let e = o.out.len();
        o.eol(r, c);
        items.push(Item::PushMeta(t, v, vs, At { file: fi, outer: (a, e), inner: s }));
    } else {
        let e = o.out.len();
        o.eol(r, c);
        items.push(Item::PopMeta(t, At { file: fi, outer: (a, e), inner: s }));
    }
}

/// a directive as it should come out
pub struct Exp {
    pub kind: &'static str,
    pub date: String,
    pub file: usize,
    pub own: Vec<Fact>,
    pub at: Range,
    pub tags: Vec<(String, At)>,
    /// key, value, where the value is, the push
    pub metas: Vec<(String, String, Range, At)>,
}
#[derive(Default)]
pub struct Meaning {
    pub dirs: Vec<Exp>,
    pub tag_errors: Vec<At>,
    pub meta_errors: Vec<At>,
    /// keys left over: any push of the key may be named
    pub meta_leftover: Vec<Vec<At>>,
    pub include_errors: Vec<At>,
    pub bad: Vec<At>,
    pub warns: Vec<At>,
    pub plugins: Vec<(String, Option<String>)>,
    pub repeats: usize,
}
impl Meaning {
    pub fn ok(&self) -> bool {
        self.tag_errors.is_empty() && self.meta_errors.is_empty() && self.meta_leftover.is_empty() && self.include_errors.is_empty() && self.bad.is_empty()
    }
}

type Tags = BTreeMap<String, Vec<At>>;
type Metas = BTreeMap<String, Vec<(String, Range, At)>>;
type Context = (Vec<(String, usize)>, Vec<(String, Vec<String>)>);
fn context(t: &Tags, m: &Metas) -> Context {
    (
        t.iter().map(|(k, v)| (k.clone(), v.len())).collect(),
        m.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| x.0.clone()).collect())).collect(),
    )
}

pub fn meaning(w: &World) -> Meaning {
    let mut m = Meaning::default();
    let (mut t, mut k) = (Tags::new(), Metas::new());
    let mut seen = HashMap::new();
    walk(w, 0, &mut t, &mut k, &mut seen, &mut m);
    for (_, v) in t {
        m.tag_errors.extend(v);
    }
    for (_, v) in k {
        m.meta_leftover.push(v.into_iter().map(|x| x.2).collect());
    }
    m.dirs.sort_by_key(|d| (d.date.clone(), match d.kind { "open" => 0, "balance" => 1, _ => 2 }));
    m
}

fn walk(w: &World, f: usize, t: &mut Tags, k: &mut Metas, seen: &mut HashMap<usize, Context>, m: &mut Meaning) {
    for i in &w.files[f].1 {
        match i {
            Item::Dir(kind, facts, at) => {
                let own = facts.clone();
                let tags = t
                    .iter()
                    .filter(|(x, _)| !own.iter().any(|f| f.path == "tag" && f.val == **x))
                    .map(|(x, v)| (x.clone(), v.last().unwrap().clone()))
                    .collect();
                let metas = k
                    .iter()
                    .filter(|(x, _)| !own.iter().any(|f| f.path == "keyat" && f.val == **x))
                    .map(|(x, v)| {
                        let l = v.last().unwrap();
                        (x.clone(), l.0.clone(), l.1, l.2.clone())
                    })
                    .collect();
                let date = own.iter().find(|f| f.path == "date").unwrap().val.clone();
                m.dirs.push(Exp { kind, date, file: f, own, at: *at, tags, metas });
            }
            Item::Push(x, at) => t.entry(x.clone()).or_default().push(at.clone()),
            Item::Pop(x, at) => match t.get_mut(x) {
                Some(v) => {
                    v.pop();
                    if v.is_empty() {
                        t.remove(x);
                    }
                }
                None => m.tag_errors.push(at.clone()),
            },
            Item::PushMeta(x, v, vs, at) => k.entry(x.clone()).or_default().push((v.clone(), *vs, at.clone())),
            Item::PopMeta(x, at) => match k.get_mut(x) {
                Some(v) => {
                    v.pop();
                    if v.is_empty() {
                        k.remove(x);
                    }
                }
                None => m.meta_errors.push(at.clone()),
            },
            Item::Include(None, at) => m.include_errors.push(at.clone()),
            Item::Include(Some(g), at) => match seen.get(g) {
                Some(c) => {
                    m.repeats += 1;
                    if *c != context(t, k) {
                        m.include_errors.push(at.clone());
                    }
                }
                None => {
                    seen.insert(*g, context(t, k));
                    walk(w, *g, t, k, seen, m);
                }
            },
            Item::Plugin(n, c, _) => m.plugins.push((n.clone(), c.clone())),
            Item::Bad(at) => m.bad.push(at.clone()),
            Item::Warn(at) => m.warns.push(at.clone()),
        }
    }
}

impl World {
    pub fn write(&self, root: &Path) {
        for d in &self.dirs {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        for (n, _, t) in &self.files {
            std::fs::write(root.join(n), t).unwrap();
        }
        for (n, t) in &self.extra {
            std::fs::write(root.join(n), t).unwrap();
        }
        for (n, t) in &self.links {
            let _ = std::os::unix::fs::symlink(t, root.join(n));
        }
    }
    pub fn describe(&self) -> String {
        let mut s: String = self.files.iter().map(|(p, _, t)| format!("--- {p}\n{t}")).collect();
        for l in &self.links {
            s.push_str(&format!("--- {} is a link to {}\n", l.0, l.1));
        }
        for l in &self.extra {
            s.push_str(&format!("--- {} is not UTF-8\n", l.0));
        }
        s
    }
    /// which file a span is in
    pub fn file_of(&self, root: &Path, s: &BeancountSources, span: &Span) -> Option<usize> {
        let mut sp = *span;
        sp.end = sp.start;
        let n = s.resolve_span(&sp).file_name?;
        let p = PathBuf::from(n).canonicalize().ok()?;
        self.files.iter().position(|(f, _, _)| root.join(f).canonicalize().ok() == Some(p.clone()))
    }
    pub fn covers(&self, root: &Path, s: &BeancountSources, span: &Span, at: &At) -> bool {
        self.within(root, s, span, at) && span.start <= at.inner.0 && at.inner.1 <= span.end
    }
    pub fn within(&self, root: &Path, s: &BeancountSources, span: &Span, at: &At) -> bool {
        at.outer.0 <= span.start && span.end <= at.outer.1 && self.file_of(root, s, span) == Some(at.file)
    }
    /// every expected position is covered by an error of its own, and nothing else is reported
    pub fn match_errors(&self, root: &Path, s: &BeancountSources, spans: &[(Span, String)], want: &[At], what: &str) -> Result<Vec<(Span, String)>, String> {
        let mut rest = spans.to_vec();
        for a in want {
            match rest.iter().position(|(x, _)| self.covers(root, s, x, a)) {
                Some(i) => {
                    rest.remove(i);
                }
                None => return Err(format!("no error at {what}, bytes {:?} of {}: {:?}; reported: {spans:?}", a.inner, self.files[a.file].0, self.files[a.file].2.get(a.outer.0..a.outer.1))),
            }
        }
        Ok(rest)
    }
}
pub fn error_spans(e: &ParseError) -> Vec<(Span, String)> {
    e.errors.iter().map(|x| (x.span(), x.message().to_string())).collect()
}
