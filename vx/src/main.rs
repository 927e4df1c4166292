//! vx: mechanical extraction of functions from /repo into a Verus file.
//!
//!   vx REPO TEMPLATE OUT.rs REPORT.json
//!
//! A template is Verus text in which `@@` blocks are replaced by text taken from REPO, with
//! contracts inserted.  The only changes made to the extracted text are those listed in the report:
//! attributes, doc comments and visibility are dropped, contracts, invariants and ghost code are
//! inserted, and the substitutions which the block itself spells out are made.  Exit 3: an anchor
//! was not found (the source has been restructured), so nothing was emitted.
mod inline;
use proc_macro2::{Span, TokenStream, TokenTree};
use serde_json::json;
use std::collections::HashMap;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

type R<T> = Result<T, String>;

struct Src {
    text: String,
    ast: syn::File,
}

fn rng(s: Span) -> Range<usize> {
    s.byte_range()
}

fn norm(ts: TokenStream) -> String {
    // token text without spaces and without lifetimes
    fn go(ts: TokenStream, out: &mut String) {
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                TokenTree::Punct(p) if p.as_char() == '\'' => {
                    it.next();
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    out.push_str(o);
                    go(g.stream(), out);
                    out.push_str(c);
                }
                t => {
                    let s = t.to_string();
                    if out.ends_with(|c: char| c.is_alphanumeric() || c == '_')
                        && s.starts_with(|c: char| c.is_alphanumeric() || c == '_')
                    {
                        out.push(' ');
                    }
                    out.push_str(&s)
                }
            }
        }
    }
    let mut s = String::new();
    go(ts, &mut s);
    s.replace("<>", "")
}

fn ts<T: quote::ToTokens>(t: &T) -> TokenStream {
    t.to_token_stream()
}

#[derive(Clone)]
enum FnRef<'a> {
    Free(&'a syn::ItemFn),
    Method(&'a syn::ImplItemFn),
    TraitM(&'a syn::TraitItemFn),
}
impl<'a> FnRef<'a> {
    fn attrs(&self) -> &'a [syn::Attribute] {
        match self {
            FnRef::Free(f) => &f.attrs,
            FnRef::Method(f) => &f.attrs,
            FnRef::TraitM(f) => &f.attrs,
        }
    }
    fn sig(&self) -> &'a syn::Signature {
        match self {
            FnRef::Free(f) => &f.sig,
            FnRef::Method(f) => &f.sig,
            FnRef::TraitM(f) => &f.sig,
        }
    }
    fn block(&self) -> &'a syn::Block {
        match self {
            FnRef::Free(f) => &f.block,
            FnRef::Method(f) => &f.block,
            FnRef::TraitM(f) => f.default.as_ref().unwrap(),
        }
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let n = norm(ts(&a.meta));
        n == "test" || n == "cfg(test)" || n.starts_with("test_case")
    })
}

fn self_ident(ty: &syn::Type) -> String {
    norm(ts(ty)).trim_start_matches('&').to_string()
}
fn ident_of(s: &str) -> &str {
    let s = s.split('<').next().unwrap();
    s.rsplit("::").next().unwrap()
}
fn ty_match(want: &str, have: &str) -> bool {
    if want.contains('<') || want.contains('&') {
        want == have
    } else {
        ident_of(have) == want
    }
}

/// PATH: `f`, `Type::f`, `Trait@Type::f`, `outer>inner`
fn find_fn<'a>(ast: &'a syn::File, path: &str) -> R<FnRef<'a>> {
    let mut parts = path.split('>').collect::<Vec<_>>();
    // generic args contain '>' too: rejoin while unbalanced
    let mut joined: Vec<String> = vec![];
    for p in parts.drain(..) {
        if let Some(l) = joined.last_mut() {
            if l.matches('<').count() > l.matches('>').count() {
                l.push('>');
                l.push_str(p);
                continue;
            }
        }
        joined.push(p.to_string());
    }
    let mut cur = find_top(&ast.items, &joined[0]).ok_or(format!("no function {}", joined[0]))?;
    for inner in &joined[1..] {
        struct V<'a> {
            name: String,
            found: Option<&'a syn::ItemFn>,
        }
        impl<'a> Visit<'a> for V<'a> {
            fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
                if f.sig.ident == self.name {
                    self.found = Some(f);
                }
                visit::visit_item_fn(self, f);
            }
        }
        let mut v = V {
            name: inner.clone(),
            found: None,
        };
        v.visit_block(cur.block());
        cur = FnRef::Free(v.found.ok_or(format!("no nested function {inner}"))?);
    }
    Ok(cur)
}

fn find_top<'a>(items: &'a [syn::Item], path: &str) -> Option<FnRef<'a>> {
    let (owner, name) = match path.rsplit_once("::") {
        Some((o, n)) if !o.ends_with('<') => (Some(o), n),
        _ => (None, path),
    };
    let (tr, ty) = match owner {
        Some(o) => match o.split_once('@') {
            Some((t, y)) => (Some(t), Some(y)),
            None => (None, Some(o)),
        },
        None => (None, None),
    };
    for it in items {
        match it {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name && !is_test(&f.attrs) => {
                return Some(FnRef::Free(f))
            }
            syn::Item::Impl(i) if ty.is_some() => {
                if !ty_match(ty.unwrap(), &self_ident(&i.self_ty)) {
                    continue;
                }
                match (tr, &i.trait_) {
                    (None, None) => {}
                    (Some(t), Some((_, p, _))) if ty_match(t, &norm(ts(p))) => {}
                    _ => continue,
                }
                for m in &i.items {
                    if let syn::ImplItem::Fn(f) = m {
                        if f.sig.ident == name {
                            return Some(FnRef::Method(f));
                        }
                    }
                }
            }
            syn::Item::Trait(t) if ty.is_some() && tr.is_none() && t.ident == ty.unwrap() => {
                for m in &t.items {
                    if let syn::TraitItem::Fn(f) = m {
                        if f.sig.ident == name && f.default.is_some() {
                            return Some(FnRef::TraitM(f));
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    if let Some(f) = find_top(items, path) {
                        return Some(f);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// edits to a file's text
#[derive(Default)]
struct Edits(Vec<(Range<usize>, String)>);
impl Edits {
    fn apply(mut self, text: &str, range: Range<usize>) -> R<String> {
        // insertions (empty ranges) at the same place keep their order
        self.0.sort_by_key(|(r, _)| (r.start, r.end));
        let mut out = String::new();
        let mut pos = range.start;
        for (r, s) in self.0 {
            if r.start < range.start || r.end > range.end {
                continue;
            }
            if r.start < pos {
                // nested in something already replaced
                continue;
            }
            out.push_str(&text[pos..r.start]);
            out.push_str(&s);
            pos = r.end;
        }
        out.push_str(&text[pos..range.end]);
        Ok(out)
    }
}

/// attributes, visibility
struct Strip<'e> {
    e: &'e mut Edits,
    dropped: &'e mut Vec<String>,
}
impl<'a, 'e> Visit<'a> for Strip<'e> {
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        self.e.0.push((rng(a.span()), String::new()));
        let n = norm(ts(&a.meta));
        if !n.starts_with("doc") {
            self.dropped.push(format!("#[{n}]"));
        }
    }
    fn visit_visibility(&mut self, v: &'a syn::Visibility) {
        if !matches!(v, syn::Visibility::Inherited) {
            self.e.0.push((rng(v.span()), String::new()));
        }
    }
}

#[derive(Default)]
struct Loops<'a>(Vec<LoopRef<'a>>);
#[derive(Clone)]
enum LoopRef<'a> {
    For(&'a syn::ExprForLoop),
    While(&'a syn::ExprWhile),
    Loop(&'a syn::ExprLoop),
}
impl<'a> Visit<'a> for Loops<'a> {
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.0.push(LoopRef::For(l));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.0.push(LoopRef::While(l));
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.0.push(LoopRef::Loop(l));
        visit::visit_expr_loop(self, l);
    }
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
}

#[derive(Default)]
struct Closures<'a> {
    /// (method or function it is an argument of, closure)
    v: Vec<(String, &'a syn::ExprClosure)>,
    ctx: Vec<String>,
}
impl<'a> Visit<'a> for Closures<'a> {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.visit_expr(&m.receiver);
        self.ctx.push(m.method.to_string());
        for a in &m.args {
            self.visit_expr(a);
        }
        self.ctx.pop();
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        self.ctx.push(ident_of(&norm(ts(&*c.func))).to_string());
        for a in &c.args {
            self.visit_expr(a);
        }
        self.ctx.pop();
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.v
            .push((self.ctx.last().cloned().unwrap_or_default(), c));
        self.ctx.push(String::new());
        visit::visit_expr_closure(self, c);
        self.ctx.pop();
    }
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
}

/// constructors given to map or map_with
struct Ctors(Vec<Range<usize>>);
impl<'a> Visit<'a> for Ctors {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if m.method == "map" || m.method == "map_with" {
            if let Some(syn::Expr::Path(p)) = m.args.first() {
                if p.path.segments.last().is_some_and(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())) {
                    self.0.push(rng(p.span()));
                }
            }
        }
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
}

struct Stmts<'a>(Vec<&'a syn::Stmt>);
impl<'a> Visit<'a> for Stmts<'a> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        self.0.push(s);
        visit::visit_stmt(self, s);
    }
}

/// matching of `subst` patterns: token sequences, in which `$x` matches any one token
fn flat(ts: TokenStream, out: &mut Vec<(String, Range<usize>)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    _ => ("", ""),
                };
                out.push((o.into(), rng(g.span_open())));
                flat(g.stream(), out);
                out.push((c.into(), rng(g.span_close())));
            }
            t => out.push((t.to_string(), rng(t.span()))),
        }
    }
}

fn subst(text: &str, pat: &str, rep: &str, count: &mut usize) -> R<String> {
    let pt: TokenStream = pat
        .parse()
        .map_err(|e| format!("bad subst pattern {pat}: {e}"))?;
    let mut p = vec![];
    flat(pt, &mut p);
    let mut p: Vec<String> = p.into_iter().map(|x| x.0).collect();
    let mut k = 0;
    while k + 1 < p.len() {
        if p[k] == "$" {
            let v = p.remove(k + 1);
            p[k].push_str(&v);
        }
        k += 1;
    }
    let tt: TokenStream = text.parse().map_err(|e| format!("tokenize: {e}"))?;
    let mut t = vec![];
    flat(tt, &mut t);
    // spans of tokens parsed from `text` are relative to text
    let mut out = String::new();
    let mut pos = 0;
    let mut i = 0;
    while i < t.len() {
        if i + p.len() <= t.len() && (0..p.len()).all(|k| t[i + k].0 == p[k] || p[k].len() > 1 && p[k].starts_with('$')) {
            out.push_str(&text[pos..t[i].1.start]);
            let mut rep = rep.to_string();
            for k in 0..p.len() {
                if p[k].len() > 1 && p[k].starts_with('$') {
                    rep = rep.replace(&p[k], &t[i + k].0);
                }
            }
            out.push_str(&rep);
            pos = t[i + p.len() - 1].1.end;
            i += p.len();
            *count += 1;
        } else {
            i += 1;
        }
    }
    out.push_str(&text[pos..]);
    Ok(out)
}

struct Block {
    head: String,
    subs: Vec<(String, String)>, // directive line, body
}

fn sub<'b>(b: &'b Block, name: &str) -> Option<&'b (String, String)> {
    b.subs
        .iter()
        .find(|(d, _)| d == name || d.starts_with(&format!("{name} ")))
}
fn arg<'b>(b: &'b Block, name: &str) -> Option<&'b str> {
    sub(b, name).map(|(d, _)| d[name.len()..].trim())
}
fn body<'b>(b: &'b Block, name: &str) -> Option<&'b str> {
    sub(b, name).map(|(_, t)| t.as_str())
}

fn line_of(text: &str, off: usize) -> usize {
    text[..off].matches('\n').count() + 1
}

/// method calls with a closure among their arguments
struct Folds<'b>(Vec<&'b syn::ExprMethodCall>);
impl<'b> Visit<'b> for Folds<'b> {
    fn visit_expr_method_call(&mut self, x: &'b syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, x);
        self.0.push(x);
    }
}
/// return or `?`, outside closures
struct Escapes(bool);
impl<'b> Visit<'b> for Escapes {
    fn visit_expr_return(&mut self, _: &'b syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'b syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'b syn::ExprClosure) {}
}

struct Ctx {
    repo: String,
    srcs: HashMap<String, &'static Src>,
    report: Vec<serde_json::Value>,
    skip: bool,
    canary: bool,
    helpers: inline::Helpers,
    writes: bool,
    /// closures in the block last looked at
    closures: usize,
}

fn spell(l: &str) -> String {
    let mut out = String::new();
    let mut rest = l;
    while let Some(i) = rest.find("§\"") {
        out.push_str(&rest[..i]);
        let t = &rest[i + "§".len()..];
        let mut end = 1;
        while !t[end..].starts_with('"') { end += if t[end..].starts_with('\\') { 2 } else { 1 }; }
        let lit: syn::LitStr = syn::parse_str(&t[..=end]).expect("a string");
        out.push_str("Seq::<char>::empty()");
        for c in lit.value().chars() { out.push_str(&format!(".push({c:?})")); }
        rest = &t[end + 1..];
    }
    out + rest
}
struct Wilds(Vec<Range<usize>>);
impl<'b> Visit<'b> for Wilds {
    fn visit_expr_closure(&mut self, c: &'b syn::ExprClosure) {
        if let (1, Some(syn::Pat::Wild(w))) = (c.inputs.len(), c.inputs.first()) { self.0.push(rng(w.span())); }
        syn::visit::visit_expr_closure(self, c);
    }
}
struct CallsOf<'c> { name: &'c str, at: Vec<Range<usize>> }
impl<'b> Visit<'b> for CallsOf<'_> {
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func { if p.path.is_ident(self.name) { self.at.push(rng(p.span())); } }
        syn::visit::visit_expr_call(self, c);
    }
}
struct Strs(std::collections::BTreeSet<String>);
impl<'b> Visit<'b> for Strs {
    fn visit_lit_str(&mut self, l: &'b syn::LitStr) { self.0.insert(l.value()); }
}

/// write!(f, "a{}b", x) read as the calls it stands for: f.write_str("a"), Display::fmt(&(x), f), f.write_str("b"), up to the first which fails
struct Writes<'b> { text: &'b str, edits: Vec<(Range<usize>, String)> }
impl<'b> Visit<'b> for Writes<'_> {
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        let ln = m.path.is_ident("writeln");
        if !ln && !m.path.is_ident("write") { return; }
        let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) else { return };
        let txt = |e: &syn::Expr| self.text[rng(e.span())].to_string();
        let mut it = args.iter();
        let Some(dest) = it.next().map(txt) else { return };
        let lit = match it.next() {
            None => String::new(),
            Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) => l.value(),
            _ => return,
        };
        let rest: Vec<String> = it.map(txt).collect();
        let (mut puts, mut cur, mut next) = (vec![], String::new(), 0usize);
        let flush = |cur: &mut String, puts: &mut Vec<String>| {
            if !cur.is_empty() { puts.push(format!("{dest}.write_str({cur:?})")); cur.clear(); }
        };
        let mut cs = lit.chars().peekable();
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => { cs.next(); cur.push('{'); }
                '}' => { cs.next(); cur.push('}'); }
                '{' => {
                    let name: String = cs.by_ref().take_while(|c| *c != '}').collect();
                    let arg = if name.is_empty() { next += 1; rest.get(next - 1).cloned() }
                        else if let Ok(k) = name.parse::<usize>() { rest.get(k).cloned() }
                        else if name.contains(':') { None } else { Some(name) };
                    let Some(arg) = arg else { return };
                    flush(&mut cur, &mut puts);
                    puts.push(format!("Display::fmt(&({arg}), {dest})"));
                }
                c => cur.push(c),
            }
        }
        if ln { cur.push('\n'); }
        flush(&mut cur, &mut puts);
        let mut out = puts.pop().unwrap_or("Ok(())".into());
        for p in puts.into_iter().rev() { out = format!("match {p} {{ Err(e_) => Err(e_), Ok(_) => {out} }}"); }
        self.edits.push((rng(m.span()), format!("({out})")));
    }
}

impl Ctx {
    fn src(&mut self, f: &str) -> R<&'static Src> {
        if let Some(s) = self.srcs.get(f) {
            return Ok(s);
        }
        let p = format!("{}/{}", self.repo, f);
        let text = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
        let text = if self.helpers.none() {
            text
        } else {
            let (t, used) = self.helpers.inline(&text).map_err(|e| format!("{p}: {e}"))?;
            if !used.is_empty() {
                self.report.push(json!({"kind":"inlined","file":f,"name":used.into_iter().collect::<Vec<_>>().join(" "),"dropped":[]}));
            }
            t
        };
        let mut ast = syn::parse_file(&text).map_err(|e| format!("{p}: {e}"))?;
        let mut text = text;
        {
            // |_| read as |_w|, which the verifier wants
            let mut w = Wilds(vec![]);
            w.visit_file(&ast);
            if !w.0.is_empty() {
                w.0.sort_by_key(|r| r.start);
                for r in w.0.into_iter().rev() { text.replace_range(r, "_w"); }
                ast = syn::parse_file(&text).map_err(|e| format!("{p}: {e}"))?;
            }
        }
        if self.writes {
            let mut w = Writes { text: &text, edits: vec![] };
            w.visit_file(&ast);
            let mut edits = w.edits;
            edits.sort_by_key(|e| e.0.start);
            let mut t = text.clone();
            for (r, n) in edits.into_iter().rev() { t.replace_range(r, &n); }
            text = t;
            ast = syn::parse_file(&text).map_err(|e| format!("{p}: {e}"))?;
        }
        let s: &'static Src = Box::leak(Box::new(Src { text, ast }));
        self.srcs.insert(f.into(), s);
        Ok(s)
    }

    fn item(&mut self, b: &Block) -> R<String> {
        let w: Vec<&str> = b.head.split_whitespace().collect();
        let (file, name) = (w[1], w[2]);
        let src = self.src(file)?;
        let mut e = Edits::default();
        let mut dropped = vec![];
        let mut range = None;
        for it in &src.ast.items {
            let id = match it {
                syn::Item::Struct(s) => Some(&s.ident),
                syn::Item::Enum(s) => Some(&s.ident),
                syn::Item::Const(s) => Some(&s.ident),
                syn::Item::Type(s) => Some(&s.ident),
                syn::Item::Static(s) => Some(&s.ident),
                _ => None,
            };
            if id.map(|i| i == name).unwrap_or(false) {
                Strip {
                    e: &mut e,
                    dropped: &mut dropped,
                }
                .visit_item(it);
                range = Some(rng(it.span()));
            }
        }
        let range = range.ok_or(format!("no item {name} in {file}"))?;
        let line = line_of(&src.text, range.start);
        let mut text = e.apply(&src.text, range)?;
        self.substs(b, &mut text, &mut dropped)?;
        if let Some(n) = arg(b, "default") {
            // default NAME : which variant is marked #[default]
            let v = src.ast.items.iter().find_map(|it| match it {
                syn::Item::Enum(x) if x.ident == name => x.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).map(|v| v.ident.to_string()),
                _ => None,
            });
            let v = v.ok_or(format!("{name} has no #[default]"))?;
            text.push_str(&format!("\nspec fn {n}() -> {name} {{ {name}::{v} }}"));
        }
        self.report
            .push(json!({"kind":"item","file":file,"name":name,"line":line,"dropped":dropped}));
        Ok(text + "\n")
    }

    /// derived FILE NAME : the type, its equality as its definition has it (contents in every field), and what decides it: the derived implementation,
    /// spelt out, or the one in the source
    fn derived(&mut self, b: &Block) -> R<String> {
        let w: Vec<&str> = b.head.split_whitespace().collect();
        let (file, name) = (w[1], w[2]);
        let src = self.src(file)?;
        let (attrs, generics, variants): (_, _, Vec<(String, &syn::Fields)>) = src
            .ast
            .items
            .iter()
            .find_map(|it| match it {
                syn::Item::Struct(x) if x.ident == name => Some((&x.attrs, &x.generics, vec![(name.to_string(), &x.fields)])),
                syn::Item::Enum(x) if x.ident == name => Some((&x.attrs, &x.generics, x.variants.iter().map(|v| (format!("{name}::{}", v.ident), &v.fields)).collect())),
                _ => None,
            })
            .ok_or(format!("no item {name} in {file}"))?;
        let has = attrs.iter().any(|a| {
            let mut y = false;
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    y |= m.path.is_ident("PartialEq");
                    Ok(())
                });
            }
            y
        });
        let rec = |t: &syn::Type| norm(ts(t)).replace(' ', "") == format!("Box<{name}>");
        let recursive = variants.iter().any(|(_, f)| f.iter().any(|f| rec(&f.ty)));
        // in a spec, or executable
        let body = |exec: bool, a: &str, b: &str| -> String {
            let mut o = format!("match {a} {{\n");
            for (v, f) in &variants {
                let pat = |p: &str| {
                    let names: Vec<String> = f.iter().enumerate().map(|(i, f)| match &f.ident {
                        Some(n) => format!("{n}: {p}{i}"),
                        None => format!("{p}{i}"),
                    }).collect();
                    match f {
                        syn::Fields::Named(_) => format!("{v} {{ {} }}", names.join(", ")),
                        syn::Fields::Unnamed(_) => format!("{v}({})", names.join(", ")),
                        syn::Fields::Unit => v.clone(),
                    }
                };
                let cmp: Vec<String> = f.iter().enumerate().map(|(i, f)| match (rec(&f.ty), exec) {
                    (true, true) => format!("eq_{name}(&**a{i}, &**b{i})"),
                    (true, false) => format!("same_{name}(**a{i}, **b{i})"),
                    (false, true) => format!("PartialEq::eq(a{i}, b{i})"),
                    (false, false) => format!("a{i}.same(b{i})"),
                }).collect();
                let cmp = if cmp.is_empty() { "true".to_string() } else { cmp.join(" && ") };
                let other = if variants.len() > 1 { " _ => false," } else { "" };
                o.push_str(&format!("        {} => match {b} {{ {} => {cmp},{other} }},\n", pat("a"), pat("b")));
            }
            o + "    }"
        };
        let (ig, tg, _) = generics.split_for_impl();
        let (ig, tg) = (ts(&ig).to_string(), ts(&tg).to_string());
        let id = format!("PartialEq@{name}::eq");
        let mut out = String::new();
        let mut dropped = vec![];
        let code = if self.skip || has {
            if has { dropped.push("derived; spelt out field by field".to_string()); }
            None
        } else {
            let f = src.ast.items.iter().find_map(|it| match it {
                syn::Item::Impl(x) => match (&x.trait_, &*x.self_ty) {
                    (Some((_, p, _)), syn::Type::Path(t)) if p.is_ident("PartialEq") && t.path.segments.last().is_some_and(|s| s.ident == name) => x.items.iter().find_map(|i| match i {
                        syn::ImplItem::Fn(f) if f.sig.ident == "eq" => Some(f),
                        _ => None,
                    }),
                    _ => None,
                },
                _ => None,
            });
            let f = f.ok_or(format!("{name} has no equality"))?;
            struct Eqs<'t> { text: &'t str, e: Edits }
            impl<'b> Visit<'b> for Eqs<'_> {
                fn visit_expr_binary(&mut self, x: &'b syn::ExprBinary) {
                    let neg = match x.op { syn::BinOp::Eq(_) => "", syn::BinOp::Ne(_) => "!", _ => return syn::visit::visit_expr_binary(self, x) };
                    let (l, r) = (&self.text[rng(x.left.span())], &self.text[rng(x.right.span())]);
                    self.e.0.push((rng(x.span()), format!("{neg}PartialEq::eq(&({l}), &({r}))")));
                }
            }
            let mut v = Eqs { text: &src.text, e: Edits::default() };
            v.visit_block(&f.block);
            dropped.push("== read as PartialEq::eq".to_string());
            let sig = src.text[rng(f.sig.span())].replace("-> bool", "-> (r: bool)");
            Some(format!("    {sig} {}\n", v.e.apply(&src.text, rng(f.block.span()))?))
        };
        if recursive {
            out.push_str(&format!("spec fn same_{name}(a: {name}, b: {name}) -> bool\n    decreases a,\n{{\n    {}\n}}\n", body(false, "(&a)", "(&b)")));
            if code.is_none() {
                out.push_str(&format!("//VX-BEGIN {id}\n{}fn eq_{name}(a: &{name}, b: &{name}) -> (r: bool)\n    ensures r == same_{name}(*a, *b),\n    decreases a,\n{{\n    {}\n}}\n//VX-END\n",
                    if self.skip { "#[verifier::external_body]\n" } else { "" }, if self.skip { "unimplemented!()".to_string() } else { body(true, "a", "b") }));
            }
        }
        let spec = if recursive { format!("same_{name}(*self, *other)") } else { body(false, "self", "other") };
        out.push_str(&format!("impl{ig} PartialEq for {name}{tg} {{\n    spec fn same(&self, other: &Self) -> bool {{ {spec} }}\n//VX-BEGIN {id}\n"));
        match code {
            _ if self.skip => out.push_str("    #[verifier::external_body]\n    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }\n"),
            Some(c) => out.push_str(&c),
            None => {
                let x = if recursive { format!("eq_{name}(self, other)") } else { body(true, "self", "other") };
                let canary = if self.canary { "\nproof { assert(false); } /*CANARY*/\n" } else { "" };
                out.push_str(&format!("    fn eq(&self, other: &Self) -> (r: bool) {{ {canary}{x} }}\n"));
            }
        }
        out.push_str("//VX-END\n}\n");
        if !self.skip {
            let at = rng(attrs.first().map(|a| a.span()).unwrap_or(generics.span()));
            self.report.push(json!({"kind":"fn","file":file,"name":id,"emitted_as":"","line":line_of(&src.text, at.start),"end_line":line_of(&src.text, at.end),"closures":0,"dropped":dropped}));
        }
        Ok(out)
    }

    fn substs(&self, b: &Block, text: &mut String, dropped: &mut Vec<String>) -> R<()> {
        for (d, _) in &b.subs {
            for (kw, need) in [("subst ", true), ("subst? ", false)] {
                if let Some(r) = d.strip_prefix(kw) {
                    let (a, z) = r.split_once("=>>").ok_or(format!("bad subst {r}"))?;
                    let mut n = 0;
                    *text = subst(text, a.trim(), z.trim(), &mut n)?;
                    if n == 0 && need {
                        return Err(format!("subst: no occurrence of `{}`", a.trim()));
                    }
                    if n > 0 {
                        dropped.push(format!("`{}` replaced by `{}`", a.trim(), z.trim()));
                    }
                }
            }
        }
        Ok(())
    }

    /// insertions common to functions and closures
    fn insertions(&mut self, b: &Block, src: &Src, block: &syn::Block, e: &mut Edits, dropped: &mut Vec<String>) -> R<()> {
        if self.writes {
            let mut v = Strs(Default::default());
            v.visit_block(block);
            let r = rng(block.brace_token.span.open());
            e.0.push((r.end..r.end, format!("\nproof {{ {} }}\n", v.0.iter().map(|l| format!("reveal_strlit({l:?}); assert({l:?}@ =~= {});", spell(&format!("§{l:?}")))).collect::<String>())));
        }
        let mut cv = Closures::default();
        cv.visit_block(block);
        self.closures = cv.v.len();
        let mut lv = Loops::default();
        lv.visit_block(block);
        let mut want_loops = 0;
        for (d, t) in &b.subs {
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "loop" => {
                    want_loops += 1;
                    let n: usize = w[1].parse().unwrap();
                    let l = lv
                        .0
                        .get(n - 1)
                        .cloned()
                        .ok_or(format!("loop {n} not found"))?;
                    let kind = w.get(2).copied().unwrap_or("for");
                    let (bd, isolated) = match (&l, kind) {
                        (LoopRef::For(f), "for") => {
                            if let Some(v) = w.get(3) {
                                let r = rng(f.expr.span());
                                // a fourth word is a method to call on a collection iterated over directly, as `for` does
                                let direct = matches!(*f.expr, syn::Expr::Path(_) | syn::Expr::Field(_) | syn::Expr::Reference(_));
                                // (`!.method()`: whatever is iterated over)
                                let direct = direct || w.get(4).is_some_and(|m| m.starts_with('!'));
                                match w.get(4).map(|m| m.trim_start_matches('!')) {
                                    Some(m) if direct => {
                                        e.0.push((r.start..r.start, format!("{v}: (")));
                                        e.0.push((r.end..r.end, format!("){m}")));
                                    }
                                    _ => e.0.push((r.start..r.start, format!("{v}: "))),
                                }
                            }
                            (&f.body, false)
                        }
                        (LoopRef::While(f), "while") => (&f.body, false),
                        (LoopRef::Loop(f), "loop") => (&f.body, false),
                        _ => return Err(format!("loop {n} is not a `{kind}` loop")),
                    };
                    let _ = isolated;
                    let whole = match &l {
                        LoopRef::For(f) => rng(f.span()),
                        LoopRef::While(f) => rng(f.span()),
                        LoopRef::Loop(f) => rng(f.span()),
                    };
                    if let Some(ls) = b.subs.iter().find(|(dd, _)| *dd == format!("beforeloop {n}")) {
                        e.0.push((whole.start..whole.start, format!("\n{}\n", ls.1)));
                    }
                    if let Some(ls) = b.subs.iter().find(|(dd, _)| *dd == format!("afterloop {n}")) {
                        e.0.push((whole.end..whole.end, format!("\n{}\n", ls.1)));
                    }
                    let r = rng(bd.brace_token.span.open());
                    e.0.push((r.start..r.start, format!("\n{t}\n")));
                    if let Some(ls) = b.subs.iter().find(|(dd, _)| *dd == format!("loopstart {n}")) {
                        e.0.push((r.end..r.end, format!("\n{}\n", ls.1)));
                    }
                    if let Some(ls) = b.subs.iter().find(|(dd, _)| *dd == format!("loopend {n}")) {
                        let c = rng(bd.brace_token.span.close());
                        let semi = match bd.stmts.last() {
                            Some(syn::Stmt::Expr(x, None))
                                if !matches!(x, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_) | syn::Expr::Block(_)) => ";",
                            _ => "",
                        };
                        e.0.push((c.start..c.start, format!("{semi}\n{}\n", ls.1)));
                    }
                }
                "before" | "after" | "before?" | "after?" => {
                    // statement whose normalized text contains the given tokens (innermost, first)
                    let pat = d[w[0].len()..].trim();
                    let pn = norm(pat.parse::<TokenStream>().map_err(|x| x.to_string())?);
                    let mut sv = Stmts(vec![]);
                    sv.visit_block(block);
                    let mut best: Option<&syn::Stmt> = None;
                    for s in sv.0 {
                        if norm(ts(s)).contains(&pn) {
                            let better = match best {
                                None => true,
                                Some(o) => {
                                    let (a, z) = (rng(s.span()), rng(o.span()));
                                    a.start >= z.start && a.end <= z.end
                                }
                            };
                            if better {
                                best = Some(s);
                            }
                        }
                    }
                    match best {
                        Some(s) => {
                            let r = rng(s.span());
                            let at = if w[0].starts_with("before") { r.start } else { r.end };
                            e.0.push((at..at, format!("\n{t}\n")));
                        }
                        None if w[0].ends_with('?') => {}
                        None => return Err(format!("no statement containing `{pat}`")),
                    }
                }
                "callsubst" => {
                    // callsubst NAME METHOD : NAME(x), a call of a parameter, read as NAME.METHOD(x)
                    let mut v = CallsOf { name: w[1], at: vec![] };
                    v.visit_block(block);
                    for r in v.at { e.0.push((r.end..r.end, format!(".{}", w[2]))); }
                    dropped.push(format!("calls of {} made by its method {}", w[1], w[2]));
                }
                "start" => {
                    let r = rng(block.brace_token.span.open());
                    e.0.push((r.end..r.end, format!("\n{t}\n")));
                }
                "end" => {
                    let at = match block.stmts.last() {
                        Some(s @ syn::Stmt::Expr(_, None)) => rng(s.span()).start,
                        _ => rng(block.brace_token.span.close()).start,
                    };
                    e.0.push((at..at, format!("\n{t}\n")));
                }
                "wrapend" => {
                    // the value of the body bound to r_, then a proof (given after `start`)
                    let r = rng(block.brace_token.span.open());
                    e.0.push((r.end..r.end, "\nlet r_ = {\n".into()));
                    let c = rng(block.brace_token.span.close()).start;
                    let canary = if self.canary && sub(b, "nocanary").is_none() { "proof { assert(false); } /*CANARY*/" } else { "" };
                    e.0.push((c..c, format!("\n}};\n{t}\n{canary}\nr_\n")));
                }
                "dropfn" => {
                    // a nested function which is extracted on its own
                    for st in &block.stmts {
                        if let syn::Stmt::Item(syn::Item::Fn(f)) = st {
                            if f.sig.ident == w[1] {
                                e.0.push((rng(f.span()), String::new()));
                                dropped.push(format!("nested fn {} lifted out", w[1]));
                            }
                        }
                    }
                }
                "unfold" => {
                    // unfold fold#K VAR : `RECV.fold(INIT, |P0, P1| BODY)` as the loop which it stands for, with the invariant given
                    let mut fv = Folds(vec![]);
                    fv.visit_block(block);
                    let (m, k) = w[1].rsplit_once('#').ok_or("unfold sel")?;
                    let k: usize = k.parse().unwrap();
                    let x = *fv.0.iter().filter(|x| x.method == m).nth(k).ok_or(format!("{} not found", w[1]))?;
                    if m == "and_then" || m == "map_err" || m == "unwrap_or_else" {
                        // of a Result: the match which it stands for (the closure may change what it captures)
                        let clo = match (x.args.len(), x.args.first()) {
                            (1, Some(syn::Expr::Closure(c))) if c.inputs.len() == 1 => c,
                            _ => return Err(format!("{} is not given a closure", w[1])),
                        };
                        let mut es = Escapes(false);
                        es.visit_expr(&clo.body);
                        if es.0 {
                            return Err(format!("{}: its closure returns early", w[1]));
                        }
                        let (er, rr, br) = (rng(x.span()), rng(x.receiver.span()), rng(clo.body.span()));
                        let p = src.text[rng(strip_ty(&clo.inputs[0]).0.span())].to_string();
                        let (before, after) = match m {
                            "and_then" => (format!(" {{ Ok({p}) => {{ "), " }, Err(e_) => Err(e_) })".to_string()),
                            "map_err" => (format!(" {{ Ok(v_) => Ok(v_), Err({p}) => Err({{ "), " }) })".to_string()),
                            _ => (format!(" {{ Ok(v_) => v_, Err({p}) => {{ "), " } })".to_string()),
                        };
                        e.0.push((er.start..er.start, "(match ".into()));
                        e.0.push((rr.end..br.start, before));
                        e.0.push((br.end..er.end, after));
                        dropped.push(format!("{} read as the match which it stands for", w[1]));
                        continue;
                    }
                    let (init, clo) = match (x.args.len(), x.args.first(), x.args.last()) {
                        (2, Some(i), Some(syn::Expr::Closure(c))) if c.inputs.len() == 2 => (i, c),
                        _ => return Err(format!("{} is not a fold over a closure", w[1])),
                    };
                    let mut es = Escapes(false);
                    es.visit_expr(&clo.body);
                    if es.0 {
                        return Err(format!("{}: its closure returns early", w[1]));
                    }
                    let var = w.get(2).copied().unwrap_or("y");
                    let (er, rr, ir, br) = (rng(x.span()), rng(x.receiver.span()), rng(init.span()), rng(clo.body.span()));
                    let pat = |i: usize| src.text[rng(strip_ty(&clo.inputs[i]).0.span())].to_string();
                    let part = |n: &str| b.subs.iter().find(|(dd, _)| *dd == format!("{n} {}", w[1])).map(|z| z.1.clone()).unwrap_or_default();
                    e.0.push((er.start..er.start, "{ let it_ = ".into()));
                    e.0.push((rr.end..ir.start, "; let mut acc_ = ".into()));
                    e.0.push((ir.end..br.start, format!(";\n{}\nfor x_ in {var}: it_\n{t}\n{{\n{}\nacc_ = {{ let {} = acc_; let {} = x_; ", part("unfoldbefore"), part("unfoldstart"), pat(0), pat(1))));
                    e.0.push((br.end..er.end, format!(" }};\n{}\n}}\n{}\nacc_ }}", part("unfoldend"), part("unfoldafter"))));
                    dropped.push(format!("{} read as the loop which it stands for", w[1]));
                }
                "contract" => {
                    // contract METHOD#K TEXT : TEXT, which stands for the contract proved of the closure elsewhere, in its place
                    let mut cv = Closures::default();
                    cv.visit_block(block);
                    let (m, k) = w[1].rsplit_once('#').ok_or("contract sel")?;
                    let k: usize = k.parse().unwrap();
                    let c = cv
                        .v
                        .iter()
                        .filter(|(mm, _)| mm == m)
                        .nth(k)
                        .ok_or(format!("closure {} not found", w[1]))?
                        .1;
                    e.0.push((rng(c.span()), t.trim().to_string()));
                    dropped.push(format!("closure {} stood for by its contract, proved in another unit", w[1]));
                }
                "pure" => {
                    // pure : each function given to map or map_with, unless another directive takes it, with the contract that it yields what its body says:
                    // `|P| BODY` as `|x| -> (r: _) ensures eq_(r, BODY) { BODY }`, and a constructor C as ctor!(C)
                    let mut cv = Closures::default();
                    cv.visit_block(block);
                    let mut seen: HashMap<String, usize> = HashMap::new();
                    for (m, c) in &cv.v {
                        let k = seen.entry(m.clone()).or_default();
                        let sel = format!("{m}#{k}");
                        *k += 1;
                        if m != "map" && m != "map_with" {
                            continue;
                        }
                        if b.subs.iter().any(|(dd, _)| {
                            let ww: Vec<&str> = dd.split_whitespace().collect();
                            ww.len() > 1 && (ww[0] == "closure" || ww[0] == "contract") && ww[1] == sel
                        }) {
                            continue;
                        }
                        if cv.v.iter().any(|(_, o)| !std::ptr::eq(*o, *c) && rng(o.span()).start <= rng(c.span()).start && rng(c.span()).end <= rng(o.span()).end) {
                            continue; // within another
                        }
                        let mut es = Escapes(false);
                        es.visit_expr(&c.body);
                        if es.0 {
                            return Err(format!("{sel}: closure returns early"));
                        }
                        let bodyr = rng(c.body.span());
                        let text = &src.text[bodyr.clone()];
                        let xs: Vec<String> = (0..c.inputs.len()).map(|i| format!("x{i}_")).collect();
                        let binds: String = c.inputs.iter().enumerate().map(|(i, p)| format!("let {} = x{i}_; ", &src.text[rng(strip_ty(p).0.span())])).collect();
                        e.0.push((rng(c.span()).start..bodyr.start, format!("|{}| -> (r_: _) ensures eq_(r_, {{ {binds}{text} }}) {{ {binds}", xs.join(", "))));
                        e.0.push((bodyr.end..bodyr.end, " }".into()));
                    }
                    let mut ctors = Ctors(vec![]);
                    ctors.visit_block(block);
                    for r in ctors.0 {
                        e.0.push((r.start..r.start, "ctor!(".into()));
                        e.0.push((r.end..r.end, ")".into()));
                    }
                    dropped.push("functions given to map and map_with read with the contract that they yield what their bodies say".into());
                }
                "closure" => {
                    // closure N HEADER-TEXT : replaces the parameter list and adds a contract
                    let mut cv = Closures::default();
                    cv.visit_block(block);
                    let (m, k) = w[1].rsplit_once('#').ok_or("closure sel")?;
                    let k: usize = k.parse().unwrap();
                    let c = cv
                        .v
                        .iter()
                        .filter(|(mm, _)| mm == m)
                        .nth(k)
                        .ok_or(format!("closure {} not found", w[1]))?
                        .1;
                    let head = rng(c.or1_token.span()).start;
                    let bodyr = rng(c.body.span());
                    let isblock = matches!(&*c.body, syn::Expr::Block(_));
                    let mut pre = t.trim_end().to_string();
                    // bind patterns
                    let mut names = vec![];
                    for (i, p) in c.inputs.iter().enumerate() {
                        let (pt, _) = strip_ty(p);
                        names.push(src.text[rng(pt.span())].to_string());
                        let _ = i;
                    }
                    for (i, p) in c.inputs.iter().enumerate() {
                        let (pt, _) = strip_ty(p);
                        let tag = format!("$bind{i}(");
                        if let Some(a) = pre.find(&tag) {
                            let z = a + pre[a..].find(')').unwrap();
                            let x = pre[a + tag.len()..z].to_string();
                            let l = match pt {
                                syn::Pat::Reference(q) => format!("let {} = *{x};", &src.text[rng(q.pat.span())]),
                                q => format!("let {} = {x};", &src.text[rng(q.span())]),
                            };
                            pre.replace_range(a..=z, &l);
                        }
                    }
                    for (i, n) in names.iter().enumerate() {
                        pre = pre.replace(&format!("$p{i}"), n);
                    }
                    if let Some((x, y)) = pre.split_once("$body") {
                        e.0.push((head..bodyr.start, x.to_string()));
                        e.0.push((bodyr.end..bodyr.end, y.to_string()));
                    } else if isblock {
                        e.0.push((head..bodyr.start, format!("{pre} ")));
                    } else {
                        e.0.push((head..bodyr.start, format!("{pre} {{ ")));
                        e.0.push((bodyr.end..bodyr.end, " }".into()));
                    }
                    dropped.push(format!("types and contract added to closure {}", w[1]));
                }
                _ => {}
            }
        }
        if self.canary && sub(b, "nocanary").is_none() && sub(b, "wrapend").is_none() {
            let at = match block.stmts.last() {
                Some(s @ syn::Stmt::Expr(_, None)) => rng(s.span()).start,
                _ => rng(block.brace_token.span.close()).start,
            };
            e.0.insert(0, (at..at, "\nproof { assert(false); } /*CANARY*/\n".into()));
        }
        if let Some(n) = arg(b, "loops") {
            let n: usize = n.parse().unwrap();
            if lv.0.len() != n {
                return Err(format!("expected {n} loops, found {}", lv.0.len()));
            }
        } else if lv.0.len() != want_loops {
            return Err(format!(
                "{} loops in source, {want_loops} with invariants",
                lv.0.len()
            ));
        }
        Ok(())
    }

    fn func(&mut self, b: &Block) -> R<String> {
        self.closures = 0;
        let w: Vec<&str> = b.head.splitn(3, ' ').collect();
        let (file, path) = (w[1], w[2].trim());
        let src = self.src(file)?;
        let f = match find_fn(&src.ast, path) {
            Ok(f) => f,
            Err(e) => {
                if self.skip {
                    if let Some(s) = body(b, "sig") {
                        return Ok(format!("{}\n{}\n{{ unimplemented!() }}\n", s.trim_end(), body(b, "spec").unwrap_or("")));
                    }
                }
                return Err(format!("{file} {path}: {e}"));
            }
        };
        let ctx = |e: String| format!("{file} {path}: {e}");
        let mut e = Edits::default();
        let mut dropped = vec![];
        Strip {
            e: &mut e,
            dropped: &mut dropped,
        }
        .visit_block(f.block());
        if !self.skip {
            self.insertions(b, src, f.block(), &mut e, &mut dropped)
                .map_err(ctx)?;
        }
        let br = rng(f.block().span());
        let mut btext = e.apply(&src.text, br.clone())?;
        let sig = f.sig();
        let sr = rng(sig.span());
        let mut head = if let Some(s) = body(b, "sig") {
            dropped.push(format!("signature given by the template instead of `{}`", &src.text[sr.clone()].split_whitespace().collect::<Vec<_>>().join(" ")));
            s.trim_end().to_string()
        } else {
            let mut se = Edits::default();
            let mut where_text = String::new();
            if let Some(n) = arg(b, "as") {
                se.0.push((rng(sig.ident.span()), n.to_string()));
            }
            if let Some(n) = arg(b, "ret") {
                if let syn::ReturnType::Type(_, t) = &sig.output {
                    let r = rng(t.span());
                    se.0.push((r.start..r.start, format!("({n}: ")));
                    se.0.push((r.end..r.end, ")".into()));
                }
            }
            if let Some(wc) = &sig.generics.where_clause {
                let r = rng(wc.span());
                where_text = src.text[r.clone()].to_string();
                se.0.push((r, String::new()));
            }
            let mut s = se.apply(&src.text, sr.clone())?;
            s = s.trim_end().to_string();
            if !where_text.is_empty() {
                s.push_str("\n    ");
                s.push_str(where_text.trim_end());
                if !s.ends_with(',') {
                    s.push(',');
                }
            }
            s
        };
        if self.skip {
            btext = "{ unimplemented!() }".into();
        } else {
            self.substs(b, &mut btext, &mut dropped).map_err(ctx)?;
        }
        // `mut self` is not supported by the verifier: the body works on a copy of self under another name
        let mut_self = matches!(sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.mutability.is_some() && r.reference.is_none() && r.colon_token.is_none());
        if mut_self && body(b, "sig").is_none() {
            let mut n = 0;
            head = subst(&head, "mut self", "self", &mut n)?;
            if !self.skip {
                btext = subst(&btext, "self", "this", &mut n)?;
                btext = btext.replacen('{', "{ let mut this = self;", 1);
                dropped.push("`mut self` read as `self`, then `let mut this = self` and `this` for `self`".into());
            }
        }
        if body(b, "sig").is_none() {
            for (d, _) in &b.subs {
                if let Some(r) = d.strip_prefix("sigsubst ") {
                    let (a, z) = r.split_once("=>>").unwrap();
                    let mut n = 0;
                    head = subst(&head, a.trim(), z.trim(), &mut n)?;
                    if n == 0 {
                        return Err(ctx(format!("sigsubst: no `{a}`")));
                    }
                    dropped.push(format!("signature: `{}` replaced by `{}`", a.trim(), z.trim()));
                }
            }
        }
        let spec = body(b, "spec").unwrap_or("");
        if self.skip {
            return Ok(format!("{head}\n{spec}\n{btext}\n"));
        }
        for a in f.attrs() {
            let n = norm(ts(&a.meta));
            if !n.starts_with("doc") {
                dropped.push(format!("#[{n}]"));
            }
        }
        self.report.push(json!({"kind":"fn","file":file,"name":path,"emitted_as":arg(b,"as").unwrap_or(""),
            "line":line_of(&src.text, sr.start),"end_line":line_of(&src.text, br.end),"closures":self.closures,"dropped":dropped}));
        Ok(format!("{head}\n{spec}\n{btext}\n"))
    }

    fn closure(&mut self, b: &Block) -> R<String> {
        self.closures = 0;
        let w: Vec<&str> = b.head.split_whitespace().collect();
        let (file, path, sel) = (w[1], w[2], w[3]);
        let src = self.src(file)?;
        let ctx = |e: String| format!("{file} {path} {sel}: {e}");
        if self.skip {
            let sig = body(b, "sig").ok_or(ctx("closure needs sig".into()))?;
            return Ok(format!("{}\n{}\n{{ unimplemented!() }}\n", sig.trim_end(), body(b, "spec").unwrap_or("")));
        }
        let f = find_fn(&src.ast, path).map_err(ctx)?;
        let mut cv = Closures::default();
        cv.visit_block(f.block());
        let (m, k) = sel.rsplit_once('#').ok_or("bad selector")?;
        let k: usize = k.parse().unwrap();
        let cands: Vec<_> = cv.v.iter().filter(|(mm, _)| mm == m).collect();
        if let Some(n) = arg(b, "of") {
            let n: usize = n.parse().unwrap();
            if cands.len() != n {
                return Err(ctx(format!("{} closures instead of {n}", cands.len())));
            }
        }
        let c = cands.get(k).ok_or(ctx("closure not found".into()))?.1;
        let mut e = Edits::default();
        let mut dropped = vec![];
        Strip {
            e: &mut e,
            dropped: &mut dropped,
        }
        .visit_expr(&c.body);
        let tmp;
        let blk: &syn::Block = match &*c.body {
            syn::Expr::Block(x) => &x.block,
            _ => {
                tmp = syn::Block {
                    brace_token: Default::default(),
                    stmts: vec![syn::Stmt::Expr((*c.body).clone(), None)],
                };
                &tmp
            }
        };
        let is_block = matches!(&*c.body, syn::Expr::Block(_));
        let (mut start_txt, mut end_txt) = (String::new(), String::new());
        if is_block {
            self.insertions(b, src, blk, &mut e, &mut dropped).map_err(ctx)?;
        } else {
            let inner = Block {
                head: b.head.clone(),
                subs: b.subs.iter().filter(|(d, _)| !["start", "end"].contains(&d.split_whitespace().next().unwrap_or(""))).cloned().collect(),
            };
            let canary = std::mem::replace(&mut self.canary, false);
            let r = self.insertions(&inner, src, blk, &mut e, &mut dropped).map_err(ctx);
            self.canary = canary;
            r?;
            start_txt = body(b, "start").unwrap_or("").to_string();
            end_txt = body(b, "end").unwrap_or("").to_string();
            if self.canary && sub(b, "nocanary").is_none() {
                end_txt.push_str("\nproof { assert(false); } /*CANARY*/\n");
            }
        }
        let br = rng(c.body.span());
        let mut btext = e.apply(&src.text, br.clone())?;
        self.substs(b, &mut btext, &mut dropped).map_err(ctx)?;
        let sig = body(b, "sig").ok_or(ctx("closure needs sig".into()))?;
        let mut lets = String::new();
        let nparams = arg(b, "params").map(|s| s.parse::<usize>().unwrap());
        if let Some(n) = nparams {
            if n != c.inputs.len() {
                return Err(ctx(format!("{} parameters instead of {n}", c.inputs.len())));
            }
        }
        for (i, p) in c.inputs.iter().enumerate() {
            let (pt, ty) = strip_ty(p);
            let pt = &src.text[rng(pt.span())];
            if let Some(t) = ty {
                dropped.push(format!("closure parameter type `{}`", norm(ts(t))));
            }
            if pt == "_" || pt.starts_with('_') && pt.len() > 1 && pt.chars().all(|c| c == '_' || c.is_alphanumeric()) {
                continue;
            }
            lets.push_str(&format!("    let {pt} = p{i};\n"));
        }
        let spec = body(b, "spec").unwrap_or("");
        dropped.push("closure made a function; its patterns are bound by let, captures are parameters".into());
        self.report.push(json!({"kind":"closure","file":file,"name":format!("{path} .{sel}"),
            "line":line_of(&src.text, br.start),"end_line":line_of(&src.text, br.end),"closures":self.closures,"dropped":dropped}));
        Ok(format!(
            "{}\n{spec}\n{{\n{lets}{start_txt}\n{end_txt}\n    {btext}\n}}\n",
            sig.trim_end()
        ))
    }
}

fn strip_ty(p: &syn::Pat) -> (&syn::Pat, Option<&syn::Type>) {
    match p {
        syn::Pat::Type(t) => (&t.pat, Some(&t.ty)),
        p => (p, None),
    }
}

fn run() -> R<()> {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--names" {
        for n in inline::names(&a[2]) {
            println!("{n}");
        }
        return Ok(());
    }
    let (repo, tpl, out, rep) = (&a[1], &a[2], &a[3], &a[4]);
    let mut cx = Ctx {
        repo: repo.clone(),
        srcs: HashMap::new(),
        report: vec![],
        skip: false,
        canary: std::env::var("VX_CANARY").is_ok(),
        helpers: inline::Helpers::of(repo, &include_str!("../known.txt").lines().map(String::from).collect()),
        writes: false, closures: 0,
    };
    let skips: Vec<String> = std::env::var("VX_SKIP")
        .unwrap_or_default()
        .split('\x1f')
        .filter(|s| !s.is_empty())
        .map(String::from)
        .collect();
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    let mut res = String::new();
    let t = expand(&std::fs::read_to_string(tpl).map_err(|e| e.to_string())?, &dir)?;
    let mut lines = t.lines().peekable();
    while let Some(l) = lines.next() {
        // §"abc" is the sequence of its characters
        let spelt;
        let l = if cx.writes && l.contains("§\"") {
            spelt = spell(l);
            spelt.as_str()
        } else {
            l
        };
        if l.trim() == "@@unfoldwrites;" {
            cx.writes = true;
            continue;
        }
        if let Some(h) = l.trim_start().strip_prefix("@@") {
            let mut b = Block {
                head: h.trim().to_string(),
                subs: vec![],
            };
            if !h.trim_end().ends_with(';') {
                loop {
                    let l = lines.next().ok_or("unterminated @@")?;
                    let tl = l.trim_start();
                    if tl.starts_with("@@end") {
                        break;
                    }
                    if let Some(d) = tl.strip_prefix("@") {
                        b.subs.push((d.trim().to_string(), String::new()));
                    } else if let Some(s) = b.subs.last_mut() {
                        s.1.push_str(l);
                        s.1.push('\n');
                    } else if !l.trim().is_empty() {
                        return Err(format!("stray text in block: {l}"));
                    }
                }
            } else {
                b.head = b.head.trim_end_matches(';').trim().to_string();
            }
            let k = b.head.split_whitespace().next().unwrap_or("").to_string();
            let id = b
                .head
                .splitn(3, ' ')
                .nth(2)
                .unwrap_or("")
                .trim()
                .to_string();
            let id = if k == "derived" { format!("PartialEq@{id}::eq") } else { id };
            let tag = |e: String| format!("[{id}] {e}");
            cx.skip = skips.contains(&id);
            let text = match k.as_str() {
                "item" => cx.item(&b),
                "derived" => cx.derived(&b),
                "fn" => cx.func(&b),
                "closure" => cx.closure(&b),
                x => return Err(format!("unknown block {x}")),
            }
            .map_err(tag)?;
            if k == "item" || k == "derived" {
                res.push_str(&text);
            } else {
                res.push_str(&format!("//VX-BEGIN {id}\n"));
                if cx.skip {
                    res.push_str("#[verifier::external_body]\n");
                }
                res.push_str(&text);
                res.push_str("//VX-END\n");
            }
        } else {
            res.push_str(l);
            res.push('\n');
        }
    }
    std::fs::write(out, res).map_err(|e| e.to_string())?;
    std::fs::write(
        rep,
        serde_json::to_string_pretty(&json!({"extracted": cx.report})).unwrap(),
    )
    .map_err(|e| e.to_string())?;
    Ok(())
}

/// `@@include FILE` is textual
fn expand(t: &str, dir: &std::path::Path) -> R<String> {
    let mut o = String::new();
    for l in t.lines() {
        if let Some(f) = l.trim().strip_prefix("@@include ") {
            let p = dir.join(f.trim());
            let s = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
            o.push_str(&expand(&s, dir)?);
        } else {
            o.push_str(l);
            o.push('\n');
        }
    }
    Ok(o)
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vx: {e}");
        std::process::exit(3);
    }
}
