//! Helpers which the repository did not have when the templates were written (known.txt lists the
//! functions and constants it had) are put in place of their calls, so that moving part of a
//! function into a helper leaves the extracted text within reach of its contract:
//!
//!   helper(x, y)        ->  { let (a, b) = (x, y); BODY }
//!   self.helper(x)      ->  { let a = x; BODY }
//!   .map(helper)        ->  .map(|a| { BODY })
//!   CONSTANT            ->  (VALUE)
//!
//! Only where that means the same: no `return` or `?` in BODY unless the call is the value of the
//! calling function, and no name free in BODY which the caller binds.
use crate::{rng, R};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::visit::{self, Visit};

#[derive(Clone)]
struct Helper {
    params: Vec<String>,
    receiver: Option<bool>, // `self` or `&self`; or `&mut self`
    body: String,           // with its braces
    tail_only: Option<String>,
    escapes: bool,
    free: BTreeSet<String>,
}

pub struct Helpers {
    fns: BTreeMap<String, Option<Helper>>,
    consts: BTreeMap<String, Option<String>>,
}

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    let mut prev_dot = false;
    let v: Vec<TokenTree> = ts.into_iter().collect();
    // a field of a struct expression
    let field = |k: usize| matches!(v.get(k + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':') && !matches!(v.get(k + 2), Some(TokenTree::Punct(p)) if p.as_char() == ':');
    for (k, t) in v.iter().cloned().enumerate() {
        match t {
            TokenTree::Group(g) => {
                idents(g.stream(), out);
                prev_dot = false;
            }
            TokenTree::Ident(i) => {
                if !prev_dot && !field(k) {
                    out.insert(i.to_string());
                }
                prev_dot = false;
            }
            TokenTree::Punct(p) => prev_dot = p.as_char() == '.',
            _ => prev_dot = false,
        }
    }
}

#[derive(Default)]
struct Bound(BTreeSet<String>);
impl<'b> Visit<'b> for Bound {
    fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with(char::is_uppercase) {
            self.0.insert(n); // others are constants and variants
        }
        visit::visit_pat_ident(self, p);
    }
}

#[derive(Default)]
struct Esc(bool);
impl<'b> Visit<'b> for Esc {
    fn visit_expr_return(&mut self, _: &'b syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'b syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'b syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'b syn::Item) {}
}

fn helper(text: &str, sig: &syn::Signature, block: &syn::Block) -> Option<Helper> {
    let mut h = Helper { params: vec![], receiver: None, body: String::new(), tail_only: None, escapes: false, free: BTreeSet::new() };
    if sig.asyncness.is_some() || sig.unsafety.is_some() {
        return None;
    }
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.is_some() {
                    return None;
                }
                h.receiver = Some(r.mutability.is_some());
            }
            syn::FnArg::Typed(t) => h.params.push(text[rng(syn::spanned::Spanned::span(&*t.pat))].to_string()),
        }
    }
    h.body = text[rng(syn::spanned::Spanned::span(block))].to_string();
    if let [syn::Stmt::Expr(e, None)] = &block.stmts[..] {
        h.tail_only = Some(text[rng(syn::spanned::Spanned::span(e))].to_string());
    }
    let mut e = Esc::default();
    e.visit_block(block);
    h.escapes = e.0;
    let mut b = Bound::default();
    b.visit_signature(sig);
    b.visit_block(block);
    let mut all = BTreeSet::new();
    idents(h.body.parse().ok()?, &mut all);
    h.free = all.difference(&b.0).cloned().collect();
    Some(h)
}

struct Collect<'t> {
    text: &'t str,
    known: &'t BTreeSet<String>,
    h: &'t mut Helpers,
}
impl<'t> Collect<'t> {
    fn add(&mut self, sig: &syn::Signature, block: &syn::Block) {
        let n = sig.ident.to_string();
        if self.known.contains(&n) {
            return;
        }
        let h = helper(self.text, sig, block);
        // two of the same name: neither
        let h = if self.h.fns.contains_key(&n) { None } else { h };
        self.h.fns.insert(n, h);
    }
}
fn test_only(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || a.path().is_ident("cfg") && crate::norm(crate::ts(&a.meta)).contains("test"))
}
impl<'t, 'b> Visit<'b> for Collect<'t> {
    fn visit_item_fn(&mut self, f: &'b syn::ItemFn) {
        if test_only(&f.attrs) {
            return;
        }
        self.add(&f.sig, &f.block);
        visit::visit_item_fn(self, f);
    }
    fn visit_impl_item_fn(&mut self, f: &'b syn::ImplItemFn) {
        self.add(&f.sig, &f.block);
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_item_impl(&mut self, i: &'b syn::ItemImpl) {
        if i.trait_.is_none() {
            visit::visit_item_impl(self, i);
        }
    }
    fn visit_item_mod(&mut self, m: &'b syn::ItemMod) {
        if !test_only(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_const(&mut self, c: &'b syn::ItemConst) {
        let n = c.ident.to_string();
        if !self.known.contains(&n) {
            let v = if self.h.consts.contains_key(&n) { None } else { Some(self.text[rng(syn::spanned::Spanned::span(&*c.expr))].to_string()) };
            self.h.consts.insert(n, v);
        }
    }
}

/// names of all functions and constants: what known.txt is made from
#[derive(Default)]
pub struct Names(pub BTreeSet<String>);
impl<'b> Visit<'b> for Names {
    fn visit_signature(&mut self, s: &'b syn::Signature) {
        self.0.insert(s.ident.to_string());
        visit::visit_signature(self, s);
    }
    fn visit_item_const(&mut self, c: &'b syn::ItemConst) {
        self.0.insert(c.ident.to_string());
    }
}

fn sources(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(d) = std::fs::read_dir(dir) {
        let mut es: Vec<_> = d.flatten().map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                sources(&p, out);
            } else if p.extension().is_some_and(|x| x == "rs") {
                out.push(p);
            }
        }
    }
}

pub fn names(repo: &str) -> BTreeSet<String> {
    let mut fs = vec![];
    sources(&std::path::Path::new(repo).join("src"), &mut fs);
    let mut n = Names::default();
    for f in fs {
        if let Ok(a) = std::fs::read_to_string(&f).map_err(|_| ()).and_then(|t| syn::parse_file(&t).map_err(|_| ())) {
            n.visit_file(&a);
        }
    }
    n.0
}

impl Helpers {
    pub fn of(repo: &str, known: &BTreeSet<String>) -> Helpers {
        let mut h = Helpers { fns: BTreeMap::new(), consts: BTreeMap::new() };
        let mut fs = vec![];
        sources(&std::path::Path::new(repo).join("src"), &mut fs);
        for f in fs {
            let Ok(text) = std::fs::read_to_string(&f) else { continue };
            let Ok(ast) = syn::parse_file(&text) else { continue };
            Collect { text: &text, known, h: &mut h }.visit_file(&ast);
        }
        h
    }

    pub fn none(&self) -> bool {
        self.fns.is_empty() && self.consts.is_empty()
    }

    /// the text with calls of helpers replaced; and the names of those
    pub fn inline(&self, text: &str) -> R<(String, BTreeSet<String>)> {
        let mut text = text.to_string();
        let mut used = BTreeSet::new();
        for _ in 0..8 {
            let ast = syn::parse_file(&text).map_err(|e| e.to_string())?;
            let mut c = Calls { h: self, text: &text, bound: vec![], tail: vec![], edits: vec![], used: &mut used, own: vec![] };
            c.visit_file(&ast);
            let mut edits = c.edits;
            if edits.is_empty() {
                break;
            }
            // innermost first; the others in the next round
            edits.sort_by_key(|(r, _)| (r.end - r.start, r.start));
            let mut taken: Vec<(Range<usize>, String)> = vec![];
            for (r, s) in edits {
                if taken.iter().all(|(q, _)| q.end <= r.start || r.end <= q.start) {
                    taken.push((r, s));
                }
            }
            taken.sort_by_key(|(r, _)| std::cmp::Reverse(r.start));
            for (r, s) in taken {
                text.replace_range(r, &s);
            }
        }
        Ok((text, used))
    }
}

struct Calls<'t> {
    h: &'t Helpers,
    text: &'t str,
    bound: Vec<BTreeSet<String>>,
    tail: Vec<Option<Range<usize>>>,
    own: Vec<String>,
    edits: Vec<(Range<usize>, String)>,
    used: &'t mut BTreeSet<String>,
}
impl<'t> Calls<'t> {
    fn get(&self, n: &str) -> Option<&'t Helper> {
        if self.own.iter().any(|o| o == n) {
            return None; // recursive
        }
        self.h.fns.get(n).and_then(|h| h.as_ref())
    }
    fn fits(&self, h: &Helper, at: &Range<usize>) -> bool {
        let tail = self.tail.last().cloned().flatten();
        (!h.escapes || tail.as_ref() == Some(at)) && self.bound.last().is_some_and(|b| h.free.iter().all(|f| f == "self" || !b.contains(f)))
    }
    fn enter<F: FnOnce(&mut Self)>(&mut self, sig: &syn::Signature, block: &syn::Block, f: F) {
        let mut b = Bound::default();
        b.visit_signature(sig);
        b.visit_block(block);
        self.bound.push(b.0);
        self.own.push(sig.ident.to_string());
        self.tail.push(match block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => Some(rng(syn::spanned::Spanned::span(e))),
            _ => None,
        });
        f(self);
        self.tail.pop();
        self.own.pop();
        self.bound.pop();
    }
    fn put(&mut self, n: &str, h: &Helper, at: Range<usize>, args: Vec<String>) {
        if args.len() != h.params.len() || !self.fits(h, &at) {
            return;
        }
        // an argument which is the parameter needs no binding
        let (mut ps, mut xs) = (vec![], vec![]);
        for (p, a) in h.params.iter().zip(&args) {
            if p != a {
                ps.push(p.clone());
                xs.push(a.clone());
            }
        }
        let s = match (&h.tail_only, ps.len()) {
            (Some(e), 0) => format!("({e})"),
            (None, 0) => h.body.clone(),
            (_, 1) => format!("{{ let {} = {}; {} }}", ps[0], xs[0], &h.body[1..h.body.len() - 1]),
            _ => format!("{{ let ({}) = ({}); {} }}", ps.join(", "), xs.join(", "), &h.body[1..h.body.len() - 1]),
        };
        self.used.insert(n.to_string());
        self.edits.push((at, s));
    }
}
fn last_ident(p: &syn::Path) -> Option<String> {
    let pre_ok = p.segments.len() == 1 || p.segments.iter().take(p.segments.len() - 1).all(|s| ["self", "crate", "super", "Self"].contains(&s.ident.to_string().as_str()) || s.ident.to_string().starts_with(char::is_lowercase));
    if pre_ok { p.segments.last().map(|s| s.ident.to_string()) } else { None }
}
impl<'t, 'b> Visit<'b> for Calls<'t> {
    fn visit_item_fn(&mut self, f: &'b syn::ItemFn) {
        self.enter(&f.sig, &f.block, |s| visit::visit_item_fn(s, f));
    }
    fn visit_impl_item_fn(&mut self, f: &'b syn::ImplItemFn) {
        self.enter(&f.sig, &f.block, |s| visit::visit_impl_item_fn(s, f));
    }
    fn visit_expr_closure(&mut self, c: &'b syn::ExprClosure) {
        // a tail within a closure is not the function's
        let t = std::mem::replace(&mut self.tail, vec![None]);
        visit::visit_expr_closure(self, c);
        self.tail = t;
    }
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        let at = rng(syn::spanned::Spanned::span(c));
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(n) = last_ident(&p.path) {
                if let Some(h) = self.get(&n) {
                    if h.receiver.is_none() {
                        let args = c.args.iter().map(|a| self.text[rng(syn::spanned::Spanned::span(a))].to_string()).collect();
                        self.put(&n, h, at, args);
                    }
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    return;
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'b syn::ExprMethodCall) {
        let at = rng(syn::spanned::Spanned::span(c));
        let n = c.method.to_string();
        if let Some(h) = self.get(&n) {
            let recv = &self.text[rng(syn::spanned::Spanned::span(&*c.receiver))];
            if h.receiver.is_some() && recv == "self" {
                let args = c.args.iter().map(|a| self.text[rng(syn::spanned::Spanned::span(a))].to_string()).collect();
                self.put(&n, h, at, args);
            }
        }
        visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'b syn::ExprPath) {
        let at = rng(syn::spanned::Spanned::span(p));
        if let Some(n) = last_ident(&p.path) {
            if let Some(Some(v)) = self.h.consts.get(&n) {
                self.used.insert(n);
                self.edits.push((at, format!("({v})")));
            } else if let Some(h) = self.get(&n) {
                // a function given as a value
                if h.receiver.is_none() && !h.escapes && self.bound.last().is_some_and(|b| h.free.iter().all(|f| !b.contains(f))) {
                    let b = h.tail_only.clone().unwrap_or(h.body.clone());
                    self.used.insert(n);
                    self.edits.push((at, format!("|{}| {b}", h.params.join(", "))));
                }
            }
        }
        visit::visit_expr_path(self, p);
    }
}
