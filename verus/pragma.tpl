// Unit pragma: applying pragmas to directives, src/lib.rs PragmaProcessor and src/parsers.rs Metadata::augment_* (C06, C07, C16, C17)
#![allow(unused)]
#![feature(allocator_api)]
#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::VecDeque;
macro_rules! format { ($($t:tt)*) => { formatted() } }
verus! {
@@include mem.inc
@@include deque.inc
@@include hashed.inc
@@include option.inc

// ---------------------------------------------------------------- stubs
#[verifier::external_body] fn formatted() -> String { unimplemented!() }
#[verifier::external_body] #[derive(Clone, Copy)] struct Date { x: u8 }
#[verifier::external_body] struct MetaValue<'a> { x: &'a u8 }
#[verifier::external_body] struct Transaction<'a> { x: &'a u8 }
#[verifier::external_body] struct Price<'a> { x: &'a u8 }
#[verifier::external_body] struct Balance<'a> { x: &'a u8 }
#[verifier::external_body] struct Open<'a> { x: &'a u8 }
#[verifier::external_body] struct Close<'a> { x: &'a u8 }
#[verifier::external_body] struct Commodity<'a> { x: &'a u8 }
#[verifier::external_body] struct Pad<'a> { x: &'a u8 }
#[verifier::external_body] struct Document<'a> { x: &'a u8 }
#[verifier::external_body] struct Note<'a> { x: &'a u8 }
#[verifier::external_body] struct Event<'a> { x: &'a u8 }
#[verifier::external_body] struct Query<'a> { x: &'a u8 }
#[verifier::external_body] struct Custom<'a> { x: &'a u8 }
#[verifier::external_body] struct BeancountOption<'a> { x: &'a u8 }
#[verifier::external_body] struct Warning { x: u8 }
#[verifier::external_body] struct IoError { x: u8 }

// an error, and where it is
#[verifier::external_body] struct Error { x: u8 }
impl Error {
    uninterp spec fn at(&self) -> Span;
    #[verifier::external_body]
    fn new<A, B>(message: A, reason: B, span: Span) -> (e: Error) ensures e.at() == span { unimplemented!() }
    #[verifier::external_body]
    fn related_to_named_span<A>(self, name: A, span: Span) -> (e: Error) ensures e.at() == self.at() { unimplemented!() }
}
// recording of an option (C08)
#[verifier::external_body] struct Options<'a> { x: &'a u8 }
impl<'a> Options<'a> {
    uninterp spec fn after(&self, o: BeancountOption<'a>) -> Options<'a>;
    uninterp spec fn error(&self, o: BeancountOption<'a>) -> Option<Span>;
    #[verifier::external_body]
    fn assimilate(&mut self, opt: BeancountOption<'a>) -> (r: Result<(), Error>)
        ensures *final(self) == old(self).after(opt), (r is Err) == (old(self).error(opt) is Some), r is Err ==> Some((r->Err_0).at()) == old(self).error(opt),
    { unimplemented!() }
}
// paths: what a path is called, resolution against the file including it, and its canonical form, which is assumed not to change during a parse
#[verifier::external_body] struct Path { x: std::path::Path }
impl Path { uninterp spec fn name(&self) -> Seq<char>; }
#[verifier::external_body] struct PathBuf { x: std::path::PathBuf }
impl PathBuf {
    uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    fn canonicalize(&self) -> (r: Result<PathBuf, IoError>)
        ensures (r is Ok) == (canonical(self.name()) is Some), r is Ok ==> Some((r->Ok_0).name()) == canonical(self.name()),
    { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.name() == self.name() { unimplemented!() }
}
uninterp spec fn canonical(p: Seq<char>) -> Option<Seq<char>>;
uninterp spec fn against(including: Option<Seq<char>>, included: Seq<char>) -> Seq<char>;
spec fn pname(p: Option<PathBuf>) -> Option<Seq<char>> { match p { Some(p) => Some(p.name()), None => None } }
#[verifier::external_body]
fn as_path<'a>(s: &'a str) -> (r: &'a Path) ensures r.name() == s@ { unimplemented!() }
#[verifier::external_body]
fn resolve_included_path(including: Option<&PathBuf>, included: &Path) -> (r: PathBuf)
    ensures r.name() == against(match including { Some(p) => Some(p.name()), None => None }, included.name()),
{ unimplemented!() }

// what distinguishes keys of a hash map from each other
impl<'a> Content for Spanned<Tag<'a>> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.item.0@ } }
impl<'a> Content for Spanned<Link<'a>> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.item.0@ } }
impl<'a> Content for Spanned<Key<'a>> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.item.0@ } }
impl Content for PathBuf { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.name() } }
impl Content for Option<PathBuf> { type C = Option<Seq<char>>; spec fn content(&self) -> Option<Seq<char>> { pname(*self) } }
#[derive(Clone, Copy)]
@@item src/types.rs Span;
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
@@item src/types.rs Spanned;
#[derive(Clone, Copy)]
@@item src/types.rs Tag;
#[derive(Clone, Copy)]
@@item src/types.rs Link;
#[derive(Clone, Copy)]
@@item src/types.rs Key;
@@item src/types.rs Metadata;
@@item src/types.rs Directive;
@@item src/types.rs DirectiveVariant;
@@item src/types.rs Declaration;
@@item src/types.rs Pragma;
@@item src/types.rs MetaKeyValue;
@@item src/types.rs Plugin;
@@item src/lib.rs IncludedGlob;
@@item src/lib.rs IncludeContext;
@@item src/lib.rs PragmaProcessor;

@@fn src/types.rs spanned
@ret r
@spec
    ensures r.item == item, r.span == span,
@@end
impl<T> Spanned<T> {
@@fn src/types.rs Spanned::item
@ret r
@spec
    ensures *r == self.item,
@@end
@@fn src/types.rs Spanned::span
@ret r
@spec
    ensures *r == self.span,
@@end
}
#[verifier::external_body]
fn clone_value<'a>(v: &Spanned<MetaValue<'a>>) -> (r: Spanned<MetaValue<'a>>) ensures r == *v { unimplemented!() }

// ---------------------------------------------------------------- specification

type Tags<'a> = HashMap<Spanned<Tag<'a>>, Vec<Spanned<Tag<'a>>>>;
type Metas<'a> = HashMap<Spanned<Key<'a>>, Vec<(Span, Spanned<MetaValue<'a>>)>>;
/// outstanding pushes of each tag, oldest first
spec fn tag_stacks<'a>(m: Tags<'a>) -> Map<Seq<char>, Seq<Spanned<Tag<'a>>>> { Map::new(m@.dom(), |t: Seq<char>| seq![m@[t].0] + m@[t].1@) }

/// every push is recorded under its tag
spec fn tags_wf<'a>(m: Map<Seq<char>, (Spanned<Tag<'a>>, Vec<Spanned<Tag<'a>>>)>) -> bool {
    &&& keyed(m)
    &&& forall|t: Seq<char>, i: int| #[trigger] m.contains_key(t) && 0 <= i < m[t].1@.len() ==> (#[trigger] m[t].1@[i]).content() == t
}
spec fn metas_wf<'a>(m: Map<Seq<char>, (Spanned<Key<'a>>, Vec<(Span, Spanned<MetaValue<'a>>)>)>) -> bool {
    &&& keyed(m)
    &&& forall|t: Seq<char>| #[trigger] m.contains_key(t) ==> m[t].1@.len() > 0
}
/// C06: own tags win; otherwise the most recent push
spec fn tags_augmented<'a>(old_tags: Map<Seq<char>, Spanned<Tag<'a>>>, stacks: Map<Seq<char>, Seq<Spanned<Tag<'a>>>>, new_tags: Map<Seq<char>, Spanned<Tag<'a>>>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] new_tags.contains_key(t) <==> old_tags.contains_key(t) || stacks.contains_key(t)
    &&& forall|t: Seq<char>| #[trigger] old_tags.contains_key(t) ==> new_tags[t] == old_tags[t]
    &&& forall|t: Seq<char>| #[trigger] stacks.contains_key(t) && !old_tags.contains_key(t) ==> new_tags[t] == stacks[t].last()
}
/// C07
spec fn metas_augmented<'a>(old_kvs: Map<Seq<char>, (Spanned<Key<'a>>, Spanned<MetaValue<'a>>)>, stacks: Map<Seq<char>, Seq<(Span, Spanned<MetaValue<'a>>)>>, new_kvs: Map<Seq<char>, (Spanned<Key<'a>>, Spanned<MetaValue<'a>>)>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] new_kvs.contains_key(t) <==> old_kvs.contains_key(t) || stacks.contains_key(t)
    &&& forall|t: Seq<char>| #[trigger] old_kvs.contains_key(t) ==> new_kvs[t] == old_kvs[t]
    &&& forall|t: Seq<char>| #[trigger] stacks.contains_key(t) && !old_kvs.contains_key(t) ==> new_kvs[t].1 == stacks[t].last().1 && new_kvs[t].0.span == stacks[t].last().0
}
spec fn meta_stacks<'a>(m: Metas<'a>) -> Map<Seq<char>, Seq<(Span, Spanned<MetaValue<'a>>)>> { m@.map_values(|v: (Spanned<Key<'a>>, Vec<(Span, Spanned<MetaValue<'a>>)>)| v.1@) }

impl<'a> Metadata<'a> {
@@fn src/parsers.rs Metadata::augment_tags
@spec
    requires tags_wf(tags@),
    ensures
        tags_augmented(old(self).tags@, tag_stacks(*tags), final(self).tags@), // [C06]
        final(self).key_values == old(self).key_values, final(self).links == old(self).links,
@start
    broadcast use among_push;
    let ghost mut h = Seq::<(&Spanned<Tag<'a>>, &Vec<Spanned<Tag<'a>>>)>::empty();
@afterloop 1
    proof { assert forall|t: Seq<char>| #[trigger] tags@.contains_key(t) implies among(h, t) && self.tags@.contains_key(t) by {} }
@loop 1 for y .iter()
    invariant
        h == y.history(), tags_wf(tags@), enumerates(y.seq(), tags@),
        forall|i: int| #![trigger y.seq()[i]] 0 <= i < h.len() ==> h[i] == y.seq()[i],
        self.key_values == old(self).key_values, self.links == old(self).links,
        forall|t: Seq<char>| #[trigger] among(h, t) ==> tags@.contains_key(t),
        forall|t: Seq<char>| #[trigger] self.tags@.contains_key(t) <==> old(self).tags@.contains_key(t) || among(h, t),
        forall|t: Seq<char>| #[trigger] old(self).tags@.contains_key(t) ==> self.tags@[t] == old(self).tags@[t],
        forall|t: Seq<char>| #[trigger] self.tags@.contains_key(t) && !old(self).tags@.contains_key(t) ==> self.tags@[t] == tag_stacks(*tags)[t].last(),
@loopstart 1
    proof { assert(y.seq()[h.len() as int] == (tag, spans)); }
@loopend 1
    proof { assert forall|t: Seq<char>| #[trigger] among(h.push((tag, spans)), t) == (among(h, t) || tag.content() == t) by { among_push(h, (tag, spans), t); }
        h = h.push((tag, spans)); }
@@end
@@fn src/parsers.rs Metadata::augment_key_values
@spec
    requires metas_wf(key_values@),
    ensures
        metas_augmented(old(self).key_values@, meta_stacks(*key_values), final(self).key_values@), // [C07]
        final(self).tags == old(self).tags, final(self).links == old(self).links,
@subst? value.clone() =>> clone_value(value)
@start
    let ghost mut h = Seq::<(&Spanned<Key<'a>>, &Vec<(Span, Spanned<MetaValue<'a>>)>)>::empty();
@afterloop 1
    proof { assert forall|t: Seq<char>| #[trigger] key_values@.contains_key(t) implies among(h, t) && self.key_values@.contains_key(t) by {} }
@loop 1 for y .iter()
    invariant
        h == y.history(), metas_wf(key_values@), enumerates(y.seq(), key_values@),
        forall|i: int| #![trigger y.seq()[i]] 0 <= i < h.len() ==> h[i] == y.seq()[i],
        self.tags == old(self).tags, self.links == old(self).links,
        forall|t: Seq<char>| #[trigger] among(h, t) ==> key_values@.contains_key(t),
        forall|t: Seq<char>| #[trigger] self.key_values@.contains_key(t) <==> old(self).key_values@.contains_key(t) || among(h, t),
        forall|t: Seq<char>| #[trigger] old(self).key_values@.contains_key(t) ==> self.key_values@[t] == old(self).key_values@[t],
        forall|t: Seq<char>| #[trigger] self.key_values@.contains_key(t) && !old(self).key_values@.contains_key(t) ==>
            self.key_values@[t].1 == meta_stacks(*key_values)[t].last().1 && self.key_values@[t].0.span == meta_stacks(*key_values)[t].last().0,
@loopstart 1
    proof { assert(y.seq()[h.len() as int] == (key, values)); }
@loopend 1
    proof { assert forall|t: Seq<char>| #[trigger] among(h.push((key, values)), t) == (among(h, t) || key.content() == t) by { among_push(h, (key, values), t); }
        h = h.push((key, values)); }
@@end
}

// ---------------------------------------------------------------- specification of pragmas: one declaration at a time

type Decl<'s> = Spanned<Declaration<'s>>;
type TagStacks<'s> = Map<Seq<char>, Seq<Spanned<Tag<'s>>>>;
type MetaStacks<'s> = Map<Seq<char>, Seq<(Span, Spanned<MetaValue<'s>>)>>;
/// what is to be processed, and what has been gathered so far
#[verifier::ext_equal]
ghost struct St<'s> {
    path: Option<Seq<char>>,
    cur: Seq<Decl<'s>>,
    stack: Seq<(Option<Seq<char>>, Seq<Decl<'s>>)>,
    remaining: Map<Option<Seq<char>>, Seq<Decl<'s>>>,
    contexts: Map<Seq<char>, (TagStacks<'s>, MetaStacks<'s>)>,
    tags: TagStacks<'s>,
    metas: MetaStacks<'s>,
    options: Options<'s>,
    plugins: Seq<Plugin<'s>>,
    errors: Seq<Span>,
}
/// C06: push and pop of tags
spec fn pushed_tag<'s>(s: TagStacks<'s>, t: Spanned<Tag<'s>>) -> TagStacks<'s> {
    s.insert(t.content(), if s.contains_key(t.content()) { s[t.content()].push(t) } else { seq![t] })
}
spec fn popped<X>(s: Map<Seq<char>, Seq<X>>, c: Seq<char>) -> Map<Seq<char>, Seq<X>> {
    if !s.contains_key(c) { s } else if s[c].len() <= 1 { s.remove(c) } else { s.insert(c, s[c].drop_last()) }
}
/// C07
spec fn pushed_meta<'s>(s: MetaStacks<'s>, kv: MetaKeyValue<'s>) -> MetaStacks<'s> {
    let x = (kv.key.span, kv.value);
    s.insert(kv.key.content(), if s.contains_key(kv.key.content()) { s[kv.key.content()].push(x) } else { seq![x] })
}
spec fn complain<'s>(s: St<'s>, at: Span) -> St<'s> { St { errors: s.errors.push(at), ..s } }
/// equality of pushed values, wherever they are
uninterp spec fn same_value<'s>(a: Spanned<MetaValue<'s>>, b: Spanned<MetaValue<'s>>) -> bool;
spec fn same_metas<'s>(a: MetaStacks<'s>, b: MetaStacks<'s>) -> bool {
    &&& a.dom() == b.dom()
    &&& forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> a[k].len() == b[k].len() && forall|i: int| 0 <= i < a[k].len() ==> same_value((#[trigger] a[k][i]).1, b[k][i].1)
}
spec fn same_pushes<'s>(a: TagStacks<'s>, b: TagStacks<'s>) -> bool {
    a.dom() == b.dom() && forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> a[k].len() == b[k].len()
}
/// C17: a file in the place of its include; a file which cannot be read; a repetition, harmless in the same context
spec fn include_one<'s>(s: St<'s>, unreadable: Set<Option<Seq<char>>>, p: Seq<char>, at: Span) -> St<'s> {
    if s.remaining.contains_key(Some(p)) {
        St {
            path: Some(p), cur: s.remaining[Some(p)], stack: seq![(s.path, s.cur)] + s.stack, remaining: s.remaining.remove(Some(p)),
            contexts: match canonical(p) { Some(c) => s.contexts.insert(c, (s.tags, s.metas)), None => s.contexts },
            ..s
        }
    } else if unreadable.contains(Some(p)) { complain(s, at) }
    else {
        match canonical(p) {
            Some(c) if s.contexts.contains_key(c) && same_pushes(s.contexts[c].0, s.tags) && same_metas(s.contexts[c].1, s.metas) => s,
            _ => complain(s, at),
        }
    }
}
spec fn include_all<'s>(s: St<'s>, unreadable: Set<Option<Seq<char>>>, paths: Seq<PathBuf>, at: Span) -> St<'s>
    decreases paths.len(),
{
    if paths.len() == 0 { s } else { include_one(include_all(s, unreadable, paths.drop_last(), at), unreadable, paths.last().name(), at) }
}
spec fn include<'s>(s: St<'s>, globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>, what: Spanned<&'s str>) -> St<'s> {
    match globs[against(s.path, what.item@)].1 {
        IncludedGlob::Expanded(paths) => include_all(if paths@.len() == 0 { complain(s, what.span) } else { s }, unreadable, paths@, what.span),
        IncludedGlob::Error(_) => complain(s, what.span),
    }
}
/// C16: plugins in order
spec fn apply<'s>(s: St<'s>, globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>, p: Pragma<'s>) -> St<'s> {
    match p {
        Pragma::Pushtag(t) => St { tags: pushed_tag(s.tags, t), ..s },
        Pragma::Poptag(t) => { let r = St { tags: popped(s.tags, t.content()), ..s }; if s.tags.contains_key(t.content()) { r } else { complain(r, t.span) } },
        Pragma::Pushmeta(kv) => St { metas: pushed_meta(s.metas, kv), ..s },
        Pragma::Popmeta(k) => { let r = St { metas: popped(s.metas, k.content()), ..s }; if s.metas.contains_key(k.content()) { r } else { complain(r, k.span) } },
        Pragma::Include(what) => include(s, globs, unreadable, what),
        Pragma::Option(o) => { let r = St { options: s.options.after(o), ..s }; match s.options.error(o) { Some(at) => complain(r, at), None => r } },
        Pragma::Plugin(p) => St { plugins: s.plugins.push(p), ..s },
    }
}
/// there is something to do before the next directive
spec fn silent<'s>(s: St<'s>) -> bool { if s.cur.len() > 0 { s.cur[0].item is Pragma } else { s.stack.len() > 0 } }
spec fn step<'s>(s: St<'s>, globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>) -> St<'s> {
    if s.cur.len() > 0 { apply(St { cur: s.cur.drop_first(), ..s }, globs, unreadable, s.cur[0].item->Pragma_0) }
    else { St { path: s.stack[0].0, cur: s.stack[0].1, stack: s.stack.drop_first(), ..s } }
}
spec fn reaches_in<'s>(s: St<'s>, t: St<'s>, globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>, n: nat) -> bool
    decreases n,
{
    if n == 0 { s == t } else { silent(s) && reaches_in(step(s, globs, unreadable), t, globs, unreadable, (n - 1) as nat) }
}
spec fn reaches<'s>(s: St<'s>, t: St<'s>, globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>) -> bool { exists|n: nat| #[trigger] reaches_in(s, t, globs, unreadable, n) }
/// C06, C07: a directive under what is pushed
spec fn under<'s>(d: Directive<'s>, s: St<'s>, r: Directive<'s>) -> bool {
    &&& r.date == d.date && r.variant == d.variant && r.metadata.span == d.metadata.span && r.metadata.item.links == d.metadata.item.links
    &&& tags_augmented(d.metadata.item.tags@, s.tags, r.metadata.item.tags@)
    &&& metas_augmented(d.metadata.item.key_values@, s.metas, r.metadata.item.key_values@)
}
/// the next directive, or none
spec fn yields<'s>(s: St<'s>, t: St<'s>, globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>, r: Option<Spanned<Directive<'s>>>) -> bool {
    exists|m: St<'s>| #[trigger] reaches(s, m, globs, unreadable) && !silent(m) && match r {
        Some(d) => m.cur.len() > 0 && m.cur[0].item is Directive && d.span == m.cur[0].span && under(m.cur[0].item->Directive_0, m, d.item) && t == (St { cur: m.cur.drop_first(), ..m }),
        None => m.cur.len() == 0 && m.stack.len() == 0 && t == m,
    }
}
proof fn yields_prepend<'s>(s: St<'s>, t: St<'s>, globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>, r: Option<Spanned<Directive<'s>>>)
    requires silent(s), yields(step(s, globs, unreadable), t, globs, unreadable, r),
    ensures yields(s, t, globs, unreadable, r),
{
    let m = choose|m: St<'s>| #[trigger] reaches(step(s, globs, unreadable), m, globs, unreadable) && !silent(m) && match r {
        Some(d) => m.cur.len() > 0 && m.cur[0].item is Directive && d.span == m.cur[0].span && under(m.cur[0].item->Directive_0, m, d.item) && t == (St { cur: m.cur.drop_first(), ..m }),
        None => m.cur.len() == 0 && m.stack.len() == 0 && t == m,
    };
    let n = choose|n: nat| #[trigger] reaches_in(step(s, globs, unreadable), m, globs, unreadable, n);
    assert(reaches_in(s, m, globs, unreadable, n + 1));
    assert(reaches(s, m, globs, unreadable));
}
proof fn yields_at_once<'s>(s: St<'s>) ensures forall|globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>| #[trigger] reaches(s, s, globs, unreadable) {
    assert forall|globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>| #[trigger] reaches(s, s, globs, unreadable) by { assert(reaches_in(s, s, globs, unreadable, 0)); }
}

/// what is left to process shrinks with every step: declarations, and files not yet done with
spec fn stack_weight<'s>(s: Seq<(Option<Seq<char>>, Seq<Decl<'s>>)>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { 1 + s[0].1.len() + stack_weight(s.drop_first()) } }
spec fn files_weight<'s>(m: Map<Option<Seq<char>>, Seq<Decl<'s>>>) -> nat decreases m.dom().len() {
    if m.dom().len() == 0 { 0 } else { let p = m.dom().choose(); if m.contains_key(p) && m.remove(p).dom().len() < m.dom().len() { 1 + m[p].len() + files_weight(m.remove(p)) } else { 0 } }
}
spec fn weight<'s>(s: St<'s>) -> nat { s.cur.len() + stack_weight(s.stack) + files_weight(s.remaining) }
proof fn files_weight_remove<'s>(m: Map<Option<Seq<char>>, Seq<Decl<'s>>>, p: Option<Seq<char>>)
    requires m.contains_key(p),
    ensures files_weight(m) == 1 + m[p].len() + files_weight(m.remove(p)),
    decreases m.dom().len(),
{
    let q = m.dom().choose();
    assert(m.dom().contains(p));
    assert(m.dom().contains(q));
    assert(m.remove(q).dom() =~= m.dom().remove(q));
    assert(m.remove(p).dom() =~= m.dom().remove(p));
    if p != q {
        files_weight_remove(m.remove(q), p);
        files_weight_remove(m.remove(p), q);
        assert(m.remove(q).remove(p) =~= m.remove(p).remove(q));
    }
}
proof fn include_one_weight<'s>(s: St<'s>, unreadable: Set<Option<Seq<char>>>, p: Seq<char>, at: Span) ensures weight(include_one(s, unreadable, p, at)) == weight(s) {
    if s.remaining.contains_key(Some(p)) {
        files_weight_remove(s.remaining, Some(p));
        let t = seq![(s.path, s.cur)] + s.stack;
        assert(t.drop_first() =~= s.stack);
    }
}
proof fn include_all_weight<'s>(s: St<'s>, unreadable: Set<Option<Seq<char>>>, paths: Seq<PathBuf>, at: Span) ensures weight(include_all(s, unreadable, paths, at)) == weight(s)
    decreases paths.len(),
{
    if paths.len() > 0 { include_all_weight(s, unreadable, paths.drop_last(), at); include_one_weight(include_all(s, unreadable, paths.drop_last(), at), unreadable, paths.last().name(), at); }
}
proof fn step_weight<'s>(s: St<'s>, globs: Map<Seq<char>, (PathBuf, IncludedGlob)>, unreadable: Set<Option<Seq<char>>>) requires silent(s), ensures weight(step(s, globs, unreadable)) < weight(s) {
    if s.cur.len() > 0 {
        let t = St { cur: s.cur.drop_first(), ..s };
        match s.cur[0].item->Pragma_0 {
            Pragma::Include(what) => match globs[against(t.path, what.item@)].1 {
                IncludedGlob::Expanded(paths) => { include_all_weight(if paths@.len() == 0 { complain(t, what.span) } else { t }, unreadable, paths@, what.span); }
                _ => {}
            },
            _ => {}
        }
    }
}

/// every include of a file has been expanded
spec fn covered<'s>(path: Option<Seq<char>>, ds: Seq<Decl<'s>>, globs: Map<Seq<char>, (PathBuf, IncludedGlob)>) -> bool {
    forall|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).item is Pragma && ds[i].item->Pragma_0 is Include ==> globs.contains_key(against(path, (ds[i].item->Pragma_0->Include_0).item@))
}
spec fn spans(errors: Seq<Error>) -> Seq<Span> { errors.map_values(|e: Error| e.at()) }
spec fn stack_of<'s>(s: Seq<(Option<PathBuf>, VecDeque<Decl<'s>>)>) -> Seq<(Option<Seq<char>>, Seq<Decl<'s>>)> { s.map_values(|x: (Option<PathBuf>, VecDeque<Decl<'s>>)| (pname(x.0), x.1@)) }
spec fn decls_of<'s>(m: Map<Option<Seq<char>>, (Option<PathBuf>, VecDeque<Decl<'s>>)>) -> Map<Option<Seq<char>>, Seq<Decl<'s>>> { m.map_values(|x: (Option<PathBuf>, VecDeque<Decl<'s>>)| x.1@) }
spec fn contexts_of<'s>(m: Map<Seq<char>, (PathBuf, IncludeContext<'s>)>) -> Map<Seq<char>, (TagStacks<'s>, MetaStacks<'s>)> { m.map_values(|x: (PathBuf, IncludeContext<'s>)| (tag_stacks(x.1.tags), meta_stacks(x.1.meta_key_values))) }
impl<'s> PragmaProcessor<'s> {
    spec fn st(&self) -> St<'s> {
        St {
            path: pname(self.current_path), cur: self.current_declarations@, stack: stack_of(self.stacked@), remaining: decls_of(self.remaining@), contexts: contexts_of(self.include_by_canonical_path@),
            tags: tag_stacks(self.tags), metas: meta_stacks(self.meta_key_values), options: self.options, plugins: self.plugins@, errors: spans(self.errors@),
        }
    }
    spec fn globs(&self) -> Map<Seq<char>, (PathBuf, IncludedGlob)> { self.included_globs@ }
    spec fn unreadable(&self) -> Set<Option<Seq<char>>> { self.error_paths@.dom() }
    spec fn wf(&self) -> bool {
        &&& tags_wf(self.tags@) && metas_wf(self.meta_key_values@) && keyed(self.remaining@)
        &&& covered(pname(self.current_path), self.current_declarations@, self.globs())
        &&& forall|i: int| 0 <= i < self.stacked@.len() ==> covered(pname((#[trigger] self.stacked@[i]).0), self.stacked@[i].1@, self.globs())
        &&& forall|p: Option<Seq<char>>| #[trigger] self.remaining@.contains_key(p) ==> covered(p, self.remaining@[p].1@, self.globs())
        &&& forall|p: Seq<char>| #[trigger] self.include_by_canonical_path@.contains_key(p) ==> tags_wf(self.include_by_canonical_path@[p].1.tags@) && metas_wf(self.include_by_canonical_path@[p].1.meta_key_values@)
    }
}
// equality of hash maps of pushes: the same tags, equally often
#[verifier::external_body]
fn same_tags<'s>(a: &Tags<'s>, b: &Tags<'s>) -> (r: bool)
    requires tags_wf(a@), tags_wf(b@),
    ensures r == same_pushes(tag_stacks(*a), tag_stacks(*b)),
{ unimplemented!() }
#[verifier::external_body]
fn same_values<'s>(a: &Vec<(Span, Spanned<MetaValue<'s>>)>, b: &Vec<(Span, Spanned<MetaValue<'s>>)>) -> (r: bool)
    ensures r == (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> same_value((#[trigger] a@[i]).1, b@[i].1)),
{ unimplemented!() }
impl<K: Content, V> HashMap<K, V> {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    fn all_<F: FnMut((&K, &V)) -> bool>(&self, f: F) -> (r: bool)
        requires forall|c: K::C| self@.contains_key(c) ==> f.requires(((&(#[trigger] self@[c]).0, &self@[c].1),)),
        ensures
            r ==> forall|c: K::C| self@.contains_key(c) ==> f.ensures(((&(#[trigger] self@[c]).0, &self@[c].1),), true),
            !r ==> exists|c: K::C| self@.contains_key(c) && f.ensures(((&(#[trigger] self@[c]).0, &self@[c].1),), false),
    { unimplemented!() }
}
spec fn same_stack<'s>(x: Seq<(Span, Spanned<MetaValue<'s>>)>, y: Seq<(Span, Spanned<MetaValue<'s>>)>) -> bool {
    x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> same_value((#[trigger] x[i]).1, y[i].1)
}
@@fn src/lib.rs same_meta_key_values
@ret r
@dropfn values
@subst? .iter().all =>> .all_
@subst? values(v).eq(values(w)) =>> same_values(v, w)
@closure all#0
    |q: (&Spanned<Key<'s>>, &Vec<(Span, Spanned<MetaValue<'s>>)>)| -> (z: bool) ensures z == (b@.contains_key(q.0.content()) && same_stack(q.1@, b@[q.0.content()].1@)) { $bind0(q) $body }
@closure is_some_and#0
    |$p0: &Vec<(Span, Spanned<MetaValue<'s>>)>| -> (z: bool) ensures z == same_stack(v@, $p0@) { $body }
@spec
    requires keyed(a@), keyed(b@),
    ensures r == same_metas(meta_stacks(*a), meta_stacks(*b)), // [C17]
@wrapend
    proof {
        let x = meta_stacks(*a); let y = meta_stacks(*b);
        assert(x.dom() =~= a@.dom()); assert(y.dom() =~= b@.dom());
        if r_ {
            assert forall|c: Seq<char>| x.dom().contains(c) implies y.dom().contains(c) by { let _ = a@[c]; }
            vstd::set_lib::lemma_subset_equality(x.dom(), y.dom());
            assert forall|k: Seq<char>| #[trigger] x.contains_key(k) implies same_stack(x[k], y[k]) by { let _ = a@[k]; }
        }
    }
@@end
#[verifier::external_body]
fn replace<T>(dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src { unimplemented!() }
#[verifier::external_body]
fn paths_of<'b>(v: &'b Vec<PathBuf>) -> (r: std::vec::IntoIter<&'b PathBuf>)
    ensures lists(r.remaining(), v@), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
{ unimplemented!() }
spec fn lists<T>(s: Seq<&T>, v: Seq<T>) -> bool { s.len() == v.len() && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> *s[i] == v[i] }

impl<'s> PragmaProcessor<'s> {
@@fn src/lib.rs Iterator@PragmaProcessor::next
@sig
fn next(&mut self) -> (r: Option<Spanned<Directive<'s>>>)
@subst? directive.metadata.augment_tags =>> directive.metadata.item.augment_tags
@subst? directive.metadata.augment_key_values =>> directive.metadata.item.augment_key_values
@subst? AsRef::<Path>::as_ref(*rel_glob.item()) =>> as_path(*rel_glob.item())
@subst? include_context.tags == self.tags =>> same_tags(&include_context.tags, &self.tags)
@subst? std::mem::replace =>> replace
@closure and_then#0
    |$p0: PathBuf| -> (v: std::option::Option<PathBuf>) ensures (v is Some) == (canonical($p0.name()) is Some), v is Some ==> Some((v->0).name()) == canonical($p0.name()) { $body }
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).globs() == old(self).globs(), final(self).unreadable() == old(self).unreadable(), final(self).warnings == old(self).warnings,
        yields(old(self).st(), final(self).st(), old(self).globs(), old(self).unreadable(), r), // [C06, C07, C16, C17]
    decreases weight(old(self).st()),
@start
    let ghost s0 = self.st(); let ghost tags0 = self.tags@;
    let ghost g = self.globs(); let ghost u = self.unreadable();
    proof {
        yields_at_once(s0);
        if silent(s0) { step_weight(s0, g, u); }
        assert forall|t: St<'s>, r: Option<Spanned<Directive<'s>>>| silent(s0) && #[trigger] yields(step(s0, g, u), t, g, u, r) implies yields(s0, t, g, u, r) by { yields_prepend(s0, t, g, u, r); }
    }
    let ghost mut s1 = s0; let ghost mut n = 0int;
@wrapend
    proof {
        if !silent(s0) {
            assert(reaches(s0, s0, g, u));
            if s0.cur.len() > 0 { assert(self.st() =~= St { cur: s0.cur.drop_first(), ..s0 }); } else { assert(self.st() =~= s0); }
        }
    }
@beforeloop 1
    proof { s1 = self.st(); let s2 = St { cur: s0.cur.drop_first(), ..s0 }; assert(s1 =~= if paths@.len() == 0 { complain(s2, span) } else { s2 }); }
@loop 1 for y .iter()
    invariant
        self.wf(), self.globs() == g, self.unreadable() == u, self.warnings == old(self).warnings,
        n == y.history().len(), 0 <= n <= paths@.len(), y.seq().len() == paths@.len(), forall|i: int| #![trigger y.seq()[i]] 0 <= i < y.seq().len() ==> *y.seq()[i] == paths@[i],
        self.st() == include_all(s1, u, paths@.take(n), span),
@loopstart 1
    let ghost here = self.st();
    proof { assert(*y.seq()[n] == paths@[n]); assert(paths@.take(n + 1).drop_last() =~= paths@.take(n)); }
@loopend 1
    proof { n = n + 1; assert(self.st() =~= include_one(here, u, paths@[n - 1].name(), span)); }
@afterloop 1
    proof { assert(paths@.take(n) =~= paths@); }
@before? self.next()
    proof {
        let p = s0.cur[0].item->Pragma_0;
        if p is Pushtag { assert(self.st() =~= step(s0, g, u)); }
        if p is Poptag {
            let c = (p->Poptag_0).content();
            if s0.tags.contains_key(c) && s0.tags[c].len() > 1 { assert(self.st().tags[c] =~= s0.tags[c].drop_last()); }
            assert(self.st() =~= step(s0, g, u));
        }
        if p is Pushmeta {
            let kv = p->Pushmeta_0; let c = kv.key.content();
            if !s0.metas.contains_key(c) { assert(self.st().metas[c] =~= seq![(kv.key.span, kv.value)]); }
            assert(self.st() =~= step(s0, g, u));
        }
        if p is Popmeta { assert(self.st() =~= step(s0, g, u)); }
        if p is Include { assert(self.st() =~= step(s0, g, u)); }
        if p is Option { assert(self.st() =~= step(s0, g, u)); }
        if p is Plugin { assert(self.st() =~= step(s0, g, u)); }
        assert forall|t: Seq<char>, i: int| #[trigger] self.tags@.contains_key(t) && 0 <= i < self.tags@[t].1@.len() implies (#[trigger] self.tags@[t].1@[i]).content() == t by {
            if tags0.contains_key(t) && i < tags0[t].1@.len() { assert(tags0[t].1@[i].content() == t); }
        }
        assert(tags_wf(self.tags@)); assert(metas_wf(self.meta_key_values@)); assert(keyed(self.remaining@));
        assert(covered(pname(self.current_path), self.current_declarations@, self.globs()));
        assert(self.wf());
    }
@after? self.current_declarations = declarations;
    proof { assert(self.st() =~= step(s0, g, u)); }
@@end
}

// assumed: owned iteration over hash maps and vectors
spec fn drains<K: Content, V>(s: Seq<(K, V)>, m: Map<K::C, (K, V)>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0.content()) && m[s[i].0.content()] == s[i]
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0.content() != s[j].0.content()
    &&& forall|c: K::C| #[trigger] m.contains_key(c) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.content() == c
}
trait IntoEntries<T> { fn into_entries(self) -> (r: std::vec::IntoIter<T>); }
impl<K: Content, V> IntoEntries<(K, V)> for HashMap<K, V> {
    #[verifier::external_body]
    fn into_entries(self) -> (r: std::vec::IntoIter<(K, V)>) ensures drains(r.remaining(), self@), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some { unimplemented!() }
}
impl<T> IntoEntries<T> for Vec<T> {
    #[verifier::external_body]
    fn into_entries(self) -> (r: std::vec::IntoIter<T>) ensures r.remaining() == self@, r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some { unimplemented!() }
}
/// C06, C07: what is reported of pushes never popped, in some order of the tags and keys
spec fn key_spans<'s>(ks: Seq<(Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>)>) -> Seq<Span> { ks.map_values(|x: (Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>)| x.0.span) }
spec fn tag_spans<'s>(x: (Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>), n: int) -> Seq<Span> { seq![x.0.span] + x.1@.take(n).map_values(|t: Spanned<Tag<'s>>| t.span) }
spec fn all_tag_spans<'s>(ts: Seq<(Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>)>) -> Seq<Span> decreases ts.len() {
    if ts.len() == 0 { seq![] } else { all_tag_spans(ts.drop_last()) + tag_spans(ts.last(), ts.last().1@.len() as int) }
}
spec fn leftover<'s>(p: PragmaProcessor<'s>, errors: Seq<Span>) -> bool {
    exists|ks: Seq<(Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>)>, ts: Seq<(Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>)>|
        drains(ks, p.meta_key_values@) && drains(ts, p.tags@) && errors == #[trigger] (key_spans(ks) + all_tag_spans(ts))
}
impl<'s> PragmaProcessor<'s> {
@@fn src/lib.rs PragmaProcessor::result
@ret r
@spec
    ensures
        r.0 == self.options, r.1@ == self.plugins@, r.3@ == self.warnings@, // [C08, C16]
        exists|l: Seq<Span>| spans(r.2@) == spans(self.errors@) + l && #[trigger] leftover(self, l), // [C06, C07, C16]
@start
    let ghost p = self; let ghost e0 = spans(self.errors@);
    let ghost mut ks = Seq::<(Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>)>::empty();
    let ghost mut ts = Seq::<(Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>)>::empty();
    let ghost mut e1 = e0;
@loop 1 for y .into_entries()
    invariant ks == y.history(), drains(y.seq(), p.meta_key_values@), ks.len() <= y.seq().len(), ks =~= y.seq().take(ks.len() as int), y.seq().take(y.seq().len() as int) =~= y.seq(),
        spans(errors@) =~= e0 + key_spans(ks),
@loopstart 1
    let ghost k0 = (key, _value); let ghost eb = errors@;
@loopend 1
    proof { assert(errors@ =~= eb.push(errors@.last())); assert(spans(errors@) =~= spans(eb).push(key.span)); assert(key_spans(ks.push(k0)) =~= key_spans(ks).push(key.span)); ks = ks.push(k0); }
@afterloop 1
    proof { assert(drains(ks, p.meta_key_values@)); e1 = spans(errors@); }
@loop 2 for z .into_entries()
    invariant ts == z.history(), drains(z.seq(), p.tags@), ts.len() <= z.seq().len(), ts =~= z.seq().take(ts.len() as int), z.seq().take(z.seq().len() as int) =~= z.seq(),
        spans(errors@) =~= e1 + all_tag_spans(ts),
@loopstart 2
    let ghost t0 = (tag, others); let ghost e2 = spans(errors@); let ghost mut n = 0int;
@loop 3 for w .into_entries()
    invariant n == w.history().len(), 0 <= n <= t0.1@.len(), w.seq() == t0.1@, spans(errors@) =~= e2 + tag_spans(t0, n),
@loopstart 3
    let ghost eb = errors@;
@loopend 3
    proof { n = n + 1; assert(t0.1@.take(n).drop_last() =~= t0.1@.take(n - 1)); assert(errors@ =~= eb.push(errors@.last())); assert(spans(errors@) =~= spans(eb).push(t0.1@[n - 1].span)); assert(tag_spans(t0, n) =~= tag_spans(t0, n - 1).push(t0.1@[n - 1].span)); }
@loopend 2
    proof { assert(t0.1@.take(n) =~= t0.1@); let tb = ts; ts = ts.push(t0); assert(ts.drop_last() =~= tb); }
@afterloop 2
    proof { assert(drains(ts, p.tags@)); let l = key_spans(ks) + all_tag_spans(ts); assert(leftover(p, l)); assert(spans(errors@) =~= e0 + l); }
@@end
}

// assumed: hash maps made of the entries of others
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Entries<T> { v: Vec<T> }
trait FromEntries<T>: Sized { spec fn made_of(&self, s: Seq<T>) -> bool; }
impl<K: Content, V> FromEntries<(K, V)> for HashMap<K, V> {
    spec fn made_of(&self, s: Seq<(K, V)>) -> bool {
        (forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0.content() != s[j].0.content()) ==> drains(s, self@)
    }
}
impl<T> Entries<T> {
    uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Entries<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn collect<C: FromEntries<T>>(self) -> (r: C) ensures r.made_of(self@) { unimplemented!() }
}
impl<K: Content, V> HashMap<K, V> {
    #[verifier::external_body]
    fn into_iter(self) -> (r: Entries<(K, V)>) ensures drains(r@, self@) { unimplemented!() }
}
spec fn refname(p: Option<&Path>) -> Option<Seq<char>> { match p { Some(p) => Some(p.name()), None => None } }
impl<'a> Content for Option<&'a Path> { type C = Option<Seq<char>>; spec fn content(&self) -> Option<Seq<char>> { refname(*self) } }
#[verifier::external_body]
fn owned_path(p: Option<&Path>) -> (r: Option<PathBuf>) ensures pname(r) == refname(p) { unimplemented!() }
#[verifier::external_body]
fn deque_of<T>(v: Vec<T>) -> (r: VecDeque<T>) ensures r@ == v@ { unimplemented!() }
broadcast proof fn rekeyed_declarations<'s, 't>(m: HashMap<Option<&'t Path>, Vec<Decl<'s>>>, r: HashMap<Option<PathBuf>, VecDeque<Decl<'s>>>, s1: Seq<(Option<&'t Path>, Vec<Decl<'s>>)>, s2: Seq<(Option<PathBuf>, VecDeque<Decl<'s>>)>)
    requires #[trigger] drains(s1, m@), #[trigger] r.made_of(s2), s1.len() == s2.len(), forall|i: int| #![trigger s2[i]] 0 <= i < s1.len() ==> s2[i].0.content() == s1[i].0.content() && s2[i].1@ == s1[i].1@,
    ensures r@.dom() == m@.dom(), keyed(r@), forall|p: Option<Seq<char>>| #[trigger] m@.contains_key(p) ==> r@[p].1@ == m@[p].1@,
{
    assert forall|i: int, j: int| #![trigger s2[i], s2[j]] 0 <= i < j < s2.len() implies s2[i].0.content() != s2[j].0.content() by { assert(s1[i].0.content() != s1[j].0.content()); }
    assert forall|p: Option<Seq<char>>| #[trigger] m@.contains_key(p) implies r@.contains_key(p) && r@[p].1@ == m@[p].1@ by {
        let i = choose|i: int| 0 <= i < s1.len() && (#[trigger] s1[i]).0.content() == p; assert(s2[i].0.content() == p);
    }
    assert forall|p: Option<Seq<char>>| #[trigger] r@.contains_key(p) implies m@.contains_key(p) && r@[p].0.content() == p by {
        let i = choose|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).0.content() == p; assert(s1[i].0.content() == p);
    }
    assert(r@.dom() =~= m@.dom());
}

broadcast proof fn rekeyed_errors<'s, 't>(m: HashMap<Option<&'t Path>, String>, r: HashMap<Option<PathBuf>, String>, s1: Seq<(Option<&'t Path>, String)>, s2: Seq<(Option<PathBuf>, String)>)
    requires #[trigger] drains(s1, m@), #[trigger] r.made_of(s2), s1.len() == s2.len(), forall|i: int| #![trigger s2[i]] 0 <= i < s1.len() ==> s2[i].0.content() == s1[i].0.content() && s2[i].1 == s1[i].1,
    ensures r@.dom() == m@.dom(), keyed(r@), forall|p: Option<Seq<char>>| #[trigger] m@.contains_key(p) ==> r@[p].1 == m@[p].1,
{
    assert forall|i: int, j: int| #![trigger s2[i], s2[j]] 0 <= i < j < s2.len() implies s2[i].0.content() != s2[j].0.content() by { assert(s1[i].0.content() != s1[j].0.content()); }
    assert forall|p: Option<Seq<char>>| #[trigger] m@.contains_key(p) implies r@.contains_key(p) && r@[p].1 == m@[p].1 by {
        let i = choose|i: int| 0 <= i < s1.len() && (#[trigger] s1[i]).0.content() == p; assert(s2[i].0.content() == p);
    }
    assert forall|p: Option<Seq<char>>| #[trigger] r@.contains_key(p) implies m@.contains_key(p) && r@[p].0.content() == p by {
        let i = choose|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).0.content() == p; assert(s1[i].0.content() == p);
    }
    assert(r@.dom() =~= m@.dom());
}
type Parsed<'s, 't> = HashMap<Option<&'t Path>, Vec<Decl<'s>>>;
spec fn parsed_of<'s, 't>(m: Parsed<'s, 't>) -> Map<Option<Seq<char>>, Seq<Decl<'s>>> { m@.map_values(|x: (Option<&'t Path>, Vec<Decl<'s>>)| x.1@) }
/// where it starts: at the first declaration of the root file
spec fn beginning<'s>(root: Option<Seq<char>>, files: Map<Option<Seq<char>>, Seq<Decl<'s>>>, options: Options<'s>) -> St<'s> {
    St { path: root, cur: files[root], stack: seq![], remaining: files.remove(root), contexts: Map::empty(), tags: Map::empty(), metas: Map::empty(), options, plugins: seq![], errors: seq![] }
}
impl<'s> PragmaProcessor<'s> {
@@fn src/lib.rs PragmaProcessor::new
@ret r
@subst? path.map(|p| p.to_path_buf()) =>> owned_path(path)
@subst? root_path.map(|p| p.to_path_buf()) =>> owned_path(root_path)
@subst? VecDeque::from(declarations) =>> deque_of(declarations)
@closure map#0
    |q: (Option<&Path>, Vec<Decl<'s>>)| -> (v: (Option<PathBuf>, VecDeque<Decl<'s>>)) ensures v.0.content() == q.0.content(), v.1@ == q.1@ { $bind0(q) $body }
@closure map#2
    |q: (Option<&Path>, String)| -> (v: (Option<PathBuf>, String)) ensures v.0.content() == q.0.content(), v.1 == q.1 { $bind0(q) $body }
@spec
    requires
        parsed_sources@.contains_key(refname(root_path)), keyed(parsed_sources@), keyed(error_paths@),
        forall|p: Option<Seq<char>>| #[trigger] parsed_sources@.contains_key(p) ==> covered(p, parsed_sources@[p].1@, included_globs@),
    ensures
        r.wf(), r.globs() == included_globs@, r.unreadable() == error_paths@.dom(), r.warnings@ == Seq::<Warning>::empty(),
        r.st() == beginning(refname(root_path), parsed_of(parsed_sources), options), // [C16, C17]
@start
    broadcast use {rekeyed_declarations, rekeyed_errors};
@wrapend
    proof {
        let b = beginning(refname(root_path), parsed_of(parsed_sources), options);
        assert(r_.st() =~= b);
    }
@@end
}

// ---------------------------------------------------------------- parsing as a whole

type Globs = Map<Seq<char>, (PathBuf, IncludedGlob)>;
/// all directives which successive calls of next give
spec fn drained<'s>(s: St<'s>, t: St<'s>, globs: Globs, unreadable: Set<Option<Seq<char>>>, items: Seq<Spanned<Directive<'s>>>) -> bool
    decreases items.len(),
{
    if items.len() == 0 { yields(s, t, globs, unreadable, None) }
    else { exists|m: St<'s>| yields(s, m, globs, unreadable, Some(items[0])) && #[trigger] drained(m, t, globs, unreadable, items.drop_first()) }
}
/// proved of Sort in unit sort (theorem_c01_sort): the stable rearrangement by key
uninterp spec fn stably_sorted<'s>(items: Seq<Spanned<Directive<'s>>>, key: spec_fn(Spanned<Directive<'s>>) -> (Date, u8)) -> Seq<Spanned<Directive<'s>>>;
trait FromSorted<'s> { spec fn holds(&self, s: Seq<Spanned<Directive<'s>>>) -> bool; }
impl<'s> FromSorted<'s> for Vec<Spanned<Directive<'s>>> { spec fn holds(&self, s: Seq<Spanned<Directive<'s>>>) -> bool { self@ == s } }
#[verifier::external_body]
struct Sorted<'s> { x: &'s u8 }
impl<'s> Sorted<'s> {
    uninterp spec fn view(&self) -> Seq<Spanned<Directive<'s>>>;
    #[verifier::external_body]
    fn collect<C: FromSorted<'s>>(self) -> (r: C) ensures r.holds(self@) { unimplemented!() }
}
impl<'s> PragmaProcessor<'s> {
    fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
    // SortIteratorAdaptor::sort: takes all there is before it gives any
    #[verifier::external_body]
    fn sort<F: Fn(&Spanned<Directive<'s>>) -> (Date, u8)>(&mut self, keyfn: F) -> (r: Sorted<'s>)
        requires old(self).wf(), forall|d: Spanned<Directive<'s>>| keyfn.requires((&d,)),
        ensures
            final(self).wf(), final(self).warnings == old(self).warnings,
            exists|items: Seq<Spanned<Directive<'s>>>| #[trigger] drained(old(self).st(), final(self).st(), old(self).globs(), old(self).unreadable(), items)
                && forall|k: spec_fn(Spanned<Directive<'s>>) -> (Date, u8)| (forall|d: Spanned<Directive<'s>>, v: (Date, u8)| keyfn.ensures((&d,), v) ==> v == k(d)) ==> r@ == #[trigger] stably_sorted(items, k),
    { unimplemented!() }
}
/// C01: by date, opens first, then balances, then the others
spec fn sort_key<'s>(d: Spanned<Directive<'s>>) -> (Date, u8) {
    (d.item.date.item, match d.item.variant { DirectiveVariant::Open(_) => 0, DirectiveVariant::Balance(_) => 1, _ => 2 })
}
impl<'a> Directive<'a> {
@@fn src/types.rs Directive::date
@ret r
@spec
    ensures *r == self.date,
@@end
@@fn src/types.rs Directive::variant
@ret r
@spec
    ensures *r == self.variant,
@@end
}
#[verifier::external_body] struct BeancountSources { x: u8 }
impl BeancountSources {
    uninterp spec fn root(&self) -> Option<Seq<char>>;
    uninterp spec fn globs(&self) -> Globs;
    uninterp spec fn unreadable(&self) -> Set<Option<Seq<char>>>;
    #[verifier::external_body]
    fn root_path(&self) -> (r: Option<&Path>) ensures refname(r) == self.root() { unimplemented!() }
    #[verifier::external_body]
    fn included_globs(&self) -> (r: &HashMap<PathBuf, IncludedGlob>) ensures r@ == self.globs() { unimplemented!() }
    #[verifier::external_body]
    fn error_paths(&self) -> (r: HashMap<Option<&Path>, String>) ensures keyed(r@), r@.dom() == self.unreadable() { unimplemented!() }
}
#[verifier::external_body] struct SpannedToken<'s> { x: &'s u8 }
@@item src/lib.rs BeancountParser;
@@item src/lib.rs ParseSuccess;
@@item src/lib.rs ParseError;
@@item src/lib.rs ParseDeclarationsResult;
/// C16: success exactly if nothing is wrong; otherwise all that is, of every stage
spec fn outcome<'s>(d: ParseDeclarationsResult<'s>, t: St<'s>, items: Seq<Spanned<Directive<'s>>>, l: Seq<Span>, r: Result<ParseSuccess<'s>, ParseError>) -> bool {
    let errors = spans(d.2@) + (t.errors + l);
    match r {
        Ok(s) => errors.len() == 0 && s.directives@ == stably_sorted(items, |x: Spanned<Directive<'s>>| sort_key(x)) && s.options == t.options && s.plugins@ == t.plugins && s.warnings@ == d.3@,
        Err(e) => errors.len() > 0 && spans(e.errors@) == errors && e.warnings@ == d.3@,
    }
}
broadcast proof fn spans_append(a: Seq<Error>, b: Seq<Error>) ensures #[trigger] spans(a + b) == spans(a) + spans(b) { assert(spans(a + b) =~= spans(a) + spans(b)); }
broadcast proof fn nothing_appended(a: Seq<Warning>, b: Seq<Warning>) requires b.len() == 0 ensures #[trigger] (a + b) == a { assert(a + b =~= a); }
impl<'s> BeancountParser<'s> {
    /// what parsing the files one by one may give
    uninterp spec fn declared<'a>(&'a self, r: ParseDeclarationsResult<'a>) -> bool;
    #[verifier::external_body]
    fn parse_declarations<'a>(&'a self) -> (r: ParseDeclarationsResult<'a>)
        ensures self.declared(r), keyed(r.0@), r.0@.contains_key(self.sources.root()),
            forall|p: Option<Seq<char>>| #[trigger] r.0@.contains_key(p) ==> covered(p, r.0@[p].1@, self.sources.globs()),
    { unimplemented!() }
@@fn src/lib.rs BeancountParser::root_path
@ret r
@spec
    ensures refname(r) == self.sources.root(),
@@end
@@fn src/lib.rs BeancountParser::parse
@ret r
@subst? d.variant() =>> d.item().variant()
@closure sort#0
    |$p0: &Spanned<Directive<'a>>| -> (v: (Date, u8)) ensures v == sort_key(*$p0) { $body }
@spec
    ensures
        exists|d: ParseDeclarationsResult<'a>, p: PragmaProcessor<'a>, items: Seq<Spanned<Directive<'a>>>, l: Seq<Span>|
            #![trigger self.declared(d), leftover(p, l), drained(beginning(self.sources.root(), parsed_of(d.0), d.1), p.st(), self.sources.globs(), self.sources.unreadable(), items)]
            self.declared(d) && drained(beginning(self.sources.root(), parsed_of(d.0), d.1), p.st(), self.sources.globs(), self.sources.unreadable(), items)
            && leftover(p, l) && outcome(d, p.st(), items, l, r), // [C01, C16, C17]
@start
    broadcast use {spans_append, nothing_appended};
@@end
}
}
