// Unit sources: finding, reading and enumerating the sources, src/sources.rs BeancountSources and src/lib.rs BeancountParser::{new,parse_declarations} (C02, C03, C16, C17)
#![allow(unused)]
#![feature(allocator_api)]
#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use vstd::std_specs::convert::FromSpecImpl;
use std::collections::VecDeque;
macro_rules! format { ($($t:tt)*) => { formatted() } }
verus! {
@@include mem.inc
@@include deque.inc
@@include hashed.inc
@@include entry.inc
@@include option.inc
@@include str.inc

// ---------------------------------------------------------------- stubs
#[verifier::external_body] fn formatted() -> String { unimplemented!() }
#[verifier::external_body] struct IoError { x: u8 }
#[verifier::external_body] struct OsStr { x: u8 }
impl OsStr {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
#[verifier::external_body]
fn os_str<'a>(p: &&'a Path) -> (r: &'a OsStr) ensures r@ == (**p).name() { unimplemented!() }

// the file system, which is assumed not to change while the sources are read
/// what a file's name resolves to
uninterp spec fn canonical(p: Seq<char>) -> Option<Seq<char>>;
/// what a file holds, if it can be read as text
uninterp spec fn text_at(p: Seq<char>) -> Option<Seq<char>>;
/// what a pattern matches: files, and directories which could not be searched; none if it is ill-formed
#[verifier::ext_equal]
ghost enum Match { File(Seq<char>), Unreadable(Seq<char>) }
uninterp spec fn matches(pattern: Seq<char>) -> Option<Seq<Match>>;
/// a directory which could not be searched cannot be read as a file
#[verifier::external_body]
broadcast proof fn unreadable_is_no_file(pattern: Seq<char>, i: int)
    requires matches(pattern) is Some, 0 <= i < (matches(pattern)->0).len(), #[trigger] (matches(pattern)->0)[i] is Unreadable,
    ensures text_at((matches(pattern)->0)[i]->Unreadable_0) is None,
{}
uninterp spec fn parent_of(p: Seq<char>) -> Option<Seq<char>>;
uninterp spec fn joined(dir: Seq<char>, p: Seq<char>) -> Seq<char>;
/// the pattern which matches only this
uninterp spec fn escaped(p: Seq<char>) -> Seq<char>;

// paths; every path which can be matched is UTF-8
#[verifier::external_body] struct Path { x: std::path::Path }
#[verifier::external_body] struct Lossy<'a> { x: &'a str }
impl<'a> Lossy<'a> {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn as_ref<'b>(&'b self) -> (r: &'b str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn into(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl Path {
    uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    fn parent(&self) -> (r: Option<&Path>) ensures refname(r) == parent_of(self.name()) { unimplemented!() }
    #[verifier::external_body]
    fn to_path_buf(&self) -> (r: PathBuf) ensures r.name() == self.name() { unimplemented!() }
    #[verifier::external_body]
    fn to_owned(&self) -> (r: PathBuf) ensures r.name() == self.name() { unimplemented!() }
    #[verifier::external_body]
    fn to_string_lossy<'b>(&'b self) -> (r: Lossy<'b>) ensures r@ == self.name() { unimplemented!() }
    #[verifier::external_body]
    fn join(&self, p: &Path) -> (r: PathBuf) ensures r.name() == joined(self.name(), p.name()) { unimplemented!() }
}
#[verifier::external_body] struct PathBuf { x: std::path::PathBuf }
impl PathBuf {
    uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    fn from(s: String) -> (r: PathBuf) ensures r.name() == s@ { unimplemented!() }
    #[verifier::external_body]
    fn canonicalize(&self) -> (r: Result<PathBuf, IoError>)
        ensures (r is Ok) == (canonical(self.name()) is Some), r is Ok ==> Some((r->Ok_0).name()) == canonical(self.name()),
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.name() == self.name() { unimplemented!() }
    #[verifier::external_body]
    fn as_ref<'b>(&'b self) -> (r: &'b Path) ensures r.name() == self.name() { unimplemented!() }
    #[verifier::external_body]
    fn as_path<'b>(&'b self) -> (r: &'b Path) ensures r.name() == self.name() { unimplemented!() }
    #[verifier::external_body]
    fn to_string_lossy<'b>(&'b self) -> (r: Lossy<'b>) ensures r@ == self.name() { unimplemented!() }
    #[verifier::external_body]
    fn join(&self, p: &Path) -> (r: PathBuf) ensures r.name() == joined(self.name(), p.name()) { unimplemented!() }
}
spec fn pname(p: Option<PathBuf>) -> Option<Seq<char>> { match p { Some(p) => Some(p.name()), None => None } }
spec fn refname(p: Option<&Path>) -> Option<Seq<char>> { match p { Some(p) => Some(p.name()), None => None } }
spec fn bufname(p: Option<&PathBuf>) -> Option<Seq<char>> { match p { Some(p) => Some(p.name()), None => None } }
impl Content for PathBuf { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.name() } }
impl<'a> Content for Option<&'a Path> { type C = Option<Seq<char>>; spec fn content(&self) -> Option<Seq<char>> { refname(*self) } }
#[verifier::external_body]
fn pattern_escape(s: &Lossy) -> (r: String) ensures r@ == escaped(s@) { unimplemented!() }
#[verifier::external_body]
fn whole_file(p: impl Named) -> (r: Result<String, IoError>)
    ensures (r is Ok) == (text_at(p.named()) is Some), r is Ok ==> Some((r->Ok_0)@) == text_at(p.named()),
{ unimplemented!() }
trait Named { spec fn named(&self) -> Seq<char>; }
impl Named for &PathBuf { spec fn named(&self) -> Seq<char> { self.name() } }
impl Named for &&PathBuf { spec fn named(&self) -> Seq<char> { self.name() } }
#[verifier::external_body]
struct File { x: u8 }
impl File {
    uninterp spec fn name(&self) -> Seq<char>;
    uninterp spec fn fresh(&self) -> bool;   // nothing of it has been read
    #[verifier::external_body]
    fn open(p: &&PathBuf) -> (r: Result<File, IoError>)
        ensures r is Err ==> text_at(p.name()) is None, r matches Ok(f) ==> f.name() == p.name() && f.fresh(),
    { unimplemented!() }
    /// the rest of the file after what is there, or an error if it is no text
    #[verifier::external_body]
    fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize, IoError>)
        ensures
            final(self).name() == old(self).name(), !final(self).fresh(),
            old(self).fresh() ==> (r is Ok) == (text_at(old(self).name()) is Some),
            old(self).fresh() && r is Ok ==> final(s)@ == old(s)@ + text_at(old(self).name())->0,
    { unimplemented!() }
}
/// C17, C02: the whole text of the file, nothing else
@@fn src/sources.rs read
@sig
fn read(file_path: &PathBuf) -> (r: Result<String, IoError>)
@subst? std::fs::read_to_string =>> whole_file
@subst? fs::read_to_string =>> whole_file
@spec
    ensures (r is Ok) == (text_at(file_path.name()) is Some), r is Ok ==> Some((r->Ok_0)@) == text_at(file_path.name()), // [C02, C17]
@@end
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U> [std::result::Result::<T, E>::map_or_else] (o: std::result::Result<T, E>, d: D, f: F) -> (r: U)
    requires o matches Ok(x) ==> f.requires((x,)), o matches Err(e) ==> d.requires((e,)),
    ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => d.ensures((e,), r) },
;

// the glob crate
mod glob { pub struct MatchOptions { pub case_sensitive: bool, pub require_literal_separator: bool, pub require_literal_leading_dot: bool } }
#[verifier::external_body] struct PatternError { x: u8 }
impl PatternError { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body] struct GlobError { x: u8 }
impl GlobError {
    uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body] fn path<'b>(&'b self) -> (r: &'b Path) ensures r.name() == self.name() { unimplemented!() }
    #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() }
}
type Globbed = Result<PathBuf, GlobError>;
spec fn match_of(g: Globbed) -> Match { match g { Ok(p) => Match::File(p.name()), Err(e) => Match::Unreadable(e.name()) } }
#[verifier::external_body] struct Paths { x: u8 }
impl Paths {
    uninterp spec fn view(&self) -> Seq<Globbed>;
    #[verifier::external_body]
    fn items(self) -> (r: std::vec::IntoIter<Globbed>)
        ensures r.remaining() == self@, r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}
#[verifier::external_body]
fn glob_with(pattern: &str, options: glob::MatchOptions) -> (r: Result<Paths, PatternError>)
    ensures options.case_sensitive && options.require_literal_separator && options.require_literal_leading_dot ==>
        match r { Err(_) => matches(pattern@) is None, Ok(p) => matches(pattern@) == Some(p@.map_values(|g: Globbed| match_of(g))) },
{ unimplemented!() }

// the includes which a text declares, in order
uninterp spec fn includes_of(text: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body] struct Include { x: u8 }
impl Include {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] fn as_ref<'b>(&'b self) -> (r: &'b Path) ensures r.name() == self@ { unimplemented!() }
}
#[verifier::external_body] struct Includes { x: u8 }
#[verifier::external_body] struct Resolved { x: u8 }
impl Includes {
    uninterp spec fn view(&self) -> Seq<Include>;
    #[verifier::external_body] fn into_iter(self) -> (r: Includes) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    fn map<F: Fn(Include) -> PathBuf>(self, f: F) -> (r: Resolved)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
}
trait FromPaths { spec fn seq(&self) -> Seq<PathBuf>; }
impl FromPaths for VecDeque<PathBuf> { spec fn seq(&self) -> Seq<PathBuf> { self@ } }
impl Resolved {
    uninterp spec fn view(&self) -> Seq<PathBuf>;
    #[verifier::external_body] fn collect<C: FromPaths>(self) -> (r: C) ensures r.seq() == self@ { unimplemented!() }
}
trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for String { spec fn text(&self) -> Seq<char> { self@ } }
impl Text for &String { spec fn text(&self) -> Seq<char> { (**self)@ } }
#[verifier::external_body]
fn get_includes<T: Text>(content: &T, id: SourceId) -> (r: Includes)
    ensures r@.len() == includes_of(content.text()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == includes_of(content.text())[i],
{ unimplemented!() }

// characters with their offsets
spec fn indices_of(v: Seq<usize>, s: Seq<char>) -> bool { v.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == boff(s, k) }
#[verifier::external_body] struct CharIndices { x: u8 }
#[verifier::external_body] struct Mapped { x: u8 }
impl CharIndices {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn map<F: Fn((usize, char)) -> usize>(self, f: F) -> (r: Mapped)
        requires forall|k: int| 0 <= k < self@.len() ==> f.requires(((#[trigger] boff(self@, k) as usize, self@[k]),)),
        ensures r@.len() == self@.len(), forall|k: int| #![trigger r@[k]] 0 <= k < self@.len() ==> f.ensures(((boff(self@, k) as usize, self@[k]),), r@[k]) && boff(self@, k) <= isize::MAX,
    { unimplemented!() }
}
trait FromIndices { spec fn seq(&self) -> Seq<usize>; }
impl FromIndices for Vec<usize> { spec fn seq(&self) -> Seq<usize> { self@ } }
impl Mapped {
    uninterp spec fn view(&self) -> Seq<usize>;
    #[verifier::external_body] fn collect<C: FromIndices>(self) -> (r: C) ensures r.seq() == self@ { unimplemented!() }
}
trait Indexed { spec fn chars(&self) -> Seq<char>; fn char_indices(&self) -> (r: CharIndices) ensures r@ == self.chars(); }
impl Indexed for String { spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn char_indices(&self) -> CharIndices { unimplemented!() } }
#[verifier::external_body]
fn vec_of(a: [String; 1]) -> (r: Vec<String>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
fn append_all<T>(d: &mut VecDeque<T>, o: &mut VecDeque<T>) ensures final(d)@ == old(d)@ + old(o)@, final(o)@.len() == 0 { unimplemented!() }
impl<'m, K: Content, V> Entry<'m, K, V> {
    #[verifier::external_body]
    fn or_insert(self, v: V) -> (r: &'m mut V)
        ensures match self {
            Entry::Vacant(e) => *r == v && final(e.map)@ == (*e.map)@.insert(e.key.content(), (e.key, *final(r))),
            Entry::Occupied(e) => *r == (*e.map)@[e.key.content()].1 && final(e.map)@ == (*e.map)@.insert(e.key.content(), ((*e.map)@[e.key.content()].0, *final(r))),
        },
    { unimplemented!() }
}

#[derive(Clone, Copy)]
@@item src/types.rs SourceId;
impl FromSpecImpl<usize> for SourceId {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: usize) -> Self { SourceId(v as u32) }
}
impl FromSpecImpl<SourceId> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: SourceId) -> Self { v.0 as usize }
}
impl From<usize> for SourceId {
@@fn src/types.rs From@SourceId::from
@@end
}
impl From<SourceId> for usize {
@@fn src/types.rs From@usize::from
@@end
}
// derived Default
impl SourceId { #[verifier::external_body] fn default() -> (r: SourceId) ensures r.0 == 0 { unimplemented!() } }
@@item src/lib.rs IncludedGlob;
@@item src/sources.rs BeancountSources;
@@item src/sources.rs IncludedSource;

// ---------------------------------------------------------------- paths relative to the including file
/// C17: relative to its directory, unless it has none
spec fn against(including: Option<Seq<char>>, included: Seq<char>) -> Seq<char> {
    match including {
        Some(p) => match parent_of(p) {
            Some(d) => if d.len() == 0 { included } else { joined(escaped(d), included) },
            None => included,
        },
        None => included,
    }
}
@@fn src/sources.rs path_dir
@ret r
@subst? AsRef::<OsStr>::as_ref(&p) =>> os_str(&p)
@closure and_then#0
    |$p0: &Path| -> (v: Option<&Path>) ensures refname(v) == (if $p0.name().len() == 0 { None } else { Some($p0.name()) }) { $body }
@spec
    ensures refname(r) == match parent_of(p.name()) { Some(d) => if d.len() == 0 { None } else { Some(d) }, None => None }, // [C17]
@@end
@@fn src/sources.rs resolve_included_path
@ret r
@subst? glob::Pattern::escape =>> pattern_escape
@closure and_then#0
    |$p0: &PathBuf| -> (v: Option<&Path>) ensures refname(v) == match parent_of($p0.name()) { Some(d) => if d.len() == 0 { None } else { Some(d) }, None => None } { $body }
@spec
    ensures r.name() == against(bufname(including_path), included_path.name()), // [C17]
@@end

// ---------------------------------------------------------------- reading
type Contents = Map<Seq<char>, (PathBuf, IncludedSource)>;
type Globs = Map<Seq<char>, (PathBuf, IncludedGlob)>;
type Firsts = Map<Seq<char>, (PathBuf, PathBuf)>;
/// the source numbered i is called p
spec fn numbered(ids: Seq<String>, i: SourceId, p: Seq<char>) -> bool { exists|n: int| 1 <= n < ids.len() && (#[trigger] ids[n])@ == p && i.0 == n as u32 }
/// a file is held under the name by which it was found first, complete, with the offsets of its characters
spec fn held(ids: Seq<String>, firsts: Firsts, p: Seq<char>, i: SourceId, text: Seq<char>, offsets: Seq<usize>) -> bool {
    &&& numbered(ids, i, p)
    &&& text_at(p) == Some(text)
    &&& indices_of(offsets, text)
    &&& canonical(p) is Some && firsts.contains_key(canonical(p)->0) && firsts[canonical(p)->0].1.name() == p
}
spec fn in_line(pending: Seq<PathBuf>, g: Seq<char>) -> bool { exists|i: int| 0 <= i < pending.len() && (#[trigger] pending[i]).name() == g }
spec fn waits(globs: Globs, pending: Seq<PathBuf>, cur: Option<Seq<char>>, g: Seq<char>) -> bool { globs.contains_key(g) || cur == Some(g) || in_line(pending, g) }
/// every include of a text is or will be expanded
spec fn followed(globs: Globs, pending: Seq<PathBuf>, cur: Option<Seq<char>>, from: Option<Seq<char>>, text: Seq<char>) -> bool {
    forall|i: int| 0 <= i < includes_of(text).len() ==> waits(globs, pending, cur, against(from, #[trigger] includes_of(text)[i]))
}
/// the name under which a match is held
spec fn found(firsts: Firsts, m: Match) -> Seq<char> {
    match m {
        Match::Unreadable(p) => p,
        Match::File(p) => match canonical(p) { Some(c) => if firsts.contains_key(c) { firsts[c].1.name() } else { p }, None => p },
    }
}
spec fn settled(contents: Contents, firsts: Firsts, m: Match) -> bool {
    match m {
        Match::Unreadable(p) => contents.contains_key(p) && contents[p].1 is Error,
        Match::File(p) => canonical(p) is Some ==> firsts.contains_key(canonical(p)->0),
    }
}
spec fn expanded(contents: Contents, firsts: Firsts, ms: Seq<Match>, paths: Seq<PathBuf>) -> bool {
    paths.len() == ms.len() && forall|i: int| #![trigger paths[i]] 0 <= i < ms.len() ==> paths[i].name() == found(firsts, ms[i]) && settled(contents, firsts, ms[i])
}
spec fn expansion(contents: Contents, firsts: Firsts, g: Seq<char>, x: IncludedGlob) -> bool {
    match matches(g) { None => x is Error, Some(ms) => x matches IncludedGlob::Expanded(paths) && expanded(contents, firsts, ms, paths@) }
}
/// C02, C03, C17: what has been read, and what is still to be
spec fn reading(root: Option<Seq<char>>, text: Seq<char>, ids: Seq<String>, contents: Contents, globs: Globs, firsts: Firsts, pending: Seq<PathBuf>, cur: Option<Seq<char>>) -> bool {
    &&& keyed(contents) && keyed(globs)
    &&& ids.len() >= 1 && ids[0]@ == (match root { Some(p) => p, None => "inline"@ })
    &&& forall|n: int| 1 <= n < ids.len() ==> contents.contains_key((#[trigger] ids[n])@)
    &&& forall|p: Seq<char>| #[trigger] contents.contains_key(p) ==> match contents[p].1 {
            IncludedSource::Content(i, t, v) => held(ids, firsts, p, i, t@, v@) && followed(globs, pending, cur, Some(p), t@),
            IncludedSource::Error(_) => text_at(p) is None,
            IncludedSource::Duplicate => canonical(p) is Some && firsts.contains_key(canonical(p)->0),
        }
    &&& followed(globs, pending, cur, root, text)
    &&& forall|c: Seq<char>| #[trigger] firsts.contains_key(c) ==> {
            let p = firsts[c].1.name();
            canonical(p) == Some(c) && (Some(p) == root || contents.contains_key(p) && (if text_at(p) is Some { contents[p].1 is Content } else { contents[p].1 is Error }))
        }
    &&& forall|g: Seq<char>| #[trigger] globs.contains_key(g) ==> expansion(contents, firsts, g, globs[g].1)
    &&& root is Some && contents.contains_key(root->0) ==> !(contents[root->0].1 is Content)
    &&& root is Some && canonical(root->0) is Some ==> firsts.contains_key(canonical(root->0)->0) && firsts[canonical(root->0)->0].1.name() == root->0
}
/// all that is to be read has been
spec fn complete(b: &BeancountSources, firsts: Firsts) -> bool {
    reading(pname(b.root_path), b.root_content@, b.source_id_strings@, b.included_content@, b.included_globs@, firsts, seq![], None)
}
/// an entry is made for p
spec fn put(c0: Contents, c: Contents, p: Seq<char>) -> bool { c == c0.insert(p, c[p]) && c[p].0.name() == p }
/// C17: what a match adds to what has been read
spec fn added(m: Match, ids0: Seq<String>, c0: Contents, f0: Firsts, p0: Seq<PathBuf>, x0: Seq<PathBuf>, ids: Seq<String>, c: Contents, f: Firsts, p: Seq<PathBuf>, x: Seq<PathBuf>) -> bool {
    &&& x.len() == x0.len() + 1 && x == x0.push(x.last()) && x.last().name() == found(f0, m)
    &&& match m {
        Match::Unreadable(n) => ids == ids0 && f == f0 && p == p0 && put(c0, c, n) && c[n].1 is Error,
        Match::File(n) => match canonical(n) {
            None => ids == ids0 && f == f0 && p == p0 && c == c0,
            Some(k) => if f0.contains_key(k) {
                ids == ids0 && f == f0 && p == p0 && put(c0, c, n) && (if c0.contains_key(n) { c[n] == c0[n] } else { c[n].1 is Duplicate })
            } else {
                &&& f == f0.insert(k, f[k]) && f[k].1.name() == n
                &&& ids.len() == ids0.len() + 1 && ids == ids0.push(ids.last()) && ids.last()@ == n
                &&& put(c0, c, n)
                &&& match text_at(n) {
                    None => c[n].1 is Error && p == p0,
                    Some(t) => c[n].1 matches IncludedSource::Content(i, s, o) && i.0 == ids0.len() as u32 && s@ == t && indices_of(o@, t) && resolved_after(p0, p, n, t),
                }
            },
        },
    }
}
/// the includes of a file wait behind the others
spec fn resolved_after(p0: Seq<PathBuf>, p: Seq<PathBuf>, n: Seq<char>, t: Seq<char>) -> bool {
    &&& p.len() == p0.len() + includes_of(t).len()
    &&& forall|i: int| 0 <= i < p0.len() ==> #[trigger] p[i] == p0[i]
    &&& forall|i: int| 0 <= i < includes_of(t).len() ==> p[p0.len() + i].name() == against(Some(n), #[trigger] includes_of(t)[i])
}
proof fn still_followed(globs: Globs, pending: Seq<PathBuf>, cur: Option<Seq<char>>, globs1: Globs, pending1: Seq<PathBuf>, cur1: Option<Seq<char>>)
    requires forall|g: Seq<char>| #[trigger] waits(globs, pending, cur, g) ==> waits(globs1, pending1, cur1, g),
    ensures forall|from: Option<Seq<char>>, text: Seq<char>| #[trigger] followed(globs, pending, cur, from, text) ==> followed(globs1, pending1, cur1, from, text),
{
    assert forall|from: Option<Seq<char>>, text: Seq<char>| #[trigger] followed(globs, pending, cur, from, text) implies followed(globs1, pending1, cur1, from, text) by {
        assert forall|i: int| 0 <= i < includes_of(text).len() implies waits(globs1, pending1, cur1, against(from, #[trigger] includes_of(text)[i])) by {
            assert(waits(globs, pending, cur, against(from, includes_of(text)[i])));
        }
    }
}
broadcast proof fn take_next(root: Option<Seq<char>>, text: Seq<char>, ids: Seq<String>, c: Contents, globs: Globs, f: Firsts, pending: Seq<PathBuf>)
    requires #[trigger] reading(root, text, ids, c, globs, f, pending, None), pending.len() > 0,
    ensures reading(root, text, ids, c, globs, f, #[trigger] pending.subrange(1, pending.len() as int), Some(pending[0].name())),
{
    let rest = pending.subrange(1, pending.len() as int);
    assert forall|g: Seq<char>| #[trigger] waits(globs, pending, None, g) implies waits(globs, rest, Some(pending[0].name()), g) by {
        if in_line(pending, g) {
            let i = choose|i: int| 0 <= i < pending.len() && (#[trigger] pending[i]).name() == g;
            if i > 0 { assert(rest[i - 1].name() == g); }
        }
    }
    still_followed(globs, pending, None, globs, rest, Some(pending[0].name()));
}
proof fn expand(root: Option<Seq<char>>, text: Seq<char>, ids: Seq<String>, c: Contents, globs: Globs, f: Firsts, pending: Seq<PathBuf>, g: Seq<char>, globs1: Globs)
    requires reading(root, text, ids, c, globs, f, pending, Some(g)), globs1 == globs.insert(g, globs1[g]), globs1[g].0.name() == g, expansion(c, f, g, globs1[g].1),
    ensures reading(root, text, ids, c, globs1, f, pending, None),
{
    still_followed(globs, pending, Some(g), globs1, pending, None);
}
proof fn file_added(m: Match, root: Option<Seq<char>>, text: Seq<char>, globs: Globs, ms: Seq<Match>, cur: Option<Seq<char>>,
    ids0: Seq<String>, c0: Contents, f0: Firsts, p0: Seq<PathBuf>, x0: Seq<PathBuf>, ids: Seq<String>, c: Contents, f: Firsts, p: Seq<PathBuf>, x: Seq<PathBuf>)
    requires
        reading(root, text, ids0, c0, globs, f0, p0, cur), added(m, ids0, c0, f0, p0, x0, ids, c, f, p, x), m matches Match::Unreadable(n) ==> text_at(n) is None,
        expanded(c0, f0, ms, x0),
    ensures reading(root, text, ids, c, globs, f, p, cur), expanded(c, f, ms.push(m), x),
{
    match m { Match::File(n) if canonical(n) is Some && !f0.contains_key(canonical(n)->0) => {
        assert(!(c0.contains_key(n) && c0[n].1 is Content));
        assert forall|g: Seq<char>| #[trigger] waits(globs, p0, cur, g) implies waits(globs, p, cur, g) by {
            if in_line(p0, g) { let i = choose|i: int| 0 <= i < p0.len() && (#[trigger] p0[i]).name() == g; assert(p[i] == p0[i]); }
        }
        still_followed(globs, p0, cur, globs, p, cur);
        if text_at(n) is Some {
            let t = text_at(n)->0;
            assert forall|i: int| 0 <= i < includes_of(t).len() implies waits(globs, p, cur, against(Some(n), #[trigger] includes_of(t)[i])) by { assert(p[p0.len() + i].name() == against(Some(n), includes_of(t)[i])); }
        }
        assert(ids.last() == ids[ids0.len() as int]);
        assert forall|i: SourceId, q: Seq<char>| #[trigger] numbered(ids0, i, q) implies numbered(ids, i, q) by {
            let k = choose|k: int| 1 <= k < ids0.len() && (#[trigger] ids0[k])@ == q && i.0 == k as u32; assert(ids[k]@ == q);
        }
        assert forall|k: int| 1 <= k < ids.len() implies c.contains_key((#[trigger] ids[k])@) by { if k < ids0.len() { assert(ids[k] == ids0[k]); } }
    }, _ => {} }
    assert(expanded(c, f, ms.push(m), x)) by {
        assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies x[i].name() == found(f, ms.push(m)[i]) && settled(c, f, ms.push(m)[i]) by {
            if i < x0.len() { assert(x[i] == x0[i]); }
        }
    }
    assert forall|g: Seq<char>| #[trigger] globs.contains_key(g) implies expansion(c, f, g, globs[g].1) by {
        assert(expansion(c0, f0, g, globs[g].1));
        if matches(g) is Some {
            let q = (globs[g].1->Expanded_0)@; let s = matches(g)->0;
            assert forall|i: int| #![trigger q[i]] 0 <= i < s.len() implies q[i].name() == found(f, s[i]) && settled(c, f, s[i]) by { assert(q[i].name() == found(f0, s[i]) && settled(c0, f0, s[i])); }
        }
    }
}
impl BeancountSources {
@@fn src/sources.rs BeancountSources::read_with_includes
@ret r
@sigsubst fn =>> #[verifier::exec_allows_no_decreases_clause] fn
@subst? Vec::from =>> vec_of
@subst? pending_includes.append(&mut includes) =>> append_all(&mut pending_includes, &mut includes)
@closure map#0
    |$p0: &PathBuf| -> (v: String) ensures v@ == $p0.name() { $body }
@closure map#1
    |$p0: Include| -> (v: PathBuf) ensures v.name() == against(pname(root_path), $p0@) { $body }
@closure map#2
    |q: (usize, char)| -> (v: usize) ensures v == q.0 { $bind0(q) $body }
@closure map#3
    |$p0: Include| -> (v: PathBuf) ensures v.name() == against(Some(globbed_include.name()), $p0@) { $body }
@closure map#4
    |q: (usize, char)| -> (v: usize) ensures v == q.0 { $bind0(q) $body }
@closure and_then#0
    |$p0: &PathBuf| -> (v: Option<&PathBuf>) ensures v is Some == canonical_paths@.contains_key($p0.name()), v is Some ==> *(v->0) == canonical_paths@[$p0.name()].1 { $body }
@closure map_or_else#0
    |$p0: IoError| -> (v: IncludedSource) ensures v is Error { $body }
@closure map_or_else#1
    |$p0: String| -> (v: IncludedSource) ensures v matches IncludedSource::Content(i, t, o) && i == source_id && t == $p0 && indices_of(o@, t@) { $body }
@loop 1 while
    invariant reading(pname(root_path), root_content@, source_id_strings@, included_content@, included_globs@, canonical_paths@, pending_includes@, None),
    ensures pending_includes@.len() == 0,
@loop 2 for y !.items()
    invariant
        reading(pname(root_path), root_content@, source_id_strings@, included_content@, included_globs@, canonical_paths@, pending_includes@, Some(included.name())),
        matches(included.name()) == Some(ms), ms == y.seq().map_values(|g: Globbed| match_of(g)), y.history() =~= y.seq().take(y.history().len() as int), y.history().len() <= y.seq().len(),
        expanded(included_content@, canonical_paths@, ms.take(y.history().len() as int), glob_expansions@),
@beforeloop 1
    proof {
        let root = pname(root_path);
        assert forall|i: int| 0 <= i < includes_of(root_content@).len() implies waits(included_globs@, pending_includes@, None, against(root, #[trigger] includes_of(root_content@)[i])) by {
            assert(pending_includes@[i].name() == against(root, includes_of(root_content@)[i]));
        }
    }
@loopstart 1
    let ghost gl0 = included_globs@;
    broadcast use take_next;
@loopend 1
    proof { expand(pname(root_path), root_content@, source_id_strings@, included_content@, gl0, canonical_paths@, pending_includes@, included.name(), included_globs@); }
@afterloop 1
    proof { fin = canonical_paths@; assert(pending_includes@ =~= seq![]); }
@start
    let ghost mut fin: Firsts = Map::empty();
@wrapend
    proof { assert(complete(&r_, fin)); }
@loopstart 2
    let ghost ids0 = source_id_strings@; let ghost c0 = included_content@; let ghost f0 = canonical_paths@; let ghost p0 = pending_includes@; let ghost x0 = glob_expansions@; let ghost n0 = y.history().len();
@loopend 2
    proof {
        let m = ms[n0 as int];
        if m is Unreadable { unreadable_is_no_file(included.name(), n0 as int); }
        assert(forall|p: Seq<char>| #[trigger] included_content@.contains_key(p) && included_content@[p].1 is Content ==> indices_of((included_content@[p].1->Content_2)@, (included_content@[p].1->Content_1)@)); // [C02, C03]
        if source_id_strings@ != ids0 {
            let p = source_id_strings@.last()@;
            assert(included_content@.contains_key(p) && (included_content@[p].1 is Content ==> (included_content@[p].1->Content_0).0 == ids0.len() as u32)); // [C02, C03]
        }
        assert(added(m, ids0, c0, f0, p0, x0, source_id_strings@, included_content@, canonical_paths@, pending_includes@, glob_expansions@)); // [C17]
        file_added(m, pname(root_path), root_content@, included_globs@, ms.take(n0 as int), Some(included.name()), ids0, c0, f0, p0, x0, source_id_strings@, included_content@, canonical_paths@, pending_includes@, glob_expansions@);
        assert(ms.take((n0 + 1) as int) =~= ms.take(n0 as int).push(m));
    }
@afterloop 2
    assert(ms.take(ms.len() as int) =~= ms);
@beforeloop 2
    let ghost ms = matches(included.name())->0;
@spec
    ensures
        pname(r.root_path) == pname(root_path), r.root_content@ == root_content@, r.root_source_id.0 == 0, // [C02]
        indices_of(r.root_content_char_indices@, r.root_content@), // [C02]
        exists|firsts: Firsts| #[trigger] complete(&r, firsts), // [C17]
@@end
}
/// what unit spans relies on
spec fn wf(b: &BeancountSources) -> bool {
    &&& 1 <= b.source_id_strings@.len() <= u32::MAX
    &&& b.root_source_id.0 == 0
    &&& indices_of(b.root_content_char_indices@, b.root_content@)
    &&& forall|n: int| 1 <= n < b.source_id_strings@.len() ==> b.included_content@.contains_key((#[trigger] b.source_id_strings@[n])@)
    &&& forall|p: Seq<char>| #[trigger] b.included_content@.contains_key(p) ==> (b.included_content@[p].1 matches IncludedSource::Content(i, t, v) ==> indices_of(v@, t@) && 1 <= i.0 < b.source_id_strings@.len() && b.source_id_strings@[i.0 as int]@ == p)
    &&& keyed(b.included_content@)
    &&& b.root_path is Some && b.included_content@.contains_key((b.root_path->0).name()) ==> !(b.included_content@[(b.root_path->0).name()].1 is Content)
}
proof fn complete_wf(b: &BeancountSources, firsts: Firsts)
    requires complete(b, firsts), b.source_id_strings@.len() <= u32::MAX, b.root_source_id.0 == 0, indices_of(b.root_content_char_indices@, b.root_content@),
    ensures wf(b),
{}
/// C17: every include of every file has been expanded
proof fn complete_covers(b: &BeancountSources, firsts: Firsts)
    requires complete(b, firsts),
    ensures
        forall|i: int| 0 <= i < includes_of(b.root_content@).len() ==> b.included_globs@.contains_key(against(pname(b.root_path), #[trigger] includes_of(b.root_content@)[i])),
        forall|p: Seq<char>, i: int| #![trigger b.included_content@[p], includes_of(text_at(p)->0)[i]] b.included_content@.contains_key(p) && b.included_content@[p].1 is Content && 0 <= i < includes_of(text_at(p)->0).len()
            ==> b.included_globs@.contains_key(against(Some(p), includes_of(text_at(p)->0)[i])),
{
    let e = Seq::<PathBuf>::empty();
    assert forall|i: int| 0 <= i < includes_of(b.root_content@).len() implies b.included_globs@.contains_key(against(pname(b.root_path), #[trigger] includes_of(b.root_content@)[i])) by {
        assert(waits(b.included_globs@, seq![], None, against(pname(b.root_path), includes_of(b.root_content@)[i])));
    }
    assert forall|p: Seq<char>, i: int| #![trigger b.included_content@[p], includes_of(text_at(p)->0)[i]] b.included_content@.contains_key(p) && b.included_content@[p].1 is Content && 0 <= i < includes_of(text_at(p)->0).len()
            implies b.included_globs@.contains_key(against(Some(p), includes_of(text_at(p)->0)[i])) by {
        assert(waits(b.included_globs@, seq![], None, against(Some(p), includes_of(text_at(p)->0)[i])));
    }
}
/// the text of the root, and everything it includes
spec fn read_from(p: Seq<char>, r: Result<BeancountSources, IoError>) -> bool {
    match r {
        Ok(b) => text_at(p) == Some(b.root_content@) && pname(b.root_path) == Some(p) && b.root_source_id.0 == 0 && indices_of(b.root_content_char_indices@, b.root_content@) && exists|firsts: Firsts| #[trigger] complete(&b, firsts),
        Err(_) => text_at(p) is None,
    }
}
spec fn inline_of(t: Seq<char>, b: BeancountSources) -> bool {
    b.root_content@ == t && b.root_path is None && b.root_source_id.0 == 0 && indices_of(b.root_content_char_indices@, b.root_content@) && exists|firsts: Firsts| #[trigger] complete(&b, firsts)
}
#[verifier::external_body]
fn owned_str(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
impl BeancountSources {
@@fn src/sources.rs BeancountSources::try_read_with_includes
@ret r
@sigsubst io::Result<Self> =>> Result<Self, IoError>
@spec
    ensures read_from(root_path.name(), r), // [C02, C17]
@@end
@@fn src/sources.rs TryFrom<PathBuf>@BeancountSources::try_from
@sig
fn try_from_buf(source_path: PathBuf) -> (r: Result<Self, IoError>)
@spec
    ensures read_from(source_path.name(), r), // [C02, C17]
@@end
@@fn src/sources.rs TryFrom<&Path>@BeancountSources::try_from
@sig
fn try_from_path(source_path: &Path) -> (r: Result<Self, IoError>)
@spec
    ensures read_from(source_path.name(), r), // [C02, C17]
@@end
@@fn src/sources.rs From<String>@BeancountSources::from
@sig
fn from_string(source_string: String) -> (r: Self)
@spec
    ensures inline_of(source_string@, r), // [C02, C17]
@@end
@@fn src/sources.rs From<&str>@BeancountSources::from
@sig
fn from_str(source_string: &str) -> (r: Self)
@subst? source_string.to_owned() =>> owned_str(source_string)
@spec
    ensures inline_of(source_string@, r), // [C02, C17]
@@end
}

// ---------------------------------------------------------------- enumerating the sources
// iterators, as the sequences they give
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Given<T> { x: Vec<T> }
spec fn somes<T>(o: Seq<Option<T>>) -> Seq<T> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(x) => somes(o.drop_last()).push(x), None => somes(o.drop_last()) } }
}
trait FromGiven<T> { spec fn made_of(&self, s: Seq<T>) -> bool; }
impl<K: Content, V> FromGiven<(K, V)> for HashMap<K, V> {
    // of several values for a key the last counts; none here
    spec fn made_of(&self, s: Seq<(K, V)>) -> bool {
        (forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0.content() != s[j].0.content()) ==> {
            &&& forall|i: int| 0 <= i < s.len() ==> self@.contains_key((#[trigger] s[i]).0.content()) && self@[s[i].0.content()] == s[i]
            &&& forall|c: K::C| #[trigger] self@.contains_key(c) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.content() == c
        }
    }
}
impl<T> FromGiven<T> for Vec<T> { spec fn made_of(&self, s: Seq<T>) -> bool { self@ == s } }
impl<T> Given<T> {
    uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Given<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|o: Seq<Option<U>>| r@ == #[trigger] somes(o) && o.len() == self@.len() && forall|i: int| 0 <= i < o.len() ==> f.ensures((self@[i],), #[trigger] o[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Given<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn chain(self, o: Given<T>) -> (r: Given<T>) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    fn collect<C: FromGiven<T>>(self) -> (r: C) ensures r.made_of(self@) { unimplemented!() }
    #[verifier::external_body]
    fn items(self) -> (r: std::vec::IntoIter<T>)
        ensures r.remaining() == self@, r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}
#[verifier::external_body]
fn once<T>(x: T) -> (r: Given<T>) ensures r@ == seq![x] { unimplemented!() }
#[verifier::external_body]
fn entries_of<'b>(m: &'b HashMap<PathBuf, IncludedSource>) -> (r: Given<(&'b PathBuf, &'b IncludedSource)>) ensures enumerates(r@, m@) { unimplemented!() }
#[verifier::external_body]
fn as_deref<'b>(p: &'b Option<PathBuf>) -> (r: Option<&'b Path>) ensures refname(r) == pname(*p) { unimplemented!() }

/// picking entries keeps their order; what is picked comes from where
proof fn somes_from<T>(o: Seq<Option<T>>) -> (at: Seq<int>)
    ensures
        at.len() == somes(o).len(),
        forall|k: int| 0 <= k < at.len() ==> 0 <= #[trigger] at[k] < o.len() && o[at[k]] == Some(somes(o)[k]),
        forall|k: int, l: int| 0 <= k < l < at.len() ==> #[trigger] at[k] < #[trigger] at[l],
        forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some ==> at.contains(i),
    decreases o.len(),
{
    if o.len() == 0 { Seq::empty() } else {
        let a = somes_from(o.drop_last());
        let n = o.len() - 1;
        assert(o.last() == o[n]);
        if o.last() is Some {
            let b = a.push(n as int);
            assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some implies b.contains(i) by {
                if i < n { assert(o.drop_last()[i] == o[i]); assert(a.contains(i)); let k = a.index_of(i); assert(b[k] == i); } else { assert(b[a.len() as int] == i); }
            }
            assert forall|k: int| 0 <= k < b.len() implies 0 <= #[trigger] b[k] < o.len() && o[b[k]] == Some(somes(o)[k]) by { if k < a.len() { assert(b[k] == a[k]); assert(o.drop_last()[a[k]] == o[a[k]]); } }
            b
        } else {
            assert forall|k: int| 0 <= k < a.len() implies 0 <= #[trigger] a[k] < o.len() && o[a[k]] == Some(somes(o)[k]) by { assert(o.drop_last()[a[k]] == o[a[k]]); }
            assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some implies a.contains(i) by { assert(o.drop_last()[i] == o[i]); }
            a
        }
    }
}
type Source<'b> = (SourceId, Option<&'b Path>, &'b str);
/// a source is that entry
spec fn stands_for<'b>(x: Source<'b>, contents: Contents) -> bool {
    x.1 is Some && contents.contains_key((x.1->0).name()) && (contents[(x.1->0).name()].1 matches IncludedSource::Content(i, t, _) && x.0 == i && (x.2)@ == t@)
}
spec fn named<'b>(s: Seq<Source<'b>>, p: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && refname((#[trigger] s[i]).1) == Some(p) }
/// every file read, once, in some order
spec fn every_file<'b>(s: Seq<Source<'b>>, contents: Contents) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> stands_for(#[trigger] s[i], contents)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> refname(s[i].1) != refname(s[j].1)
    &&& forall|p: Seq<char>| #[trigger] contents.contains_key(p) && contents[p].1 is Content ==> named(s, p)
}
spec fn source_of<'b>(q: (&'b PathBuf, &'b IncludedSource), v: Option<Source<'b>>) -> bool {
    match q.1 { IncludedSource::Content(i, t, _) => v matches Some(x) && x.0 == *i && refname(x.1) == Some(q.0.name()) && (x.2)@ == t@, _ => v is None }
}
proof fn picked_files<'b>(e: Seq<(&'b PathBuf, &'b IncludedSource)>, o: Seq<Option<Source<'b>>>, contents: Contents)
    requires enumerates(e, contents), o.len() == e.len(), forall|i: int| 0 <= i < o.len() ==> source_of(e[i], #[trigger] o[i]),
    ensures every_file(somes(o), contents),
{
    let s = somes(o); let at = somes_from(o);
    assert forall|i: int| 0 <= i < s.len() implies stands_for(#[trigger] s[i], contents) by { assert(o[at[i]] == Some(s[i])); assert(source_of(e[at[i]], o[at[i]])); }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies refname(s[i].1) != refname(s[j].1) by {
        assert(at[i] < at[j]); assert(o[at[i]] == Some(s[i]) && o[at[j]] == Some(s[j])); assert(e[at[i]].0.content() != e[at[j]].0.content());
    }
    assert forall|p: Seq<char>| #[trigger] contents.contains_key(p) && contents[p].1 is Content implies named(s, p) by {
        assert(among(e, p)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.content() == p;
        assert(source_of(e[i], o[i])); assert(at.contains(i)); let k = at.index_of(i); assert(o[at[k]] == Some(s[k])); assert(refname(s[k].1) == Some(p));
    }
}
broadcast proof fn picked_files_b<'b>(e: Given<(&'b PathBuf, &'b IncludedSource)>, o: Seq<Option<Source<'b>>>, contents: Contents)
    requires #[trigger] enumerates(e@, contents), o.len() == e@.len(), forall|i: int| 0 <= i < o.len() ==> source_of(e@[i], #[trigger] o[i]),
    ensures every_file(#[trigger] somes(o), contents),
{ picked_files(e@, o, contents); }
broadcast proof fn after_one<T>(x: T, s: Seq<T>) ensures (#[trigger] (seq![x] + s)).drop_first() == s { assert((seq![x] + s).drop_first() =~= s); }
/// all sources, the root first
spec fn all_sources<'b>(s: Seq<Source<'b>>, b: &BeancountSources) -> bool {
    &&& s.len() >= 1 && s[0].0 == b.root_source_id && refname(s[0].1) == pname(b.root_path) && (s[0].2)@ == b.root_content@
    &&& every_file(s.drop_first(), b.included_content@)
}
impl BeancountSources {
@@fn src/sources.rs BeancountSources::content_iter
@ret r
@sigsubst impl Iterator<Item = (SourceId, Option<&Path>, &str)> =>> Given<Source<'_>>
@subst? self.included_content.iter() =>> entries_of(&self.included_content)
@subst? self.root_path.as_deref() =>> as_deref(&self.root_path)
@closure filter_map#0
    |q: (&PathBuf, &IncludedSource)| -> (v: Option<Source<'_>>) ensures source_of(q, v) { $bind0(q) $body }
@spec
    ensures all_sources(r@, self), // [C16, C17]
@start
    broadcast use {picked_files_b, after_one};
@@end
@@fn src/sources.rs BeancountSources::num_sources
@ret r
@spec
    ensures r == self.source_id_strings@.len(), // [C03]
@@end
@@fn src/sources.rs BeancountSources::root_path
@ret r
@subst? self.root_path.as_deref() =>> as_deref(&self.root_path)
@spec
    ensures refname(r) == pname(self.root_path), // [C17]
@@end
@@fn src/sources.rs BeancountSources::included_globs
@ret r
@spec
    ensures r@ == self.included_globs@, // [C17]
@@end
}
type Failed<'b> = (Option<&'b Path>, String);
spec fn failure_of<'b>(q: (&'b PathBuf, &'b IncludedSource), v: Option<Failed<'b>>) -> bool {
    match q.1 { IncludedSource::Error(e) => v matches Some(x) && refname(x.0) == Some(q.0.name()) && (x.1)@ == e@, _ => v is None }
}
broadcast proof fn picked_failures<'b>(e: Given<(&'b PathBuf, &'b IncludedSource)>, o: Seq<Option<Failed<'b>>>, contents: Contents, r: HashMap<Option<&'b Path>, String>)
    requires #[trigger] enumerates(e@, contents), o.len() == e@.len(), forall|i: int| 0 <= i < o.len() ==> failure_of(e@[i], #[trigger] o[i]), #[trigger] r.made_of(somes(o)),
    ensures keyed(r@), forall|p: Option<Seq<char>>| #[trigger] r@.contains_key(p) <==> p is Some && contents.contains_key(p->0) && contents[p->0].1 is Error,
{
    let s = somes(o); let at = somes_from(o); let e = e@;
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies s[i].0.content() != s[j].0.content() by {
        assert(at[i] < at[j]); assert(o[at[i]] == Some(s[i]) && o[at[j]] == Some(s[j])); assert(e[at[i]].0.content() != e[at[j]].0.content());
    }
    assert forall|p: Option<Seq<char>>| p is Some && contents.contains_key(p->0) && contents[p->0].1 is Error implies #[trigger] r@.contains_key(p) by {
        assert(among(e, p->0)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.content() == p->0;
        assert(failure_of(e[i], o[i])); assert(at.contains(i)); let k = at.index_of(i); assert(o[at[k]] == Some(s[k])); assert(s[k].0.content() == p);
    }
    assert forall|p: Option<Seq<char>>| #[trigger] r@.contains_key(p) implies p is Some && contents.contains_key(p->0) && contents[p->0].1 is Error && r@[p].0.content() == p by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.content() == p; assert(o[at[k]] == Some(s[k])); assert(failure_of(e[at[k]], o[at[k]]));
    }
}
impl BeancountSources {
@@fn src/sources.rs BeancountSources::error_paths
@ret r
@subst? self.included_content.iter() =>> entries_of(&self.included_content)
@closure filter_map#0
    |q: (&PathBuf, &IncludedSource)| -> (v: Option<Failed<'_>>) ensures failure_of(q, v) { $bind0(q) $body }
@spec
    ensures keyed(r@), forall|p: Option<Seq<char>>| #[trigger] r@.contains_key(p) <==> p is Some && self.included_content@.contains_key(p->0) && self.included_content@[p->0].1 is Error, // [C16, C17]
@start
    broadcast use picked_failures;
@@end
}

// ---------------------------------------------------------------- lexing and parsing each source
#[verifier::external_body] struct Token<'t> { x: &'t u8 }
#[verifier::external_body] struct Span_ { x: u8 }
#[verifier::external_body] struct Declaration<'t> { x: &'t u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct Spanned<T> { x: T }
#[verifier::external_body] struct Options<'t> { x: &'t u8 }
#[verifier::external_body] struct ParserOptions<'t> { x: &'t u8 }
#[verifier::external_body] struct Warning { x: u8 }
#[verifier::external_body] struct ParserError<'t> { x: &'t u8 }
#[verifier::external_body] struct Error { x: u8 }
@@item src/parsers.rs ParserState;
@@item src/lib.rs SpannedToken;
@@item src/lib.rs BeancountParser;
@@item src/lib.rs ParseDeclarationsResult;
mod chumsky { pub mod extra { use vstd::prelude::*; verus! { pub struct SimpleState<T>(pub T); } } }
/// what the tokens of a source are (unit lexpipe)
uninterp spec fn lexed<'t>(id: SourceId, text: Seq<char>) -> Seq<SpannedToken<'t>>;
#[verifier::external_body]
fn lex_with_source<'t>(id: SourceId, s: &'t str) -> (r: Vec<SpannedToken<'t>>) ensures r@ == lexed::<'t>(id, s@) { unimplemented!() }
#[verifier::external_body]
fn empties<'t>(n: usize) -> (r: Vec<Vec<SpannedToken<'t>>>) ensures r@.len() == n { unimplemented!() }

/// every source has its own number
broadcast proof fn own_numbers<'b>(s: Seq<Source<'b>>, b: &BeancountSources)
    requires #[trigger] all_sources(s, b), wf(b),
    ensures
        forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0.0 < b.source_id_strings@.len(),
        forall|k: int, l: int| #![trigger s[k], s[l]] 0 <= k < l < s.len() ==> s[k].0.0 != s[l].0.0,
        forall|n: Seq<char>| #[trigger] b.included_content@.contains_key(n) && b.included_content@[n].1 is Content ==> exists|k: int| 1 <= k < s.len() && refname((#[trigger] s[k]).1) == Some(n) && stands_for(s[k], b.included_content@),
        forall|k: int| 1 <= k < s.len() ==> stands_for(#[trigger] s[k], b.included_content@),
{
    let t = s.drop_first();
    assert forall|k: int| 1 <= k < s.len() implies stands_for(#[trigger] s[k], b.included_content@) by { assert(t[k - 1] == s[k]); }
    assert forall|k: int, l: int| #![trigger s[k], s[l]] 0 <= k < l < s.len() implies s[k].0.0 != s[l].0.0 by { if k > 0 { assert(t[k - 1] == s[k] && t[l - 1] == s[l]); assert(stands_for(s[k], b.included_content@) && stands_for(s[l], b.included_content@)); } }
    assert forall|n: Seq<char>| #[trigger] b.included_content@.contains_key(n) && b.included_content@[n].1 is Content implies exists|k: int| 1 <= k < s.len() && refname((#[trigger] s[k]).1) == Some(n) && stands_for(s[k], b.included_content@) by {
        assert(named(t, n)); let i = choose|i: int| 0 <= i < t.len() && refname((#[trigger] t[i]).1) == Some(n); assert(s[i + 1] == t[i]);
    }
}
/// every source is well formed, has its number, and its tokens
spec fn tokenized<'s>(p: &BeancountParser<'s>) -> bool {
    &&& wf(p.sources) && p.tokenized_sources@.len() == p.sources.source_id_strings@.len()
    &&& p.tokenized_sources@[0]@ == lexed::<'s>(p.sources.root_source_id, p.sources.root_content@)
    &&& forall|n: Seq<char>| #[trigger] p.sources.included_content@.contains_key(n) ==> (p.sources.included_content@[n].1 matches IncludedSource::Content(i, t, _) ==> p.tokenized_sources@[i.0 as int]@ == lexed::<'s>(i, t@))
}
spec fn own_tokens<'s>(tokens: Seq<Vec<SpannedToken<'s>>>, x: Source<'s>) -> bool { tokens[x.0.0 as int]@ == lexed::<'s>(x.0, (x.2)@) }
impl<'s> BeancountParser<'s> {
@@fn src/lib.rs BeancountParser::new
@ret r
@subst? vec![Vec::new(); sources.num_sources()] =>> empties(sources.num_sources())
@loop 1 for y !.items()
    invariant
        wf(sources), all_sources(y.seq(), sources), tokenized_sources@.len() == sources.source_id_strings@.len(),
        y.history() =~= y.seq().take(y.history().len() as int), y.history().len() <= y.seq().len(),
        forall|k: int| 0 <= k < y.history().len() ==> own_tokens(tokenized_sources@, #[trigger] y.seq()[k]),
@loopstart 1
    let ghost n0 = y.history().len() as int;
    proof { own_numbers(y.seq(), sources); assert(y.seq()[n0].0.0 < sources.source_id_strings@.len()); }
@loopend 1
    assert(own_tokens(tokenized_sources@, y.seq()[n0]));
@spec
    requires wf(sources),
    ensures r.sources == sources, tokenized(&r), // [C16, C17]
@start
    broadcast use own_numbers;
@@end
}
// assumed of chumsky: what the grammar gives and how it leaves the state is determined by the source's path, its number, its tokens, the position of
// its end and the state
uninterp spec fn grammar<'s>(path: Option<Seq<char>>, id: SourceId, tokens: Seq<SpannedToken<'s>>, end: Span_, state: ParserState<'s>) -> (Option<Seq<Spanned<Declaration<'s>>>>, Seq<ParserError<'s>>, ParserState<'s>);
uninterp spec fn end_at(id: SourceId, text: Seq<char>) -> Span_;
uninterp spec fn fresh<'s>() -> ParserState<'s>;
uninterp spec fn reported<'s>(e: ParserError<'s>) -> Error;
uninterp spec fn settings<'s>(o: ParserOptions<'s>) -> Options<'s>;
#[verifier::external_body]
fn end_of_input(id: SourceId, s: &str) -> (r: Span_) ensures r == end_at(id, s@) { unimplemented!() }
impl<'s> ParserState<'s> { #[verifier::external_body] fn default() -> (r: Self) ensures r == fresh::<'s>() { unimplemented!() } }
impl<'s> Options<'s> { #[verifier::external_body] fn new(o: ParserOptions<'s>) -> (r: Self) ensures r == settings(o) { unimplemented!() } }
#[verifier::external_body] struct Input<'s> { x: &'s u8 }
impl<'s> Input<'s> {
    uninterp spec fn tokens(&self) -> Seq<SpannedToken<'s>>;
    uninterp spec fn end(&self) -> Span_;
    uninterp spec fn id(&self) -> SourceId;
    #[verifier::external_body]
    fn with_context(self, id: SourceId) -> (r: Input<'s>) ensures r.tokens() == self.tokens(), r.end() == self.end(), r.id() == id { unimplemented!() }
}
trait AsInput<'s> { spec fn all(&self) -> Seq<SpannedToken<'s>>;
    fn map<F: Fn(&'s SpannedToken<'s>) -> (&'s Token<'s>, &'s Span_)>(&self, end: Span_, f: F) -> (r: Input<'s>)
        ensures r.end() == end, (forall|q: &'s SpannedToken<'s>, v: (&'s Token<'s>, &'s Span_)| f.ensures((q,), v) ==> *v.0 == q.0 && *v.1 == q.1) ==> r.tokens() == self.all();
}
impl<'s> AsInput<'s> for Vec<SpannedToken<'s>> { spec fn all(&self) -> Seq<SpannedToken<'s>> { self@ }
    #[verifier::external_body]
    fn map<F: Fn(&'s SpannedToken<'s>) -> (&'s Token<'s>, &'s Span_)>(&self, end: Span_, f: F) -> (r: Input<'s>) { unimplemented!() }
}
#[verifier::external_body] struct Grammar { x: u8 }
impl Grammar {
    uninterp spec fn path(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    fn parse_with_state<'s>(self, i: Input<'s>, state: &mut chumsky::extra::SimpleState<ParserState<'s>>) -> (r: Outcome<'s>)
        ensures ({ let g = grammar(self.path(), i.id(), i.tokens(), i.end(), old(state).0); r.output() == g.0 && r.errors() == g.1 && final(state).0 == g.2 }),
    { unimplemented!() }
}
#[verifier::external_body]
fn file(path: Option<&Path>) -> (r: Grammar) ensures r.path() == refname(path) { unimplemented!() }
#[verifier::external_body] struct Outcome<'s> { x: &'s u8 }
impl<'s> Outcome<'s> {
    uninterp spec fn output(&self) -> Option<Seq<Spanned<Declaration<'s>>>>;
    uninterp spec fn errors(&self) -> Seq<ParserError<'s>>;
    #[verifier::external_body]
    fn into_output_errors(self) -> (r: (Option<Vec<Spanned<Declaration<'s>>>>, Vec<ParserError<'s>>))
        ensures r.1@ == self.errors(), (r.0 is Some) == (self.output() is Some), r.0 is Some ==> (r.0->0)@ == self.output()->0,
    { unimplemented!() }
}
#[verifier::external_body]
fn extend_all<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
#[verifier::external_body]
fn reports<'s>(v: Vec<ParserError<'s>>) -> (r: Vec<Error>) ensures r@ == v@.map_values(|e: ParserError<'s>| reported(e)) { unimplemented!() }

/// C16: each source is parsed, with the state the one before left
spec fn parsed_one<'s>(x: Source<'s>, state: ParserState<'s>) -> (Option<Seq<Spanned<Declaration<'s>>>>, Seq<ParserError<'s>>, ParserState<'s>) {
    grammar(refname(x.1), x.0, lexed(x.0, (x.2)@), end_at(x.0, (x.2)@), state)
}
spec fn state_after<'s>(s: Seq<Source<'s>>, k: int) -> ParserState<'s> decreases k { if k <= 0 { fresh() } else { parsed_one(s[k - 1], state_after(s, k - 1)).2 } }
spec fn errors_after<'s>(s: Seq<Source<'s>>, k: int) -> Seq<ParserError<'s>> decreases k { if k <= 0 { Seq::empty() } else { errors_after(s, k - 1) + parsed_one(s[k - 1], state_after(s, k - 1)).1 } }
spec fn output_of<'s>(s: Seq<Source<'s>>, k: int) -> Seq<Spanned<Declaration<'s>>> { match parsed_one(s[k], state_after(s, k)).0 { Some(d) => d, None => Seq::empty() } }
type Outputs<'s> = Map<Option<Seq<char>>, (Option<&'s Path>, Vec<Spanned<Declaration<'s>>>)>;
/// the declarations of each of the first k sources, under its path
spec fn outputs<'s>(s: Seq<Source<'s>>, k: int, o: Outputs<'s>) -> bool {
    &&& keyed(o)
    &&& forall|i: int| 0 <= i < k ==> o.contains_key(refname((#[trigger] s[i]).1)) && o[refname(s[i].1)].1@ == output_of(s, i)
    &&& forall|p: Option<Seq<char>>| #[trigger] o.contains_key(p) ==> exists|i: int| 0 <= i < k && refname((#[trigger] s[i]).1) == p
}
/// C16, C17: every source's declarations, all errors in order, and the warnings
spec fn gathered<'s>(s: Seq<Source<'s>>, r: ParseDeclarationsResult<'s>) -> bool {
    let n = s.len() as int;
    &&& outputs(s, n, r.0@)
    &&& r.1 == settings(state_after(s, n).options)
    &&& r.2@ == errors_after(s, n).map_values(|e: ParserError<'s>| reported(e))
    &&& r.3 == state_after(s, n).warnings
}
broadcast proof fn own_names<'b>(s: Seq<Source<'b>>, b: &BeancountSources)
    requires #[trigger] all_sources(s, b), wf(b),
    ensures forall|k: int, l: int| #![trigger s[k], s[l]] 0 <= k < l < s.len() ==> refname(s[k].1) != refname(s[l].1),
{
    let t = s.drop_first();
    assert forall|k: int, l: int| #![trigger s[k], s[l]] 0 <= k < l < s.len() implies refname(s[k].1) != refname(s[l].1) by {
        assert(t[l - 1] == s[l]); assert(stands_for(t[l - 1], b.included_content@)); if k > 0 { assert(t[k - 1] == s[k]); }
    }
}
proof fn tokens_at<'s>(p: &BeancountParser<'s>, s: Seq<Source<'s>>, k: int)
    requires tokenized(p), all_sources(s, p.sources), 0 <= k < s.len(),
    ensures s[k].0.0 < p.tokenized_sources@.len(), p.tokenized_sources@[s[k].0.0 as int]@ == lexed::<'s>(s[k].0, (s[k].2)@),
{ own_numbers(s, p.sources); if k > 0 { assert(stands_for(s[k], p.sources.included_content@)); } }
broadcast proof fn no_outputs<'s>(s: Seq<Source<'s>>) ensures #[trigger] outputs(s, 0, Map::empty()) {}
proof fn one_more<'s>(b: &BeancountSources, s: Seq<Source<'s>>, k: int, o0: Outputs<'s>, o: Outputs<'s>)
    requires wf(b), all_sources(s, b), 0 <= k < s.len(), outputs(s, k, o0), ({ let p = refname(s[k].1); o == o0.insert(p, o[p]) && (if o0.contains_key(p) { o[p].0 == o0[p].0 } else { refname(o[p].0) == p }) && o[p].1@ == output_of(s, k) }),
    ensures outputs(s, k + 1, o),
{
    own_names(s, b);
    let p = refname(s[k].1);
    assert forall|i: int| 0 <= i < k + 1 implies o.contains_key(refname((#[trigger] s[i]).1)) && o[refname(s[i].1)].1@ == output_of(s, i) by { if i < k { assert(refname(s[i].1) != refname(s[k].1)); } }
    assert forall|q: Option<Seq<char>>| #[trigger] o.contains_key(q) implies exists|i: int| 0 <= i < k + 1 && refname((#[trigger] s[i]).1) == q by { if q != p { assert(o0.contains_key(q)); } else { assert(refname(s[k].1) == q); } }
}
impl<'s> BeancountParser<'s> {
@@fn src/lib.rs BeancountParser::parse_declarations
@ret r
@subst? all_errors.extend(errors) =>> extend_all(&mut all_errors, errors)
@subst? all_errors.into_iter().map(Error::from).collect() =>> reports(all_errors)
@closure map#0
    |q: &'a SpannedToken<'a>| -> (v: (&'a Token<'a>, &'a Span_)) ensures *v.0 == q.0, *v.1 == q.1 { $bind0(q) $body }
@loop 1 for y !.items()
    invariant
        tokenized(self), all_sources(y.seq(), self.sources),
        y.history() =~= y.seq().take(y.history().len() as int), y.history().len() <= y.seq().len(),
        parser_state.0 == state_after(y.seq(), y.history().len() as int), all_errors@ == errors_after(y.seq(), y.history().len() as int),
        outputs(y.seq(), y.history().len() as int, all_outputs@),
@loopstart 1
    let ghost n0 = y.history().len() as int;
    let ghost o0 = all_outputs@;
    proof { tokens_at(self, y.seq(), n0); }
@loopend 1
    proof { one_more(self.sources, y.seq(), n0, o0, all_outputs@); }
@start
    hide(outputs); hide(all_sources); hide(wf);
    broadcast use no_outputs;
@spec
    requires tokenized(self),
    ensures exists|s: Seq<Source<'a>>| #[trigger] all_sources(s, self.sources) && gathered(s, r), // [C16, C17]
@@end
}
}
