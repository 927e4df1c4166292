// Unit sort: src/sort.rs (C01)
#![feature(allocator_api)]
use std::collections::VecDeque;
use vstd::prelude::*;
use vstd::std_specs::iter::*;
verus! {
@@include mem.inc

// ---------------------------------------------------------------- assumed: ordered map and deque of std
pub uninterp spec fn le<K>(a: K, b: K) -> bool;     // the total order of K: Ord
pub open spec fn total<K>() -> bool {
    &&& forall|a: K| #[trigger] le(a, a)
    &&& forall|a: K, b: K| #[trigger] le(a, b) || le(b, a)
    &&& forall|a: K, b: K| (#[trigger] le(a, b) && #[trigger] le(b, a)) ==> a == b
    &&& forall|a: K, b: K, c: K| (#[trigger] le(a, b) && #[trigger] le(b, c)) ==> le(a, c)
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }

impl<K, V> View for BTreeMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K: Ord, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { BTreeMap { m: std::collections::BTreeMap::new() } }

    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            match r {
                None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
                Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k]
                    && final(self)@ == old(self)@.insert(*k, *final(v)),
            },
    { self.m.get_mut(k) }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { self.m.insert(k, v) }

    #[verifier::external_body]
    pub fn pop_first(&mut self) -> (r: Option<(K, V)>)
        ensures
            match r {
                None => old(self)@.dom() == Set::<K>::empty() && final(self)@ == old(self)@,
                Some((k, v)) => old(self)@.contains_key(k) && old(self)@[k] == v
                    && (forall|j: K| #[trigger] old(self)@.contains_key(j) ==> le(k, j))
                    && final(self)@ == old(self)@.remove(k),
            },
    { self.m.pop_first() }
}

@@include deque.inc
// ---------------------------------------------------------------- specification

pub uninterp spec fn keyof<V, K>(v: V) -> K;       // what the key function given to `sort` returns

pub open spec fn with_key<V, K>(s: Seq<V>, k: K) -> Seq<V> {
    s.filter(|v: V| keyof::<V, K>(v) == k)
}

/// the buckets hold exactly the items of `s`, each under its key, in order of arrival; none is empty
pub open spec fn buckets_of<K, V>(m: Map<K, VecDeque<V>>, s: Seq<V>) -> bool {
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> m[k]@ == with_key(s, k) && m[k]@.len() > 0
    &&& forall|k: K| !(#[trigger] m.contains_key(k)) ==> with_key(s, k).len() == 0
}

proof fn lemma_push<K, V>(m0: Map<K, VecDeque<V>>, s: Seq<V>, v: V, m1: Map<K, VecDeque<V>>)
    requires
        buckets_of(m0, s),
        m1.dom() =~= m0.dom().insert(keyof::<V, K>(v)),
        forall|k: K| k != keyof::<V, K>(v) && m0.contains_key(k) ==> #[trigger] m1[k] == m0[k],
        m1[keyof::<V, K>(v)]@ == (if m0.contains_key(keyof::<V, K>(v)) { m0[keyof::<V, K>(v)]@ } else { Seq::<V>::empty() }).push(v),
    ensures
        buckets_of(m1, s.push(v)),
{
    reveal(Seq::filter);
    let kv = keyof::<V, K>(v);
    assert forall|k: K| #[trigger] with_key(s.push(v), k) == (if k == kv { with_key(s, k).push(v) } else { with_key(s, k) }) by {
        assert(s.push(v).drop_last() =~= s);
    }
    assert forall|k: K| #[trigger] m1.contains_key(k) implies m1[k]@ == with_key(s.push(v), k) && m1[k]@.len() > 0 by {
        if k != kv { assert(m0.contains_key(k)); }
        else if !m0.contains_key(k) { assert(with_key(s, k) =~= Seq::<V>::empty()); }
    }
    assert forall|k: K| !(#[trigger] m1.contains_key(k)) implies with_key(s.push(v), k).len() == 0 by {
        assert(!m0.contains_key(k));
    }
}

pub open spec fn nonempty<K, V>(m: Map<K, VecDeque<V>>) -> bool {
    forall|k: K| #[trigger] m.contains_key(k) ==> m[k]@.len() > 0
}
pub open spec fn is_least<K, V>(m: Map<K, V>, k: K) -> bool {
    m.contains_key(k) && forall|j: K| #[trigger] m.contains_key(j) ==> le(k, j)
}
pub open spec fn least<K, V>(m: Map<K, V>) -> K {
    choose|k: K| is_least(m, k)
}
/// buckets in order of key
pub open spec fn flatten<K, V>(m: Map<K, VecDeque<V>>) -> Seq<V>
    decreases m.dom().len()
{
    if m.dom().len() == 0 || !is_least(m, least(m)) { Seq::empty() }
    else { m[least(m)]@ + flatten(m.remove(least(m))) }
}

proof fn lemma_least<K, V>(m: Map<K, V>)
    requires total::<K>(), m.dom().len() > 0,
    ensures is_least(m, least(m)), forall|k: K| is_least(m, k) ==> k == least(m),
    decreases m.dom().len(),
{
    let k0 = m.dom().choose();
    assert(m.dom().contains(k0));
    let m1 = m.remove(k0);
    assert(m1.dom() =~= m.dom().remove(k0));
    if m1.dom().len() == 0 {
        assert forall|j: K| #[trigger] m.contains_key(j) implies le(k0, j) by {
            if j != k0 { assert(m1.dom().contains(j)); }
        }
        assert(is_least(m, k0));
    } else {
        lemma_least(m1);
        let k1 = least(m1);
        let k = if le(k0, k1) { k0 } else { k1 };
        assert forall|j: K| #[trigger] m.contains_key(j) implies le(k, j) by {
            if j != k0 { assert(m1.contains_key(j)); assert(le(k1, j)); }
        }
        assert(m1.contains_key(k1));
        assert(is_least(m, k));
    }
}

/// flatten gives the items in non-decreasing order of key, and those of any one key exactly as they arrived
proof fn lemma_flatten<K, V>(m: Map<K, VecDeque<V>>)
    requires
        total::<K>(),
        forall|k: K, i: int| #[trigger] m.contains_key(k) && 0 <= i < m[k]@.len() ==> keyof::<V, K>(#[trigger] m[k]@[i]) == k,
    ensures
        forall|i: int| 0 <= i < flatten(m).len() ==> m.contains_key(keyof::<V, K>(#[trigger] flatten(m)[i])),
        forall|i: int, j: int| 0 <= i <= j < flatten(m).len() ==> le(keyof::<V, K>(#[trigger] flatten(m)[i]), keyof::<V, K>(#[trigger] flatten(m)[j])),
        forall|k: K| #[trigger] with_key(flatten(m), k) == (if m.contains_key(k) { m[k]@ } else { Seq::<V>::empty() }),
    decreases m.dom().len(),
{
    if m.dom().len() == 0 {
        assert forall|k: K| #[trigger] with_key(flatten(m), k) == (if m.contains_key(k) { m[k]@ } else { Seq::<V>::empty() }) by {
            reveal(Seq::filter);
            assert(!m.dom().contains(k));
            assert(flatten(m) =~= Seq::<V>::empty());
        }
    } else {
        lemma_least(m);
        let k0 = least(m);
        let m1 = m.remove(k0);
        assert(m1.dom() =~= m.dom().remove(k0));
        lemma_flatten(m1);
        let a = m[k0]@;
        let b = flatten(m1);
        assert(flatten(m) == a + b);
        assert forall|i: int| 0 <= i < flatten(m).len() implies m.contains_key(keyof::<V, K>(#[trigger] flatten(m)[i])) by {
            if i < a.len() { assert(flatten(m)[i] == m[k0]@[i]); } else { assert(flatten(m)[i] == b[i - a.len()]); }
        }
        assert forall|i: int, j: int| 0 <= i <= j < flatten(m).len() implies le(keyof::<V, K>(#[trigger] flatten(m)[i]), keyof::<V, K>(#[trigger] flatten(m)[j])) by {
            assert(m.contains_key(keyof::<V, K>(flatten(m)[j])));
            if i < a.len() { assert(flatten(m)[i] == m[k0]@[i]); } else {
                assert(flatten(m)[i] == b[i - a.len()]);
                assert(flatten(m)[j] == b[j - a.len()]);
            }
        }
        assert forall|k: K| #[trigger] with_key(flatten(m), k) == (if m.contains_key(k) { m[k]@ } else { Seq::<V>::empty() }) by {
            let p = |v: V| keyof::<V, K>(v) == k;
            lemma_filter_concat(a, b, p);
            if k == k0 {
                assert forall|i: int| 0 <= i < a.len() implies p(a[i]) by { assert(a[i] == m[k0]@[i]); }
                lemma_filter_all(a, p);
                assert(!m1.contains_key(k));
                assert(with_key(b, k) =~= Seq::<V>::empty());
                assert(a + Seq::<V>::empty() =~= a);
            } else {
                assert forall|i: int| 0 <= i < a.len() implies !p(a[i]) by { assert(a[i] == m[k0]@[i]); }
                lemma_filter_none(a, p);
                assert(m1.contains_key(k) == m.contains_key(k));
                assert(Seq::<V>::empty() + b.filter(p) =~= b.filter(p));
                assert(with_key(b, k) == b.filter(p));
            }
        }
    }
}
proof fn lemma_filter_concat<V>(a: Seq<V>, b: Seq<V>, p: spec_fn(V) -> bool)
    ensures (a + b).filter(p) == a.filter(p) + b.filter(p)
    decreases b.len()
{
    reveal(Seq::filter);
    if b.len() == 0 { assert(a + b =~= a); assert(a.filter(p) + b.filter(p) =~= a.filter(p)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_filter_concat(a, b.drop_last(), p);
        assert((a + b).filter(p) =~= a.filter(p) + b.filter(p));
    }
}
proof fn lemma_filter_all<V>(a: Seq<V>, p: spec_fn(V) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> p(#[trigger] a[i])
    ensures a.filter(p) == a
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 { lemma_filter_all(a.drop_last(), p); assert(a.drop_last().push(a.last()) =~= a); } else { assert(a.filter(p) =~= a); }
}
proof fn lemma_filter_none<V>(a: Seq<V>, p: spec_fn(V) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> !p(#[trigger] a[i])
    ensures a.filter(p) == Seq::<V>::empty()
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 { lemma_filter_none(a.drop_last(), p); }
}
proof fn lemma_with_key_elems<K, V>(s: Seq<V>, k: K)
    ensures forall|i: int| 0 <= i < with_key(s, k).len() ==> keyof::<V, K>(#[trigger] with_key(s, k)[i]) == k
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_with_key_elems::<K, V>(s.drop_last(), k); }
}

impl<K, V> Sort<K, V> {
    /// everything which successive calls of `next` will return
    spec fn drain(&self) -> Seq<V> {
        (match self.head_bucket { None => Seq::empty(), Some(b) => b@ }) + flatten(self.tail_buckets@)
    }
}

/// C01: what the sort returns for `s` is a stable rearrangement of `s` in non-decreasing order of key
proof fn theorem_c01_sort<K, V>(r: Sort<K, V>, s: Seq<V>)
    requires total::<K>(), r.head_bucket is None, buckets_of(r.tail_buckets@, s),
    ensures
        forall|i: int, j: int| 0 <= i <= j < r.drain().len() ==> le(keyof::<V, K>(#[trigger] r.drain()[i]), keyof::<V, K>(#[trigger] r.drain()[j])),
        forall|k: K| #[trigger] with_key(r.drain(), k) == with_key(s, k),
        nonempty(r.tail_buckets@),
{
    let m = r.tail_buckets@;
    assert forall|k: K, i: int| #[trigger] m.contains_key(k) && 0 <= i < m[k]@.len() implies keyof::<V, K>(#[trigger] m[k]@[i]) == k by {
        lemma_with_key_elems(s, k);
        assert(m[k]@ == with_key(s, k));
    }
    lemma_flatten(m);
    assert(r.drain() =~= flatten(m));
    assert forall|k: K| #[trigger] with_key(r.drain(), k) == with_key(s, k) by {
        assert(with_key(flatten(m), k) == (if m.contains_key(k) { m[k]@ } else { Seq::<V>::empty() }));
        if !m.contains_key(k) { assert(with_key(s, k) =~= Seq::<V>::empty()); }
    }
}

// ---------------------------------------------------------------- extracted

#[verifier::reject_recursive_types(K)]
@@item src/sort.rs Sort;

impl<K, V> Sort<K, V> {
@@fn src/sort.rs Sort::new
@ret r
@spec
    requires
        iter.obeys_prophetic_iter_laws(), iter.will_return_none(), iter.decrease() is Some,
        forall|v: &V| keyfn.requires((v,)),
        forall|v: &V, k: K| keyfn.ensures((v,), k) ==> k == keyof::<V, K>(*v),
    ensures
        r.head_bucket is None,
        buckets_of(r.tail_buckets@, iter.remaining()),
@start
        let ghost mut h: Seq<V> = Seq::empty();
@end
        proof { assert(h =~= iter.remaining()); }
@loop 1 for y
            invariant
                h == y.history(),
                y.seq() == iter.remaining(),
                iter.obeys_prophetic_iter_laws(), iter.will_return_none(), y.iter.obeys_prophetic_iter_laws(),
                forall|v: &V| keyfn.requires((v,)),
                forall|v: &V, k: K| keyfn.ensures((v,), k) ==> k == keyof::<V, K>(*v),
                buckets_of(buckets@, h),
@loopstart 1
            let ghost h0 = h;
            let ghost m0 = buckets@;
@loopend 1
            proof { lemma_push(m0, h0, item, buckets@); h = h.push(item); }
@@end
}

impl<K: Ord, V> Sort<K, V> {
@@fn src/sort.rs Iterator@Sort::next
@ret r
@sigsubst Self::Item =>> V
@spec
    requires total::<K>(), nonempty(old(self).tail_buckets@),
    ensures
        nonempty(final(self).tail_buckets@),
        old(self).drain().len() == 0 ==> r is None && final(self).drain() == old(self).drain(),
        old(self).drain().len() > 0 ==> r == Some(old(self).drain()[0]) && final(self).drain() == old(self).drain().drop_first(),
@start
        proof {
            if self.tail_buckets@.dom().len() > 0 { lemma_least(self.tail_buckets@); }
        }
        let ghost d0 = self.drain();
@closure map#0
    |p: (K, VecDeque<V>)| -> (r: VecDeque<V>) ensures r == p.1 { let $p0 = p; $body }
@closure and_then#0
    |$p0: &mut VecDeque<V>| -> (r: Option<V>)
        ensures old($p0)@.len() == 0 ==> r is None && final($p0)@ == old($p0)@,
            old($p0)@.len() > 0 ==> r == Some(old($p0)@[0]) && final($p0)@ == old($p0)@.drop_first()
        { $body }
@@end
}
trait SortIteratorAdaptor<K, V, F>: Iterator<Item = V> + Sized {
@@fn src/sort.rs SortIteratorAdaptor::sort
@ret r
@spec
    requires
        self.obeys_prophetic_iter_laws(), self.will_return_none(), self.decrease() is Some,
        forall|v: &V| keyfn.requires((v,)),
        forall|v: &V, k: K| keyfn.ensures((v,), k) ==> k == keyof::<V, K>(*v),
    ensures
        r.head_bucket is None,
        buckets_of(r.tail_buckets@, self.remaining()),
@@end
}
}
fn main() {}
