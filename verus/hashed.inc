// ---------------------------------------------------------------- assumed: std HashMap and HashSet, over mathematical maps from what distinguishes
// a key (its content) to the key itself, as inserted first, and its value
trait Content: Sized { type C; spec fn content(&self) -> Self::C; }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
struct HashSet<K> { m: std::collections::HashSet<K> }
/// every key is stored under its content
spec fn keyed<K: Content, V>(m: Map<K::C, (K, V)>) -> bool { forall|c: K::C| #[trigger] m.contains_key(c) ==> m[c].0.content() == c }
spec fn keyed_set<K: Content>(m: Map<K::C, K>) -> bool { forall|c: K::C| #[trigger] m.contains_key(c) ==> m[c].content() == c }
/// a listing of the entries, each once, in any order
spec fn enumerates<K: Content, V>(s: Seq<(&K, &V)>, m: Map<K::C, (K, V)>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0.content()) && m[s[i].0.content()] == (*s[i].0, *s[i].1)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0.content() != s[j].0.content()
    &&& forall|c: K::C| #[trigger] m.contains_key(c) ==> among(s, c)
}
spec fn among<K: Content, V>(s: Seq<(&K, &V)>, c: K::C) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.content() == c }
impl<K: Content, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<K::C, (K, V)>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<K::C, (K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<K::C, (K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, q: &K) -> (r: Option<&V>)
        ensures r is Some == self@.contains_key(q.content()), r is Some ==> *r->0 == self@[q.content()].1,
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, q: &K) -> (r: bool) ensures r == self@.contains_key(q.content()) { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, q: &K) -> (r: Option<&mut V>)
        ensures
            match r {
                None => !old(self)@.contains_key(q.content()) && final(self)@ == old(self)@,
                Some(v) => old(self)@.contains_key(q.content()) && *v == old(self)@[q.content()].1
                    && final(self)@ == old(self)@.insert(q.content(), (old(self)@[q.content()].0, *final(v))),
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k.content(), (if old(self)@.contains_key(k.content()) { old(self)@[k.content()].0 } else { k }, v)),
            r == (if old(self)@.contains_key(k.content()) { Some(old(self)@[k.content()].1) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, q: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(q.content()),
            r == (if old(self)@.contains_key(q.content()) { Some(old(self)@[q.content()].1) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_entry(&mut self, q: &K) -> (r: Option<(K, V)>)
        ensures
            final(self)@ == old(self)@.remove(q.content()),
            r == (if old(self)@.contains_key(q.content()) { Some(old(self)@[q.content()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn iter<'b>(&'b self) -> (r: std::vec::IntoIter<(&'b K, &'b V)>)
        ensures enumerates(r.remaining(), self@), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}
spec fn set_enumerates<K: Content>(s: Seq<&K>, m: Map<K::C, K>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].content()) && m[s[i].content()] == *s[i]
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].content() != s[j].content()
    &&& forall|c: K::C| #[trigger] m.contains_key(c) ==> ref_among(s, c)
}
spec fn ref_among<K: Content>(s: Seq<&K>, c: K::C) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).content() == c }
proof fn ref_among_push<K: Content>(s: Seq<&K>, x: &K, c: K::C)
    ensures ref_among(s.push(x), c) <==> ref_among(s, c) || x.content() == c,
{
    let p = s.push(x);
    if ref_among(s, c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).content() == c; assert(p[i].content() == c); }
    if x.content() == c { assert(p[s.len() as int].content() == c); }
    if ref_among(p, c) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).content() == c; if i < s.len() { assert(s[i].content() == c); } }
}
/// a listing of all elements is as long as there are elements
proof fn all_len<K: Content>(s: Seq<&K>, m: Map<K::C, K>)
    requires
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].content()),
        forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].content() != s[j].content(),
        forall|c: K::C| #[trigger] m.contains_key(c) ==> ref_among(s, c),
    ensures s.len() == m.dom().len(),
    decreases s.len(),
{
    if s.len() == 0 {
        if m.dom().len() != 0 { let c = m.dom().choose(); assert(m.dom().contains(c)); assert(m.contains_key(c)); assert(ref_among(s, c)); }
    } else {
        let t = s.drop_last(); let l = s.last().content();
        assert(s =~= t.push(s.last()));
        assert(m.contains_key(s[s.len() - 1].content()));
        let n = m.remove(l);
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies n.contains_key(t[i].content()) by { assert(s[i] == t[i]); assert(s[s.len() - 1].content() == l); }
        assert forall|c: K::C| #[trigger] n.contains_key(c) implies ref_among(t, c) by { assert(m.contains_key(c)); ref_among_push(t, s.last(), c); }
        all_len(t, n);
        assert(n.dom() =~= m.dom().remove(l));
    }
}
impl<K: Content> HashSet<K> {
    uninterp spec fn view(&self) -> Map<K::C, K>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<K::C, K>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<K::C, K>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn iter<'b>(&'b self) -> (r: std::vec::IntoIter<&'b K>)
        ensures set_enumerates(r.remaining(), self@), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, q: &K) -> (r: bool) ensures r == self@.contains_key(q.content()) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, q: &K) -> (r: Option<&K>)
        ensures r is Some == self@.contains_key(q.content()), r is Some ==> *r->0 == self@[q.content()],
    { unimplemented!() }
    // an element already there stays
    #[verifier::external_body]
    fn insert(&mut self, k: K) -> (r: bool)
        ensures
            r == !old(self)@.contains_key(k.content()),
            final(self)@ == (if old(self)@.contains_key(k.content()) { old(self)@ } else { old(self)@.insert(k.content(), k) }),
    { unimplemented!() }
}
broadcast proof fn among_push<K: Content, V>(s: Seq<(&K, &V)>, x: (&K, &V), c: K::C)
    ensures #[trigger] among(s.push(x), c) <==> among(s, c) || x.0.content() == c,
{
    let p = s.push(x);
    if among(s, c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.content() == c; assert(p[i].0.content() == c); }
    if x.0.content() == c { assert(p[s.len() as int].0.content() == c); }
    if among(p, c) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0.content() == c; if i < s.len() { assert(s[i].0.content() == c); } }
}
