// ---------------------------------------------------------------- assumed: iterators over known things, by what they yield
struct Things<T> { v: Vec<T> }
trait Listed<T>: Sized {
    spec fn listed(&self) -> Seq<T>;
    fn into_iter(self) -> (r: Things<T>) ensures r.v@ == self.listed();
}
trait Collected<T>: Sized { spec fn all(&self) -> Seq<T>; }
impl<T> Collected<T> for Vec<T> { spec fn all(&self) -> Seq<T> { self@ } }
spec fn mapped<T, U, F: FnOnce(T) -> U>(f: F, s: Seq<T>, r: Seq<U>) -> bool {
    s.len() == r.len() && forall|i: int| #![trigger s[i]] #![trigger r[i]] 0 <= i < s.len() ==> f.ensures((s[i],), r[i])
}
impl<T> Things<T> {
    #[verifier::external_body]
    fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Things<U>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> f.requires((self.v@[i],)),
        ensures mapped(f, self.v@, r.v@),
    { unimplemented!() }
    #[verifier::external_body]
    fn collect<C: Collected<T>>(self) -> (r: C) ensures r.all() == self.v@ { unimplemented!() }
}
