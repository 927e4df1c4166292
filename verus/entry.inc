// ---------------------------------------------------------------- assumed: HashMap::entry, over the contracts of hashed.inc
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VacantEntry<'m, K, V> { map: &'m mut HashMap<K, V>, key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct OccupiedEntry<'m, K, V> { map: &'m mut HashMap<K, V>, key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
enum Entry<'m, K, V> { Vacant(VacantEntry<'m, K, V>), Occupied(OccupiedEntry<'m, K, V>) }
impl<K: Content, V> HashMap<K, V> {
    fn entry<'m>(&'m mut self, key: K) -> (r: Entry<'m, K, V>)
        ensures match r {
            Entry::Vacant(e) => !old(self)@.contains_key(key.content()) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key == key,
            Entry::Occupied(e) => old(self)@.contains_key(key.content()) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key == key,
        },
    {
        if self.contains_key(&key) { Entry::Occupied(OccupiedEntry { map: self, key }) } else { Entry::Vacant(VacantEntry { map: self, key }) }
    }
}
impl<'m, K: Content, V> VacantEntry<'m, K, V> {
    #[verifier::external_body]
    fn insert(self, v: V) -> (r: &'m mut V)
        ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key.content(), (self.key, *final(r))),
    { unimplemented!() }
    fn key(&self) -> (r: &K) ensures *r == self.key { &self.key }
}
impl<'m, K: Content, V> OccupiedEntry<'m, K, V> {
    #[verifier::external_body]
    fn get(&self) -> (r: &V) requires self.map@.contains_key(self.key.content()), ensures *r == old(self.map)@[self.key.content()].1 { unimplemented!() }
    #[verifier::external_body]
    fn key(&self) -> (r: &K) requires self.map@.contains_key(self.key.content()), ensures *r == old(self.map)@[self.key.content()].0 { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, v: V) -> (r: V)
        requires old(self).map@.contains_key(old(self).key.content()),
        ensures final(self).map@ == old(self).map@.insert(old(self).key.content(), (old(self).map@[old(self).key.content()].0, v)), final(self).key == old(self).key,
            *final(final(self).map) == *final(old(self).map), r == old(self).map@[old(self).key.content()].1,
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(self) -> (r: V)
        requires self.map@.contains_key(self.key.content()),
        ensures final(self.map)@ == old(self.map)@.remove(self.key.content()), r == old(self.map)@[self.key.content()].1,
    { unimplemented!() }
}
