// ---------------------------------------------------------------- assumed: Option::is_some_and calls its closure on the content
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, F: FnOnce(T) -> bool + std::marker::Destruct> [std::option::Option::<T>::is_some_and] (o: std::option::Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures
        r ==> o is Some && f.ensures((o->0,), true),
        !r ==> o is None || f.ensures((o->0,), false),
;
// assumed: cloning a range clones both of its ends
pub assume_specification<Idx: Clone> [<std::ops::Range<Idx> as Clone>::clone] (r: &std::ops::Range<Idx>) -> (c: std::ops::Range<Idx>)
    ensures call_ensures(Idx::clone, (&r.start,), c.start), call_ensures(Idx::clone, (&r.end,), c.end),
;
// assumed: Option::and
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::marker::Destruct, U: std::marker::Destruct> [std::option::Option::<T>::and] (o: std::option::Option<T>, p: std::option::Option<U>) -> (r: std::option::Option<U>)
    ensures r == (if o is Some { p } else { None }),
;
// assumed: Option::or
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::marker::Destruct> [std::option::Option::<T>::or] (o: std::option::Option<T>, p: std::option::Option<T>) -> (r: std::option::Option<T>)
    ensures r == (if o is Some { o } else { p }),
;
