type TagLink<'a> = Either<Spanned<Tag<'a>>, Spanned<Link<'a>>>;
/// where a name occurs in a list
spec fn listed<T: Content>(s: Seq<T>, c: T::C) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].content() == c }
spec fn tag_at<'a>(x: TagLink<'a>, c: Seq<char>) -> bool { x is Left && (x->Left_0).content() == c }
spec fn link_at<'a>(x: TagLink<'a>, c: Seq<char>) -> bool { x is Right && (x->Right_0).content() == c }
spec fn has_tag<'a>(s: Seq<TagLink<'a>>, c: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] tag_at(s[i], c) }
spec fn has_link<'a>(s: Seq<TagLink<'a>>, c: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] link_at(s[i], c) }
spec fn meta_tag_at<'a>(x: Metadatum<'a>, c: Seq<char>) -> bool { x is Tag && (x->Tag_0).content() == c }
spec fn meta_link_at<'a>(x: Metadatum<'a>, c: Seq<char>) -> bool { x is Link && (x->Link_0).content() == c }
spec fn meta_key_at<'a>(x: Metadatum<'a>, c: Seq<char>) -> bool { x is KeyValue && (x->KeyValue_0).item.key.content() == c }
spec fn has_meta_tag<'a>(s: Seq<Metadatum<'a>>, c: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] meta_tag_at(s[i], c) }
spec fn has_meta_link<'a>(s: Seq<Metadatum<'a>>, c: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] meta_link_at(s[i], c) }
spec fn has_meta_key<'a>(s: Seq<Metadatum<'a>>, c: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] meta_key_at(s[i], c) }
/// a value given to the key c
spec fn gives<'a>(x: Metadatum<'a>, c: Seq<char>, kv: (Spanned<Key<'a>>, Spanned<MetaValue<'a>>)) -> bool {
    x is KeyValue && (x->KeyValue_0).item.key.content() == c && kv == ((x->KeyValue_0).item.key, (x->KeyValue_0).item.value)
}

enum Either<A, B> { Left(A), Right(B) }
/// C13: merging adds what is not there, keeps the rest, and reports each which is there already
spec fn united<T: Content>(old_: Map<T::C, T>, added: Map<T::C, T>, new_: Map<T::C, T>) -> bool {
    &&& forall|c: T::C| #[trigger] new_.contains_key(c) <==> old_.contains_key(c) || added.contains_key(c)
    &&& forall|c: T::C| #[trigger] old_.contains_key(c) ==> new_[c] == old_[c]
    &&& forall|c: T::C| #[trigger] new_.contains_key(c) && !old_.contains_key(c) ==> new_[c] == added[c]
}
spec fn surplus<T: Content>(old_: Map<T::C, T>, added: Map<T::C, T>, new_: Map<T::C, T>) -> int { old_.dom().len() + added.dom().len() - new_.dom().len() }
/// C13, C20: the tags and links of the first line and of the metadata, together
spec fn joined<'a>(m: Metadata<'a>, first: (HashSet<Spanned<Tag<'a>>>, HashSet<Spanned<Link<'a>>>), r: Metadata<'a>, errors: int) -> bool {
    &&& united(m.tags@, first.0@, r.tags@)
    &&& united(m.links@, first.1@, r.links@)
    &&& errors == surplus(m.tags@, first.0@, r.tags@) + surplus(m.links@, first.1@, r.links@)
}
spec fn nonempty<'a>(s: Option<Spanned<&'a str>>) -> Option<Spanned<&'a str>> { if s is Some && s->0.item@.len() == 0 { None } else { s } }
spec fn annotated<'s>(is_total: bool, amount: Option<ExprValue>, cur: Option<Currency<'s>>) -> PriceSpec<'s> {
    let scoped = if is_total { ScopedExprValue::Total(amount->0) } else { ScopedExprValue::PerUnit(amount->0) };
    if amount is Some && cur is Some { PriceSpec::CurrencyAmount(scoped, cur->0) }
    else if amount is Some { PriceSpec::BareAmount(scoped) }
    else if cur is Some { PriceSpec::BareCurrency(cur->0) }
    else { PriceSpec::Unspecified }
}
/// C13: the tags and links listed, each once; an error for each which is repeated
spec fn gathered_tags_links<'a>(s: Seq<TagLink<'a>>, r: (HashSet<Spanned<Tag<'a>>>, HashSet<Spanned<Link<'a>>>), errors: int) -> bool {
    &&& forall|c: Seq<char>| #[trigger] r.0@.contains_key(c) <==> has_tag(s, c)
    &&& forall|c: Seq<char>| #[trigger] r.1@.contains_key(c) <==> has_link(s, c)
    &&& keyed_set(r.0@) && keyed_set(r.1@)
    &&& errors == s.len() - r.0@.dom().len() - r.1@.dom().len()
}
spec fn gathered_currencies<'a>(first: Spanned<Currency<'a>>, s: Seq<Spanned<Currency<'a>>>, r: HashSet<Spanned<Currency<'a>>>, errors: int) -> bool {
    &&& forall|c: Seq<char>| #[trigger] r@.contains_key(c) <==> first.content() == c || listed(s, c)
    &&& keyed_set(r@)
    &&& errors == 1 + s.len() - r@.dom().len()
}
/// C13: the metadata lines, each key with a value given to it
spec fn gathered_metadata<'a>(s: Seq<Metadatum<'a>>, r: Metadata<'a>, errors: int) -> bool {
    &&& forall|c: Seq<char>| #[trigger] r.tags@.contains_key(c) <==> has_meta_tag(s, c)
    &&& forall|c: Seq<char>| #[trigger] r.links@.contains_key(c) <==> has_meta_link(s, c)
    &&& forall|c: Seq<char>| #[trigger] r.key_values@.contains_key(c) <==> has_meta_key(s, c)
    &&& forall|c: Seq<char>| #[trigger] r.key_values@.contains_key(c) ==> exists|i: int| 0 <= i < s.len() && #[trigger] gives(s[i], c, r.key_values@[c])
    &&& keyed_set(r.tags@) && keyed_set(r.links@) && keyed(r.key_values@)
    &&& errors == s.len() - r.tags@.dom().len() - r.links@.dom().len() - r.key_values@.dom().len()
}
/// C13, C20: a directive of its parts
spec fn assembled<'a>(date: Spanned<Date>, variant: DirectiveVariant<'a>, m: Spanned<Metadata<'a>>, first: (HashSet<Spanned<Tag<'a>>>, HashSet<Spanned<Link<'a>>>), r: Directive<'a>, errors: int) -> bool {
    &&& r.date == date
    &&& r.variant == variant
    &&& r.metadata.span == m.span
    &&& r.metadata.item.key_values == m.item.key_values
    &&& joined(m.item, first, r.metadata.item, errors)
}
