// ---------------------------------------------------------------- the types of what is parsed (extracted)
// what distinguishes tags, links, keys and currencies from each other
impl<'a> Content for Spanned<Tag<'a>> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.item.0@ } }
impl<'a> Content for Spanned<Link<'a>> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.item.0@ } }
impl<'a> Content for Spanned<Key<'a>> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.item.0@ } }
impl<'a> Content for Spanned<Currency<'a>> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.item.0@ } }
#[derive(Clone, Copy)]
@@item src/types.rs Span;
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
@@item src/types.rs Spanned;
#[derive(Clone, Copy)]
@@item src/types.rs Tag;
#[derive(Clone, Copy)]
@@item src/types.rs Link;
#[derive(Clone, Copy)]
@@item src/types.rs Key;
#[derive(Clone, Copy)]
@@item src/types.rs Currency;
@@item src/types.rs Metadata;
@@item src/types.rs MetaKeyValue;
@@item src/types.rs MetaValue;
@@item src/types.rs SimpleValue;
@@item src/types.rs Directive;
@@item src/types.rs DirectiveVariant;
@@item src/types.rs Transaction;
@@item src/types.rs Price;
@@item src/types.rs Balance;
@@item src/types.rs Open;
@@item src/types.rs Close;
@@item src/types.rs Commodity;
@@item src/types.rs Pad;
@@item src/types.rs Document;
@@item src/types.rs Note;
@@item src/types.rs Event;
@@item src/types.rs Query;
@@item src/types.rs Custom;
@@item src/types.rs Plugin;
@@item src/types.rs Posting;
@@item src/types.rs Amount;
@@item src/types.rs AmountWithTolerance;
@@item src/types.rs LooseAmount;
@@item src/types.rs CostSpec;
@@item src/types.rs PriceSpec;
@@item src/types.rs ScopedExprValue;

@@item src/parsers.rs Metadatum;
