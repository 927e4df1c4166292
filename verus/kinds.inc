// the kind under which each element is reported: the types stand for themselves only (their fields do not matter here)
struct Flag;
impl ElementType<'static> for Flag {
    spec fn kind(&self) -> Seq<char> { "flag"@ }
@@fn src/types.rs ElementType@Flag::element_type
@ret r
@@end
}
struct Booking;
impl ElementType<'static> for Booking {
    spec fn kind(&self) -> Seq<char> { "booking"@ }
@@fn src/types.rs ElementType@Booking::element_type
@ret r
@@end
}
struct Price<'a>(&'a str);
impl ElementType<'static> for Price<'_> {
    spec fn kind(&self) -> Seq<char> { "price"@ }
@@fn src/types.rs ElementType@Price::element_type
@ret r
@@end
}
struct Balance<'a>(&'a str);
impl ElementType<'static> for Balance<'_> {
    spec fn kind(&self) -> Seq<char> { "balance"@ }
@@fn src/types.rs ElementType@Balance::element_type
@ret r
@@end
}
struct Account<'a>(&'a str);
impl ElementType<'static> for Account<'_> {
    spec fn kind(&self) -> Seq<char> { "account"@ }
@@fn src/types.rs ElementType@Account::element_type
@ret r
@@end
}
struct AccountTypeName<'a>(&'a str);
impl ElementType<'static> for AccountTypeName<'_> {
    spec fn kind(&self) -> Seq<char> { "account type name"@ }
@@fn src/types.rs ElementType@AccountTypeName::element_type
@ret r
@@end
}
struct AccountName<'a>(&'a str);
impl ElementType<'static> for AccountName<'_> {
    spec fn kind(&self) -> Seq<char> { "account name"@ }
@@fn src/types.rs ElementType@AccountName::element_type
@ret r
@@end
}
struct Currency<'a>(&'a str);
impl ElementType<'static> for Currency<'_> {
    spec fn kind(&self) -> Seq<char> { "currency"@ }
@@fn src/types.rs ElementType@Currency::element_type
@ret r
@@end
}
struct Posting<'a>(&'a str);
impl ElementType<'static> for Posting<'_> {
    spec fn kind(&self) -> Seq<char> { "posting"@ }
@@fn src/types.rs ElementType@Posting::element_type
@ret r
@@end
}
struct SimpleValue<'a>(&'a str);
impl ElementType<'static> for SimpleValue<'_> {
    spec fn kind(&self) -> Seq<char> { "simple value"@ }
@@fn src/types.rs ElementType@SimpleValue::element_type
@ret r
@@end
}
struct Tag<'a>(&'a str);
impl ElementType<'static> for Tag<'_> {
    spec fn kind(&self) -> Seq<char> { "tag"@ }
@@fn src/types.rs ElementType@Tag::element_type
@ret r
@@end
}
struct Link<'a>(&'a str);
impl ElementType<'static> for Link<'_> {
    spec fn kind(&self) -> Seq<char> { "link"@ }
@@fn src/types.rs ElementType@Link::element_type
@ret r
@@end
}
struct Key<'a>(&'a str);
impl ElementType<'static> for Key<'_> {
    spec fn kind(&self) -> Seq<char> { "key"@ }
@@fn src/types.rs ElementType@Key::element_type
@ret r
@@end
}
struct ExprValue;
impl ElementType<'static> for ExprValue {
    spec fn kind(&self) -> Seq<char> { "amount"@ }
@@fn src/types.rs ElementType@ExprValue::element_type
@ret r
@@end
}
struct CostSpec<'a>(&'a str);
impl ElementType<'static> for CostSpec<'_> {
    spec fn kind(&self) -> Seq<char> { "cost specification"@ }
@@fn src/types.rs ElementType@CostSpec::element_type
@ret r
@@end
}
struct Transaction<'a>(&'a str);
struct Open<'a>(&'a str);
struct Close<'a>(&'a str);
struct Commodity<'a>(&'a str);
struct Pad<'a>(&'a str);
struct Document<'a>(&'a str);
struct Note<'a>(&'a str);
struct Event<'a>(&'a str);
struct Query<'a>(&'a str);
struct Custom<'a>(&'a str);
struct Date;
struct Metadata<'a>(&'a str);
@@item src/types.rs DirectiveVariant;
@@item src/types.rs Directive;
spec fn variant_kind(v: DirectiveVariant) -> Seq<char> {
    match v {
        DirectiveVariant::Transaction(_) => "transaction"@, DirectiveVariant::Price(_) => "price"@, DirectiveVariant::Balance(_) => "balance"@,
        DirectiveVariant::Open(_) => "open"@, DirectiveVariant::Close(_) => "close"@, DirectiveVariant::Commodity(_) => "commodity"@,
        DirectiveVariant::Pad(_) => "pad"@, DirectiveVariant::Document(_) => "document"@, DirectiveVariant::Note(_) => "note"@,
        DirectiveVariant::Event(_) => "event"@, DirectiveVariant::Query(_) => "query"@, DirectiveVariant::Custom(_) => "custom"@,
    }
}
impl<'a> ElementType<'static> for Directive<'a> {
    spec fn kind(&self) -> Seq<char> { variant_kind(self.variant) }
@@fn src/types.rs ElementType@Directive::element_type
@ret r
@@end
}
