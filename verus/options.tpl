// Unit options: options are recorded once under their own name, src/options.rs (C08; C19: the limit; C09: renaming)
#![allow(unused)]
#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
@@include mem.inc
@@include option.inc
@@include identspec.inc
@@include hashed.inc
@@include entry.inc
@@include things.inc
// ---------------------------------------------------------------- stubs: the values, opaque, and what tells them apart
#[verifier::external_body] #[derive(Clone, Copy)] struct Decimal { x: u8 }
#[verifier::external_body] struct PathBuf { x: u8 }
#[derive(Clone, Copy)]
@@item src/types.rs Span;
#[derive(Clone, Copy)]
@@item src/types.rs Spanned;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item src/types.rs AccountType;
#[derive(Clone, Copy)]
@@item src/types.rs AccountTypeName;
@@item src/types.rs Subaccount;
#[derive(Clone, Copy)]
@@item src/types.rs Currency;
@@item src/types.rs Booking;
@@item src/types.rs PluginProcessingMode;
@@item src/options.rs BeancountOption;
@@item src/options.rs BeancountOptionVariant;
@@item src/options.rs CurrencyOrAny;
@@item src/options.rs ParserOptions;
@@item src/options.rs ParserOptionsError;
@@item src/options.rs Options;
@@item src/options.rs Sourced;
#[derive(Clone, Copy)]
@@item src/options.rs Source;
@@item src/options.rs OptionError;
@@item src/options.rs DEFAULT_LONG_STRING_MAXLINES;
impl<K: Content, V> HashMap<K, V> {
    // assumed: iter, each entry once, in any order
    #[verifier::external_body]
    fn listed<'b>(&'b self) -> (r: Things<(&'b K, &'b V)>) ensures enumerates(r.v@, self@) { unimplemented!() }
}
/// each key of the map once
spec fn keys_listed<K: Content, V>(s: Seq<&K>, m: Map<K::C, (K, V)>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].content()) && m[s[i].content()].0 == *s[i]
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].content() != s[j].content()
    &&& forall|c: K::C| #[trigger] m.contains_key(c) ==> ref_among(s, c)
}
spec fn currency_of<'a>(c: Option<Currency<'a>>) -> Option<Seq<char>> { match c { Some(c) => Some(c.0@), None => None } }
spec fn tolerance_among<'a>(s: Seq<(Option<Currency<'a>>, Decimal)>, c: Option<Seq<char>>) -> bool { exists|i: int| 0 <= i < s.len() && currency_of((#[trigger] s[i]).0) == c }
/// each currency, or none for any, with its tolerance, once
spec fn tolerances_listed<'a>(s: Seq<(Option<Currency<'a>>, Decimal)>, m: Map<Option<Seq<char>>, (CurrencyOrAny<'a>, (Decimal, Source))>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(currency_of(s[i].0)) && m[currency_of(s[i].0)].1.0 == s[i].1
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> currency_of(s[i].0) != currency_of(s[j].0)
    &&& forall|c: Option<Seq<char>>| #[trigger] m.contains_key(c) ==> tolerance_among(s, c)
}
uninterp spec fn path_content(p: PathBuf) -> Seq<char>;
impl Content for PathBuf { type C = Seq<char>; spec fn content(&self) -> Seq<char> { path_content(*self) } }
impl<'a> Content for Currency<'a> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.0@ } }
impl<'a> Content for CurrencyOrAny<'a> {
    type C = Option<Seq<char>>;
    spec fn content(&self) -> Option<Seq<char>> { match self { CurrencyOrAny::Currency(c) => Some(c.0@), CurrencyOrAny::Any => None } }
}
// proved in unit names
@@item src/types.rs AccountTypeNames;
@@item src/types.rs AccountTypeNamesError;
@@item src/types.rs AccountTypeNamesErrorKind;
impl<'a> Content for AccountTypeName<'a> { type C = Seq<char>; spec fn content(&self) -> Seq<char> { self.0@ } }
spec fn index(t: AccountType) -> int { t as int }
impl<'a> AccountTypeNames<'a> {
    spec fn wf(&self) -> bool {
        &&& self.name_by_type@.len() == 5
        &&& forall|t: AccountType| self.type_by_name@.contains_key(#[trigger] self.named(t)) && self.type_by_name@[self.named(t)].1 == t
        &&& forall|n: Seq<char>| #[trigger] self.type_by_name@.contains_key(n) ==> self.named(self.type_by_name@[n].1) == n
    }
    spec fn named(&self, t: AccountType) -> Seq<char> { self.name_by_type@[index(t)].0@ }
    spec fn renamed(&self, new: &Self, account_type: AccountType, name: Seq<char>, r: Result<(), AccountTypeNamesError>) -> bool {
        &&& new.wf()
        &&& forall|t: AccountType| t != account_type ==> new.named(t) == self.named(t)
        &&& r is Ok ==> new.named(account_type) == name
        &&& r is Err ==> new.named(account_type) == self.named(account_type)
        &&& r is Err == (exists|t: AccountType| t != account_type && #[trigger] self.named(t) == name)
    }
    #[verifier::external_body]
    fn update(&mut self, account_type: AccountType, name: AccountTypeName<'a>) -> (r: Result<(), AccountTypeNamesError>)
        requires old(self).wf(),
        ensures old(self).renamed(final(self), account_type, name.0@, r),
    { unimplemented!() }
}
// proved in unit diag
#[verifier::external_body] struct Error { x: u8 }
impl Error {
    uninterp spec fn at(&self) -> Span;
    uninterp spec fn related(&self) -> Seq<Span>;
    #[verifier::external_body]
    fn new(message: &str, reason: &str, span: Span) -> (r: Error) ensures r.at() == span, r.related() == Seq::<Span>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn related_to_named_span(self, name: &str, span: Span) -> (r: Error) ensures r.at() == self.at(), r.related() == self.related().push(span) { unimplemented!() }
}

@@fn src/types.rs spanned
@ret r
@spec
    ensures r.item == item, r.span == span,
@@end
@@fn src/options.rs sourced
@ret r
@spec
    ensures r == given(item, source), // [C08,C19]
@@end
impl<T> Sourced<T> {
@@fn src/options.rs Sourced::item
@ret r
@spec
    ensures *r == self.spanned.item, // [C19]
@@end
}
// ---------------------------------------------------------------- specification
/// a value as given: at the position of the value, together with where the option was
spec fn given<T>(v: T, s: Source) -> Sourced<T> { Sourced { spanned: Spanned { item: v, span: s.value }, source: s } }
/// C08: recorded if first, else refused pointing at the first, which stands
spec fn once<T>(o: Option<Sourced<T>>, n: Option<Sourced<T>>, v: T, s: Source, r: Result<(), OptionError>) -> bool {
    match o {
        None => r is Ok && n == Some(given(v, s)),
        Some(f) => r == Err::<(), OptionError>(OptionError::DuplicateOption(f.source.name)) && n == o,
    }
}
spec fn once_each<K: Content, V>(o: Map<K::C, (K, V)>, n: Map<K::C, (K, V)>, k: K, v: V, first: Span, r: Result<(), OptionError>) -> bool {
    if o.contains_key(k.content()) { r == Err::<(), OptionError>(OptionError::DuplicateValue(first)) && n == o } else { r is Ok && n == o.insert(k.content(), (k, v)) }
}
spec fn refused(r: Result<(), Error>, at: Span, first: Span) -> bool { r is Err && r->Err_0.at() == at && r->Err_0.related() =~= Seq::empty().push(first) }
spec fn single<T>(o: Option<Sourced<T>>, n: Option<Sourced<T>>, v: T, s: Source, r: Result<(), Error>) -> bool {
    match o { None => r is Ok && n == Some(given(v, s)), Some(f) => refused(r, s.name, f.source.name) && n == o }
}
spec fn multi<K: Content, V>(o: Map<K::C, (K, V)>, n: Map<K::C, (K, V)>, k: K, v: V, s: Source, first: Span, r: Result<(), Error>) -> bool {
    if o.contains_key(k.content()) { refused(r, s.value, first) && n == o } else { r is Ok && n == o.insert(k.content(), (k, v)) }
}
/// C08: what each option does: it changes the setting of its own name and no other
spec fn recorded(o: Options, opt: BeancountOption, n: Options, r: Result<(), Error>) -> bool {
    let s = opt.source;
    match opt.variant {
        BeancountOptionVariant::Title(v) => single(o.title, n.title, v, s, r) && n == (Options { title: n.title, ..o }),
        BeancountOptionVariant::AccountPreviousBalances(v) => single(o.account_previous_balances, n.account_previous_balances, v, s, r) && n == (Options { account_previous_balances: n.account_previous_balances, ..o }),
        BeancountOptionVariant::AccountPreviousEarnings(v) => single(o.account_previous_earnings, n.account_previous_earnings, v, s, r) && n == (Options { account_previous_earnings: n.account_previous_earnings, ..o }),
        BeancountOptionVariant::AccountPreviousConversions(v) => single(o.account_previous_conversions, n.account_previous_conversions, v, s, r) && n == (Options { account_previous_conversions: n.account_previous_conversions, ..o }),
        BeancountOptionVariant::AccountCurrentEarnings(v) => single(o.account_current_earnings, n.account_current_earnings, v, s, r) && n == (Options { account_current_earnings: n.account_current_earnings, ..o }),
        BeancountOptionVariant::AccountCurrentConversions(v) => single(o.account_current_conversions, n.account_current_conversions, v, s, r) && n == (Options { account_current_conversions: n.account_current_conversions, ..o }),
        BeancountOptionVariant::AccountUnrealizedGains(v) => single(o.account_unrealized_gains, n.account_unrealized_gains, v, s, r) && n == (Options { account_unrealized_gains: n.account_unrealized_gains, ..o }),
        BeancountOptionVariant::AccountRounding(v) => single(o.account_rounding, n.account_rounding, v, s, r) && n == (Options { account_rounding: n.account_rounding, ..o }),
        BeancountOptionVariant::ConversionCurrency(v) => single(o.conversion_currency, n.conversion_currency, v, s, r) && n == (Options { conversion_currency: n.conversion_currency, ..o }),
        BeancountOptionVariant::InferredToleranceMultiplier(v) => single(o.inferred_tolerance_multiplier, n.inferred_tolerance_multiplier, v, s, r) && n == (Options { inferred_tolerance_multiplier: n.inferred_tolerance_multiplier, ..o }),
        BeancountOptionVariant::InferToleranceFromCost(v) => single(o.infer_tolerance_from_cost, n.infer_tolerance_from_cost, v, s, r) && n == (Options { infer_tolerance_from_cost: n.infer_tolerance_from_cost, ..o }),
        BeancountOptionVariant::RenderCommas(v) => single(o.render_commas, n.render_commas, v, s, r) && n == (Options { render_commas: n.render_commas, ..o }),
        BeancountOptionVariant::BookingMethod(v) => single(o.booking_method, n.booking_method, v, s, r) && n == (Options { booking_method: n.booking_method, ..o }),
        BeancountOptionVariant::PluginProcessingMode(v) => single(o.plugin_processing_mode, n.plugin_processing_mode, v, s, r) && n == (Options { plugin_processing_mode: n.plugin_processing_mode, ..o }),
        BeancountOptionVariant::InferredToleranceDefault(k, v) => multi(o.inferred_tolerance_default@, n.inferred_tolerance_default@, k, (v, s), s, o.inferred_tolerance_default@[k.content()].1.1.value, r)
            && n == (Options { inferred_tolerance_default: n.inferred_tolerance_default, ..o }),
        BeancountOptionVariant::Documents(k) => multi(o.documents@, n.documents@, k, s, s, o.documents@[k.content()].1.value, r) && n == (Options { documents: n.documents, ..o }),
        BeancountOptionVariant::OperatingCurrency(k) => multi(o.operating_currency@, n.operating_currency@, k, s, s, o.operating_currency@[k.content()].1.value, r) && n == (Options { operating_currency: n.operating_currency, ..o }),
        _ => r is Ok && n == o,
    }
}
impl<'a> Options<'a> {
@@fn src/options.rs Options::new
@ret r
@spec
    ensures r.title is None, r.account_previous_balances is None, r.account_previous_earnings is None, r.account_previous_conversions is None, r.account_current_earnings is None, r.account_current_conversions is None, // [C08]
        r.account_unrealized_gains is None, r.account_rounding is None, r.conversion_currency is None, r.inferred_tolerance_default@ == Map::<Option<Seq<char>>, (CurrencyOrAny<'a>, (Decimal, Source))>::empty(), // [C08]
        r.inferred_tolerance_multiplier is None, r.infer_tolerance_from_cost is None, r.documents@ == Map::<Seq<char>, (PathBuf, Source)>::empty(), r.operating_currency@ == Map::<Seq<char>, (Currency<'a>, Source)>::empty(), // [C08]
        r.render_commas is None, r.booking_method is None, r.plugin_processing_mode is None, r.parser_options == parser_options, // [C08]
@@end
@@fn src/options.rs Options::update_optional
@ret r
@spec
    ensures once(*old(field), *final(field), value, source, r), // [C08]
@@end
@@fn src/options.rs Options::update_hashmap
@ret r
@sigsubst Eq + Hash =>> Content
@subst? use hash_map::Entry::* =>> use Entry::*
@spec
    ensures once_each(old(field)@, final(field)@, key, (value, source), old(field)@[key.content()].1.1.value, r), // [C08]
@@end
@@fn src/options.rs Options::update_unit_hashmap
@ret r
@sigsubst Eq + Hash =>> Content
@subst? use hash_map::Entry::* =>> use Entry::*
@spec
    ensures once_each(old(field)@, final(field)@, key, source, old(field)@[key.content()].1.value, r), // [C08]
@@end
@@fn src/options.rs Options::assimilate
@ret r
@closure map_err#0
|e: OptionError| -> (q: Error) ensures match e {
        OptionError::DuplicateOption(f) => q.at() == source.name && q.related() == Seq::empty().push(f),
        OptionError::DuplicateValue(f) => q.at() == source.value && q.related() == Seq::empty().push(f),
    } { $bind0(e) $body }
@spec
    ensures recorded(*old(self), opt, *final(self), r), // [C08]
@@end
}
// ---------------------------------------------------------------- reading the settings
spec fn read<T>(f: Option<Sourced<T>>, r: Option<&Spanned<T>>) -> bool { match f { None => r is None, Some(x) => r is Some && *r->0 == x.spanned } }
impl<'a> Options<'a> {
@@fn src/options.rs Options::title
@ret r
@closure map#0
|x: &Sourced<&'a str>| -> (q: &Spanned<&'a str>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.title, r), // [C08]
@@end
@@fn src/options.rs Options::account_previous_balances
@ret r
@closure map#0
|x: &Sourced<Subaccount<'a>>| -> (q: &Spanned<Subaccount<'a>>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.account_previous_balances, r), // [C08]
@@end
@@fn src/options.rs Options::account_previous_earnings
@ret r
@closure map#0
|x: &Sourced<Subaccount<'a>>| -> (q: &Spanned<Subaccount<'a>>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.account_previous_earnings, r), // [C08]
@@end
@@fn src/options.rs Options::account_previous_conversions
@ret r
@closure map#0
|x: &Sourced<Subaccount<'a>>| -> (q: &Spanned<Subaccount<'a>>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.account_previous_conversions, r), // [C08]
@@end
@@fn src/options.rs Options::account_current_earnings
@ret r
@closure map#0
|x: &Sourced<Subaccount<'a>>| -> (q: &Spanned<Subaccount<'a>>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.account_current_earnings, r), // [C08]
@@end
@@fn src/options.rs Options::account_current_conversions
@ret r
@closure map#0
|x: &Sourced<Subaccount<'a>>| -> (q: &Spanned<Subaccount<'a>>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.account_current_conversions, r), // [C08]
@@end
@@fn src/options.rs Options::account_unrealized_gains
@ret r
@closure map#0
|x: &Sourced<Subaccount<'a>>| -> (q: &Spanned<Subaccount<'a>>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.account_unrealized_gains, r), // [C08]
@@end
@@fn src/options.rs Options::account_rounding
@ret r
@closure map#0
|x: &Sourced<Subaccount<'a>>| -> (q: &Spanned<Subaccount<'a>>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.account_rounding, r), // [C08]
@@end
@@fn src/options.rs Options::conversion_currency
@ret r
@closure map#0
|x: &Sourced<Currency<'a>>| -> (q: &Spanned<Currency<'a>>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.conversion_currency, r), // [C08]
@@end
@@fn src/options.rs Options::inferred_tolerance_multiplier
@ret r
@closure map#0
|x: &Sourced<Decimal>| -> (q: &Spanned<Decimal>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.inferred_tolerance_multiplier, r), // [C08]
@@end
@@fn src/options.rs Options::infer_tolerance_from_cost
@ret r
@closure map#0
|x: &Sourced<bool>| -> (q: &Spanned<bool>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.infer_tolerance_from_cost, r), // [C08]
@@end
@@fn src/options.rs Options::render_commas
@ret r
@closure map#0
|x: &Sourced<bool>| -> (q: &Spanned<bool>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.render_commas, r), // [C08]
@@end
@@fn src/options.rs Options::booking_method
@ret r
@closure map#0
|x: &Sourced<Booking>| -> (q: &Spanned<Booking>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.booking_method, r), // [C08]
@@end
@@fn src/options.rs Options::plugin_processing_mode
@ret r
@closure map#0
|x: &Sourced<PluginProcessingMode>| -> (q: &Spanned<PluginProcessingMode>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.plugin_processing_mode, r), // [C08]
@@end
@@fn src/options.rs Options::long_string_maxlines
@ret r
@closure map#0
|x: &Sourced<usize>| -> (q: &Spanned<usize>) ensures *q == x.spanned { $bind0(x) $body }
@spec
    ensures read(self.parser_options.long_string_maxlines, r), // [C08,C19]
@@end
@@fn src/options.rs Options::account_type_name
@ret r
@spec
    requires self.parser_options.account_type_names.wf(),
    ensures r.0@ == self.parser_options.account_type_names.named(account_type), // [C09]
@@end
@@fn src/options.rs Options::inferred_tolerance_default
@ret r
@closure map#0
|x: &(Decimal, Source)| -> (q: Decimal) ensures q == x.0 { $bind0(x) $body }
@closure map#1
|x: &(Decimal, Source)| -> (q: Decimal) ensures q == x.0 { $bind0(x) $body }
@spec
    ensures r == tolerance(self.inferred_tolerance_default@, Some(currency.0@)), // [C08]
@@end
@@fn src/options.rs Options::inferred_tolerance_default_fallback
@ret r
@closure map#0
|x: &(Decimal, Source)| -> (q: Decimal) ensures q == x.0 { $bind0(x) $body }
@spec
    ensures r == tolerance(self.inferred_tolerance_default@, None), // [C08]
@@end
@@fn src/options.rs Options::inferred_tolerance_defaults
@sig
fn inferred_tolerance_defaults<'s>(&'s self) -> (r: Things<(Option<Currency<'a>>, Decimal)>)
@subst? .iter() =>> .listed()
@closure map#0
|e: (&CurrencyOrAny<'a>, &(Decimal, Source))| -> (q: (Option<Currency<'a>>, Decimal)) ensures currency_of(q.0) == e.0.content(), q.1 == e.1.0 { $bind0(e) $body }
@spec
    ensures tolerances_listed(r.v@, self.inferred_tolerance_default@), // [C08]
@@end
@@fn src/options.rs Options::documents
@sig
fn documents(&self) -> (r: Things<&PathBuf>)
@subst? .iter() =>> .listed()
@closure map#0
|e: (&PathBuf, &Source)| -> (q: &PathBuf) ensures q == e.0 { $bind0(e) $body }
@spec
    ensures keys_listed(r.v@, self.documents@), // [C08]
@@end
@@fn src/options.rs Options::operating_currency
@sig
fn operating_currency(&self) -> (r: Things<&Currency<'a>>)
@subst? .iter() =>> .listed()
@closure map#0
|e: (&Currency<'a>, &Source)| -> (q: &Currency<'a>) ensures q == e.0 { $bind0(e) $body }
@spec
    ensures keys_listed(r.v@, self.operating_currency@), // [C08]
@@end
}
/// that of the currency, or else of any
spec fn tolerance<'a>(m: Map<Option<Seq<char>>, (CurrencyOrAny<'a>, (Decimal, Source))>, c: Option<Seq<char>>) -> Option<Decimal> {
    if m.contains_key(c) { Some(m[c].1.0) } else if m.contains_key(None) { Some(m[None].1.0) } else { None }
}
// ---------------------------------------------------------------- the options in force while reading
impl<'a> ParserOptions<'a> {
@@fn src/options.rs ParserOptions::assimilate
@ret r
@subst? .map_err(ParserOptionsError) =>> .map_err(|e: AccountTypeNamesError| -> (q: ParserOptionsError) ensures q == ParserOptionsError(e) { ParserOptionsError(e) })
@closure map#0
|_x: ()| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::<'a>::Assimilated { $body }
@closure map#1
|variant: BeancountOptionVariant<'a>| -> (q: BeancountOption<'a>) ensures q == (BeancountOption { source, variant }) { $body }
@spec
    requires old(self).account_type_names.wf(),
    ensures
        match opt.variant {
            BeancountOptionVariant::AccountTypeName(t, n) => { // [C09]
                &&& old(self).account_type_names.renamed(&final(self).account_type_names, t, n.0@, match r { Ok(_) => Ok(()), Err(ParserOptionsError(e)) => Err(e) }) // [C09]
                &&& final(self).long_string_maxlines == old(self).long_string_maxlines // [C19]
                &&& r is Ok ==> r->Ok_0.variant is Assimilated // [C09]
            },
            BeancountOptionVariant::LongStringMaxlines(n) => { // [C19]
                &&& r is Ok && r->Ok_0.variant is Assimilated // [C19]
                &&& *final(self) == (ParserOptions { long_string_maxlines: Some(given(n, opt.source)), ..*old(self) }) // [C19]
            },
            _ => r is Ok && r->Ok_0 == opt && *final(self) == *old(self), // [C08]
        },
        in_force(*old(self), *final(self), opt, r),
@@end
@@fn src/options.rs ParserOptions::account_type_name
@ret r
@spec
    requires self.account_type_names.wf(),
    ensures r.0@ == self.account_type_names.named(account_type), // [C09]
@@end
@@fn src/options.rs ParserOptions::long_string_maxlines
@ret r
@closure map#0
|sourced: &Sourced<usize>| -> (q: usize) ensures q == sourced.spanned.item { $bind0(sourced) $body }
@spec
    ensures r == limit(self), // [C19]
@@end
}
/// C19: the limit in force
spec fn limit(p: &ParserOptions) -> usize { match p.long_string_maxlines { Some(x) => x.spanned.item, None => 64 } }

// ---------------------------------------------------------------- recognising an option
#[verifier::external_body]
proof fn str_ext(s: &str) ensures forall|t: &str| #[trigger] t@ == s@ ==> t == s {}   // a text is its characters
mod strum { pub struct ParseError; }
mod rust_decimal { pub struct Error; }
mod std_num { pub struct ParseIntError; }
@@item src/types.rs AccountTypeNameError;
@@item src/types.rs AccountTypeNameErrorKind;
@@item src/types.rs AccountNameError;
@@item src/types.rs AccountNameErrorKind;
@@item src/types.rs CurrencyError;
@@item src/types.rs CurrencyErrorKind;
@@item src/options.rs BeancountOptionError;
@@item src/options.rs BadValueError;
@@item src/options.rs BadValueErrorKind
@subst std::num::ParseIntError =>> std_num::ParseIntError
@@end
// proved in unit ident
impl<'a> AccountTypeName<'a> {
    #[verifier::external_body]
    fn try_from(s: &'a str) -> (r: Result<Self, AccountTypeNameError>) ensures r is Ok == type_name_ok(s@), r is Ok ==> r->Ok_0.0 == s { unimplemented!() }
}
impl<'a> Subaccount<'a> {
    #[verifier::external_body]
    fn try_from(s: &'a str) -> (r: Result<Self, AccountNameError>) ensures r is Ok == subaccount_ok(s@), r is Ok ==> r->Ok_0.0 == s { unimplemented!() }
}
impl<'a> Currency<'a> {
    #[verifier::external_body]
    fn try_from(s: &'a str) -> (r: Result<Self, CurrencyError>) ensures r is Ok == currency_ok(s@), r is Ok ==> r->Ok_0.0 == s { unimplemented!() }
}
// assumed: what a text denotes as a decimal, a number, a booking method, a processing mode
uninterp spec fn decimal_of(s: Seq<char>) -> Option<Decimal>;
uninterp spec fn usize_of(s: Seq<char>) -> Option<usize>;
uninterp spec fn booking_of(s: Seq<char>) -> Option<Booking>;
uninterp spec fn mode_of(s: Seq<char>) -> Option<PluginProcessingMode>;
uninterp spec fn same_text(s: Seq<char>, t: Seq<char>) -> bool;      // but for ASCII case
spec fn got<T, E>(o: Option<T>, r: Result<T, E>) -> bool { match o { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } }
impl Decimal {
    #[verifier::external_body]
    fn try_from(s: &str) -> (r: Result<Decimal, rust_decimal::Error>) ensures got(decimal_of(s@), r) { unimplemented!() }
}
impl Booking {
    #[verifier::external_body]
    fn try_from(s: &str) -> (r: Result<Booking, strum::ParseError>) ensures got(booking_of(s@), r) { unimplemented!() }
}
impl PluginProcessingMode {
    #[verifier::external_body]
    fn try_from(s: &str) -> (r: Result<PluginProcessingMode, strum::ParseError>) ensures got(mode_of(s@), r) { unimplemented!() }
}
#[verifier::external_body]
fn parse_usize(s: &str) -> (r: Result<usize, std_num::ParseIntError>) ensures got(usize_of(s@), r) { unimplemented!() }
trait Cased { fn eq_ignore_ascii_case_(&self, t: &str) -> bool; }
impl Cased for str {
    #[verifier::external_body]
    fn eq_ignore_ascii_case_(&self, t: &str) -> (r: bool) ensures r == same_text(self@, t@) { unimplemented!() }
}
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::marker::Destruct, E: std::marker::Destruct, F: std::marker::Destruct> [std::result::Result::<T, E>::or] (o: std::result::Result<T, E>, p: std::result::Result<T, F>) -> (r: std::result::Result<T, F>)
    ensures r == (match o { Ok(x) => Ok(x), Err(_) => p }),
;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, U, F: FnOnce(T) -> std::result::Result<U, E> + std::marker::Destruct> [std::result::Result::<T, E>::and_then] (o: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
    requires o matches Ok(x) ==> f.requires((x,)),
    ensures o matches Ok(x) ==> f.ensures((x,), r), o matches Err(e) ==> r == Err::<U, E>(e),
;
// assumed: paths
#[verifier::external_body] struct Path { x: u8 }
uninterp spec fn parent_of(p: &Path) -> Option<&Path>;
uninterp spec fn joined(p: &Path, s: Seq<char>) -> PathBuf;
uninterp spec fn path_of(s: Seq<char>) -> PathBuf;
impl Path {
    #[verifier::external_body]
    fn parent(&self) -> (r: Option<&Path>) ensures r == parent_of(self) { unimplemented!() }
    #[verifier::external_body]
    fn join(&self, s: &str) -> (r: PathBuf) ensures r == joined(self, s@) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    fn from(s: &str) -> (r: PathBuf) ensures r == path_of(s@) { unimplemented!() }
}
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U: std::marker::Destruct, F: FnOnce(T) -> U + std::marker::Destruct> [std::option::Option::<T>::map_or] (o: std::option::Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> r == d, o matches Some(x) ==> f.ensures((x,), r),
;
// assumed: splitting at colons
struct Pieces<'a> { s: Vec<&'a str> }
impl<'a> Pieces<'a> {
    uninterp spec fn view(&self) -> Seq<Seq<char>>;
    fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
fn split_colon<'a>(s: &'a str) -> (r: Pieces<'a>) ensures r@ == pieces(s@), pieces(s@).len() > 0 { unimplemented!() }

impl BadValueErrorKind {
@@fn src/options.rs BadValueErrorKind::wrap
@ret r
@spec
    ensures r == BeancountOptionError::BadValue(BadValueError(self)), // [C08]
@@end
}
/// the value is used exactly if it is good, and is otherwise refused as a bad value
spec fn used<T>(good: bool, is: T, r: Result<T, BeancountOptionError>) -> bool {
    if good { r == Ok::<T, BeancountOptionError>(is) } else { r is Err && r->Err_0 is BadValue }
}
spec fn bool_of(s: Seq<char>) -> Option<bool> { if same_text(s, "true"@) { Some(true) } else if same_text(s, "false"@) { Some(false) } else { None } }
spec fn bit_of(s: Seq<char>) -> Option<bool> { if s == "1"@ { Some(true) } else if s == "0"@ { Some(false) } else { None } }
spec fn any_of<'a>(s: &'a str) -> CurrencyOrAny<'a> { if s@ == "*"@ { CurrencyOrAny::Any } else { CurrencyOrAny::Currency(Currency(s)) } }
impl<'a> CurrencyOrAny<'a> {
@@fn src/options.rs TryFrom@CurrencyOrAny::try_from
@ret r
@sigsubst Self::Error =>> CurrencyError
@subst? .map(CurrencyOrAny::Currency) =>> .map(|c: Currency<'a>| -> (q: CurrencyOrAny<'a>) ensures q == CurrencyOrAny::Currency(c) { CurrencyOrAny::Currency(c) })
@spec
    ensures r is Ok == (s@ == "*"@ || currency_ok(s@)), r is Ok ==> r->Ok_0 == any_of(s), // [C08]
@@end
}
@@fn src/options.rs parse_subaccount
@ret r
@closure map_err#0
|e: AccountNameError| -> (q: BeancountOptionError) ensures q is BadValue { $bind0(e) $body }
@spec
    ensures used(subaccount_ok(colon_separated@), Subaccount(colon_separated), r), // [C08]
@@end
@@fn src/options.rs parse_account_type_name
@ret r
@closure map_err#0
|e: AccountTypeNameError| -> (q: BeancountOptionError) ensures q is BadValue { $bind0(e) $body }
@spec
    ensures used(type_name_ok(value@), AccountTypeName(value), r), // [C08]
@@end
@@fn src/options.rs parse_currency
@ret r
@closure map_err#0
|e: CurrencyError| -> (q: BeancountOptionError) ensures q is BadValue { $bind0(e) $body }
@spec
    ensures used(currency_ok(value@), Currency(value), r), // [C08]
@@end
@@fn src/options.rs parse_booking
@ret r
@closure map_err#0
|e: strum::ParseError| -> (q: BeancountOptionError) ensures q is BadValue { $bind0(e) $body }
@spec
    ensures used(booking_of(value@) is Some, booking_of(value@)->0, r), // [C08]
@@end
@@fn src/options.rs parse_plugin_processing_mode
@ret r
@closure map_err#0
|e: strum::ParseError| -> (q: BeancountOptionError) ensures q is BadValue { $bind0(e) $body }
@spec
    ensures used(mode_of(value@) is Some, mode_of(value@)->0, r), // [C08]
@@end
@@fn src/options.rs parse_bool
@ret r
@subst? .eq_ignore_ascii_case =>> .eq_ignore_ascii_case_
@spec
    ensures used(bool_of(value@) is Some, bool_of(value@)->0, r), // [C08]
@@end
@@fn src/options.rs parse_zero_or_one_as_bool
@ret r
@spec
    ensures used(bit_of(value@) is Some, bit_of(value@)->0, r), // [C08]
@@end
/// CURRENCY:TOLERANCE
spec fn tolerance_ok(s: Seq<char>) -> bool {
    let p = pieces(s);
    p.len() == 2 && (p[0] == "*"@ || currency_ok(p[0])) && decimal_of(p[1]) is Some
}
@@fn src/options.rs parse_inferred_tolerance_default
@ret r
@subst? value.split(':') =>> split_colon(value)
@subst? .map_err(Bad::Decimal) =>> .map_err(|e: rust_decimal::Error| -> (q: BadValueErrorKind) { Bad::Decimal(e) })
@subst? .map_err(Bad::wrap) =>> .map_err(|e: BadValueErrorKind| -> (q: BeancountOptionError) ensures q is BadValue { Bad::wrap(e) })
@closure map_err#0
|e: CurrencyError| -> (q: BeancountOptionError) ensures q is BadValue { $bind0(e) $body }
@closure and_then#0
|s: &'a str| -> (q: Result<Decimal, BadValueErrorKind>) ensures got(decimal_of(s@), q) { $bind0(s) $body }
@spec
    ensures
        r is Ok == tolerance_ok(value@), // [C08]
        r is Ok ==> r->Ok_0.0.content() == (if pieces(value@)[0] == "*"@ { None } else { Some(pieces(value@)[0]) }) && r->Ok_0.1 == decimal_of(pieces(value@)[1])->0, // [C08]
        r is Err ==> r->Err_0 is BadValue, // [C08]
@@end
/// C08: the setting which each name stands for, and the value it takes
spec fn recognised<'a>(name: Seq<char>, v: &'a str, path: Option<&Path>, r: Result<BeancountOptionVariant<'a>, BeancountOptionError>) -> bool {
    if name == "title"@ { r == Ok::<BeancountOptionVariant<'a>, BeancountOptionError>(BeancountOptionVariant::Title(v)) }
    else if name == "name_assets"@ { used(type_name_ok(v@), BeancountOptionVariant::AccountTypeName(AccountType::Assets, AccountTypeName(v)), r) }
    else if name == "name_liabilities"@ { used(type_name_ok(v@), BeancountOptionVariant::AccountTypeName(AccountType::Liabilities, AccountTypeName(v)), r) }
    else if name == "name_equity"@ { used(type_name_ok(v@), BeancountOptionVariant::AccountTypeName(AccountType::Equity, AccountTypeName(v)), r) }
    else if name == "name_income"@ { used(type_name_ok(v@), BeancountOptionVariant::AccountTypeName(AccountType::Income, AccountTypeName(v)), r) }
    else if name == "name_expenses"@ { used(type_name_ok(v@), BeancountOptionVariant::AccountTypeName(AccountType::Expenses, AccountTypeName(v)), r) }
    else if name == "account_previous_balances"@ { used(subaccount_ok(v@), BeancountOptionVariant::AccountPreviousBalances(Subaccount(v)), r) }
    else if name == "account_previous_earnings"@ { used(subaccount_ok(v@), BeancountOptionVariant::AccountPreviousEarnings(Subaccount(v)), r) }
    else if name == "account_previous_conversions"@ { used(subaccount_ok(v@), BeancountOptionVariant::AccountPreviousConversions(Subaccount(v)), r) }
    else if name == "account_current_earnings"@ { used(subaccount_ok(v@), BeancountOptionVariant::AccountCurrentEarnings(Subaccount(v)), r) }
    else if name == "account_current_conversions"@ { used(subaccount_ok(v@), BeancountOptionVariant::AccountCurrentConversions(Subaccount(v)), r) }
    else if name == "account_unrealized_gains"@ { used(subaccount_ok(v@), BeancountOptionVariant::AccountUnrealizedGains(Subaccount(v)), r) }
    else if name == "account_rounding"@ { used(subaccount_ok(v@), BeancountOptionVariant::AccountRounding(Subaccount(v)), r) }
    else if name == "conversion_currency"@ { used(currency_ok(v@), BeancountOptionVariant::ConversionCurrency(Currency(v)), r) }
    else if name == "inferred_tolerance_default"@ { if tolerance_ok(v@) { r is Ok && r->Ok_0 is InferredToleranceDefault && r->Ok_0->InferredToleranceDefault_0.content() == (if pieces(v@)[0] == "*"@ { None } else { Some(pieces(v@)[0]) }) && r->Ok_0->InferredToleranceDefault_1 == decimal_of(pieces(v@)[1])->0 } else { r is Err && r->Err_0 is BadValue } }
    else if name == "inferred_tolerance_multiplier"@ { used(decimal_of(v@) is Some, BeancountOptionVariant::InferredToleranceMultiplier(decimal_of(v@)->0), r) }
    else if name == "infer_tolerance_from_cost"@ { used(bool_of(v@) is Some, BeancountOptionVariant::InferToleranceFromCost(bool_of(v@)->0), r) }
    else if name == "documents"@ { r == Ok::<BeancountOptionVariant<'a>, BeancountOptionError>(BeancountOptionVariant::Documents(match path { Some(p) => match parent_of(p) { Some(d) => joined(d, v@), None => path_of(v@) }, None => path_of(v@) })) }
    else if name == "operating_currency"@ { used(currency_ok(v@), BeancountOptionVariant::OperatingCurrency(Currency(v)), r) }
    else if name == "render_commas"@ { used(bool_of(v@) is Some || bit_of(v@) is Some, BeancountOptionVariant::RenderCommas(if bool_of(v@) is Some { bool_of(v@)->0 } else { bit_of(v@)->0 }), r) }
    else if name == "long_string_maxlines"@ { used(usize_of(v@) is Some, BeancountOptionVariant::LongStringMaxlines(usize_of(v@)->0), r) }
    else if name == "booking_method"@ { used(booking_of(v@) is Some, BeancountOptionVariant::BookingMethod(booking_of(v@)->0), r) }
    else if name == "plugin_processing_mode"@ { used(mode_of(v@) is Some, BeancountOptionVariant::PluginProcessingMode(mode_of(v@)->0), r) }
    else { r is Err && r->Err_0 is UnknownOption }
}
proof fn literals()
    ensures
        "title"@.len() == 5, "title"@[4] == 'e',
        "name_assets"@.len() == 11, "name_assets"@[5] == 'a',
        "name_liabilities"@.len() == 16, "name_liabilities"@[5] == 'l',
        "name_equity"@.len() == 11, "name_equity"@[5] == 'e',
        "name_income"@.len() == 11, "name_income"@[5] == 'i',
        "name_expenses"@.len() == 13, "name_expenses"@[5] == 'e',
        "account_previous_balances"@.len() == 25, "account_previous_balances"@[5] == 'n', "account_previous_balances"@[17] == 'b',
        "account_previous_earnings"@.len() == 25, "account_previous_earnings"@[5] == 'n', "account_previous_earnings"@[17] == 'e',
        "account_previous_conversions"@.len() == 28, "account_previous_conversions"@[5] == 'n', "account_previous_conversions"@[17] == 'c',
        "account_current_earnings"@.len() == 24, "account_current_earnings"@[5] == 'n', "account_current_earnings"@[17] == 'a',
        "account_current_conversions"@.len() == 27, "account_current_conversions"@[5] == 'n', "account_current_conversions"@[17] == 'o',
        "account_unrealized_gains"@.len() == 24, "account_unrealized_gains"@[5] == 'n', "account_unrealized_gains"@[17] == 'd',
        "account_rounding"@.len() == 16, "account_rounding"@[5] == 'n',
        "conversion_currency"@.len() == 19, "conversion_currency"@[5] == 'r', "conversion_currency"@[17] == 'c',
        "inferred_tolerance_default"@.len() == 26, "inferred_tolerance_default"@[5] == 'r', "inferred_tolerance_default"@[17] == 'e',
        "inferred_tolerance_multiplier"@.len() == 29, "inferred_tolerance_multiplier"@[5] == 'r', "inferred_tolerance_multiplier"@[17] == 'e',
        "infer_tolerance_from_cost"@.len() == 25, "infer_tolerance_from_cost"@[5] == '_', "infer_tolerance_from_cost"@[17] == 'r',
        "documents"@.len() == 9, "documents"@[5] == 'e',
        "operating_currency"@.len() == 18, "operating_currency"@[5] == 't', "operating_currency"@[17] == 'y',
        "render_commas"@.len() == 13, "render_commas"@[5] == 'r',
        "long_string_maxlines"@.len() == 20, "long_string_maxlines"@[5] == 's', "long_string_maxlines"@[17] == 'n',
        "booking_method"@.len() == 14, "booking_method"@[5] == 'n',
        "plugin_processing_mode"@.len() == 22, "plugin_processing_mode"@[5] == 'n', "plugin_processing_mode"@[17] == '_',
{
    reveal_strlit("title");
    reveal_strlit("name_assets");
    reveal_strlit("name_liabilities");
    reveal_strlit("name_equity");
    reveal_strlit("name_income");
    reveal_strlit("name_expenses");
    reveal_strlit("account_previous_balances");
    reveal_strlit("account_previous_earnings");
    reveal_strlit("account_previous_conversions");
    reveal_strlit("account_current_earnings");
    reveal_strlit("account_current_conversions");
    reveal_strlit("account_unrealized_gains");
    reveal_strlit("account_rounding");
    reveal_strlit("conversion_currency");
    reveal_strlit("inferred_tolerance_default");
    reveal_strlit("inferred_tolerance_multiplier");
    reveal_strlit("infer_tolerance_from_cost");
    reveal_strlit("documents");
    reveal_strlit("operating_currency");
    reveal_strlit("render_commas");
    reveal_strlit("long_string_maxlines");
    reveal_strlit("booking_method");
    reveal_strlit("plugin_processing_mode");
}
proof fn named_texts()
    ensures
        forall|t: &str| #[trigger] t@ == "title"@ ==> t == "title",
        forall|t: &str| #[trigger] t@ == "name_assets"@ ==> t == "name_assets",
        forall|t: &str| #[trigger] t@ == "name_liabilities"@ ==> t == "name_liabilities",
        forall|t: &str| #[trigger] t@ == "name_equity"@ ==> t == "name_equity",
        forall|t: &str| #[trigger] t@ == "name_income"@ ==> t == "name_income",
        forall|t: &str| #[trigger] t@ == "name_expenses"@ ==> t == "name_expenses",
        forall|t: &str| #[trigger] t@ == "account_previous_balances"@ ==> t == "account_previous_balances",
        forall|t: &str| #[trigger] t@ == "account_previous_earnings"@ ==> t == "account_previous_earnings",
        forall|t: &str| #[trigger] t@ == "account_previous_conversions"@ ==> t == "account_previous_conversions",
        forall|t: &str| #[trigger] t@ == "account_current_earnings"@ ==> t == "account_current_earnings",
        forall|t: &str| #[trigger] t@ == "account_current_conversions"@ ==> t == "account_current_conversions",
        forall|t: &str| #[trigger] t@ == "account_unrealized_gains"@ ==> t == "account_unrealized_gains",
        forall|t: &str| #[trigger] t@ == "account_rounding"@ ==> t == "account_rounding",
        forall|t: &str| #[trigger] t@ == "conversion_currency"@ ==> t == "conversion_currency",
        forall|t: &str| #[trigger] t@ == "inferred_tolerance_default"@ ==> t == "inferred_tolerance_default",
        forall|t: &str| #[trigger] t@ == "inferred_tolerance_multiplier"@ ==> t == "inferred_tolerance_multiplier",
        forall|t: &str| #[trigger] t@ == "infer_tolerance_from_cost"@ ==> t == "infer_tolerance_from_cost",
        forall|t: &str| #[trigger] t@ == "documents"@ ==> t == "documents",
        forall|t: &str| #[trigger] t@ == "operating_currency"@ ==> t == "operating_currency",
        forall|t: &str| #[trigger] t@ == "render_commas"@ ==> t == "render_commas",
        forall|t: &str| #[trigger] t@ == "long_string_maxlines"@ ==> t == "long_string_maxlines",
        forall|t: &str| #[trigger] t@ == "booking_method"@ ==> t == "booking_method",
        forall|t: &str| #[trigger] t@ == "plugin_processing_mode"@ ==> t == "plugin_processing_mode",
{
    str_ext("title");
    str_ext("name_assets");
    str_ext("name_liabilities");
    str_ext("name_equity");
    str_ext("name_income");
    str_ext("name_expenses");
    str_ext("account_previous_balances");
    str_ext("account_previous_earnings");
    str_ext("account_previous_conversions");
    str_ext("account_current_earnings");
    str_ext("account_current_conversions");
    str_ext("account_unrealized_gains");
    str_ext("account_rounding");
    str_ext("conversion_currency");
    str_ext("inferred_tolerance_default");
    str_ext("inferred_tolerance_multiplier");
    str_ext("infer_tolerance_from_cost");
    str_ext("documents");
    str_ext("operating_currency");
    str_ext("render_commas");
    str_ext("long_string_maxlines");
    str_ext("booking_method");
    str_ext("plugin_processing_mode");
}
impl<'a> BeancountOption<'a> {
@@fn src/options.rs BeancountOption::parse
@ret r
@start
    proof { literals(); named_texts(); }
@subst? value.item.parse::<usize>() =>> parse_usize(value.item)
@subst? .map(AccountPreviousBalances) =>> .map(|v_: Subaccount<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountPreviousBalances(v_) { BeancountOptionVariant::AccountPreviousBalances(v_) })
@subst? .map(AccountPreviousEarnings) =>> .map(|v_: Subaccount<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountPreviousEarnings(v_) { BeancountOptionVariant::AccountPreviousEarnings(v_) })
@subst? .map(AccountPreviousConversions) =>> .map(|v_: Subaccount<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountPreviousConversions(v_) { BeancountOptionVariant::AccountPreviousConversions(v_) })
@subst? .map(AccountCurrentEarnings) =>> .map(|v_: Subaccount<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountCurrentEarnings(v_) { BeancountOptionVariant::AccountCurrentEarnings(v_) })
@subst? .map(AccountCurrentConversions) =>> .map(|v_: Subaccount<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountCurrentConversions(v_) { BeancountOptionVariant::AccountCurrentConversions(v_) })
@subst? .map(AccountUnrealizedGains) =>> .map(|v_: Subaccount<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountUnrealizedGains(v_) { BeancountOptionVariant::AccountUnrealizedGains(v_) })
@subst? .map(AccountRounding) =>> .map(|v_: Subaccount<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountRounding(v_) { BeancountOptionVariant::AccountRounding(v_) })
@subst? .map(ConversionCurrency) =>> .map(|v_: Currency<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::ConversionCurrency(v_) { BeancountOptionVariant::ConversionCurrency(v_) })
@subst? .map(InferredToleranceMultiplier) =>> .map(|v_: Decimal| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::InferredToleranceMultiplier(v_) { BeancountOptionVariant::InferredToleranceMultiplier(v_) })
@subst? .map(InferToleranceFromCost) =>> .map(|v_: bool| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::InferToleranceFromCost(v_) { BeancountOptionVariant::InferToleranceFromCost(v_) })
@subst? .map(OperatingCurrency) =>> .map(|v_: Currency<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::OperatingCurrency(v_) { BeancountOptionVariant::OperatingCurrency(v_) })
@subst? .map(RenderCommas) =>> .map(|v_: bool| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::RenderCommas(v_) { BeancountOptionVariant::RenderCommas(v_) })
@subst? .map(LongStringMaxlines) =>> .map(|v_: usize| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::LongStringMaxlines(v_) { BeancountOptionVariant::LongStringMaxlines(v_) })
@subst? .map(BookingMethod) =>> .map(|v_: Booking| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::BookingMethod(v_) { BeancountOptionVariant::BookingMethod(v_) })
@subst? .map(PluginProcessingMode) =>> .map(|v_: self::PluginProcessingMode| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::PluginProcessingMode(v_) { BeancountOptionVariant::PluginProcessingMode(v_) })
@spec
    ensures
        r is Ok ==> r->Ok_0.source == (Source { name: name.span, value: value.span }), // [C08]
        recognised(name.item@, value.item, source_path, match r { Ok(x) => Ok(x.variant), Err(e) => Err(e) }), // [C08]
@closure map#0
|n: self::AccountTypeName<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountTypeName(AccountType::Assets, n) { $bind0(n) $body }
@closure map#1
|n: self::AccountTypeName<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountTypeName(AccountType::Liabilities, n) { $bind0(n) $body }
@closure map#2
|n: self::AccountTypeName<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountTypeName(AccountType::Equity, n) { $bind0(n) $body }
@closure map#3
|n: self::AccountTypeName<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountTypeName(AccountType::Income, n) { $bind0(n) $body }
@closure map#4
|n: self::AccountTypeName<'a>| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::AccountTypeName(AccountType::Expenses, n) { $bind0(n) $body }
@closure map#5
|x: (CurrencyOrAny<'a>, Decimal)| -> (q: BeancountOptionVariant<'a>) ensures q == BeancountOptionVariant::InferredToleranceDefault(x.0, x.1) { $bind0(x) $body }
@closure map#6
|variant: BeancountOptionVariant<'a>| -> (q: BeancountOption<'a>) ensures q.variant == variant, q.source == (Source { name: name.span, value: value.span }) { $bind0(variant) $body }
@closure map_err#0
|e: rust_decimal::Error| -> (q: BeancountOptionError) ensures q is BadValue { $bind0(e) $body }
@closure map_err#1
|e: std_num::ParseIntError| -> (q: BeancountOptionError) ensures q is BadValue { $bind0(e) $body }
@closure and_then#0
|path: &'_ Path| -> (q: Option<&Path>) ensures q == parent_of(path) { $bind0(path) $body }
@closure map_or#0
|parent: &Path| -> (q: PathBuf) ensures q == joined(parent, value.item@) { $bind0(parent) $body }
@@end
}

impl<'a> BeancountOption<'a> {
@@fn src/options.rs BeancountOption::ignored
@ret r
@subst? Source::default() =>> no_source()
@spec
    ensures r.variant is Ignored, // [C08]
@@end
}
#[verifier::external_body] fn no_source() -> Source { unimplemented!() }
// ---------------------------------------------------------------- the option parser
// positions as chumsky has them, and what it hands to a closure
#[derive(Clone, Copy)]
struct Span_ { start: usize, end: usize, context: usize }
impl Span { fn into_(self) -> (r: Span_) ensures r == of_span(self) { Span_ { start: self.start, end: self.end, context: self.source } } }
spec fn of_span(s: Span) -> Span_ { Span_ { start: s.start, end: s.end, context: s.source } }
mod extra { pub type SimpleState<T> = T; }
struct Rich { at: Span_, message: String }
impl Rich { fn custom(at: Span_, message: String) -> (r: Rich) ensures r.at == at { Rich { at, message } } }
impl BeancountOptionError { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
impl ParserOptionsError { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
struct Emitter { all: Vec<Rich> }
impl Emitter { fn emit(&mut self, e: Rich) ensures final(self).all@ == old(self).all@.push(e) { self.all.push(e) } }
struct MapExtra<'a> { span: Span_, state: ParserState<'a> }
impl<'a> MapExtra<'a> {
    fn span(&self) -> (r: Span_) ensures r == self.span { self.span }
    fn state<'f>(&'f mut self) -> (r: &'f mut ParserState<'a>)
        ensures *r == old(self).state, *final(r) == final(self).state, final(self).span == old(self).span,
    { &mut self.state }
}
struct Warning {}
@@item src/parsers.rs ParserState;
/// C08, C09, C19: what reading a recognised option does to the options in force while reading
spec fn in_force<'a>(old: ParserOptions<'a>, new: ParserOptions<'a>, opt: BeancountOption<'a>, r: Result<BeancountOption<'a>, ParserOptionsError>) -> bool {
    match opt.variant {
        BeancountOptionVariant::AccountTypeName(t, n) => {
            &&& old.account_type_names.renamed(&new.account_type_names, t, n.0@, match r { Ok(_) => Ok(()), Err(ParserOptionsError(e)) => Err(e) })
            &&& new.long_string_maxlines == old.long_string_maxlines
            &&& r is Ok ==> r->Ok_0.variant is Assimilated
        },
        BeancountOptionVariant::LongStringMaxlines(n) => {
            &&& r is Ok && r->Ok_0.variant is Assimilated
            &&& new == (ParserOptions { long_string_maxlines: Some(given(n, opt.source)), ..old })
        },
        _ => r is Ok && r->Ok_0 == opt && new == old,
    }
}
/// C08: an unknown name is refused at the name, a bad value at the value
spec fn option_refused<'a>(name: Spanned<&'a str>, value: Spanned<&'a str>, r: BeancountOption<'a>, errs: Seq<Rich>, e: BeancountOptionError) -> bool {
    r.variant is Ignored && errs.len() == 1 && errs[0].at == of_span(if e is UnknownOption { name.span } else { value.span })
}
/// C08: what cannot be put in force is refused at the value; anything else is handed on
spec fn option_taken<'a>(value: Spanned<&'a str>, r: BeancountOption<'a>, errs: Seq<Rich>, y: Result<BeancountOption<'a>, ParserOptionsError>) -> bool {
    match y {
        Err(_) => r.variant is Ignored && errs.len() == 1 && errs[0].at == of_span(value.span),
        Ok(o) => r == o && errs.len() == 0,
    }
}
@@closure src/parsers.rs option validate#0
@sig
fn option_read<'s>(p0: (Spanned<&'s str>, Spanned<&'s str>), p1: &mut MapExtra<'s>, p2: &mut Emitter, source_path: Option<&'s Path>) -> (r: BeancountOption<'s>)
@unfold map_err#0
@unfold and_then#0
@unfold map_err#1
@unfold unwrap_or_else#0
@subst? .span.into() =>> .span.into_()
@spec
    requires old(p1).state.options.account_type_names.wf(),
    ensures
        final(p1).state.options.account_type_names.wf(), // [C09]
        final(p1).state.warnings == old(p1).state.warnings, // [C08]
        final(p2).all@.len() >= old(p2).all@.len() && final(p2).all@.take(old(p2).all@.len() as int) =~= old(p2).all@, // [C08]
        ({ // [C08]
            let errs = final(p2).all@.skip(old(p2).all@.len() as int); // [C08]
            let (old_o, new_o) = (old(p1).state.options, final(p1).state.options); // [C08]
            ||| exists|x: Result<BeancountOptionVariant<'s>, BeancountOptionError>| #[trigger] recognised(p0.0.item@, p0.1.item, source_path, x) && x is Err && new_o == old_o && option_refused(p0.0, p0.1, r, errs, x->Err_0) // [C08]
            ||| exists|x: Result<BeancountOptionVariant<'s>, BeancountOptionError>, o: BeancountOption<'s>, y: Result<BeancountOption<'s>, ParserOptionsError>| // [C08]
                #[trigger] recognised(p0.0.item@, p0.1.item, source_path, x) && x is Ok && o.source == (Source { name: p0.0.span, value: p0.1.span }) && o.variant == x->Ok_0 // [C08]
                    && #[trigger] in_force(old_o, new_o, o, y) && option_taken(p0.1, r, errs, y) // [C08]
        }), // [C08]
@@end
}
