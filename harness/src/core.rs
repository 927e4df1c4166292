//! shared toolkit: random numbers, reporting, parsing helpers, facts about directives
use beancount_parser_lima::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.n(b - a + 1)
    }
    pub fn p(&mut self, percent: usize) -> bool {
        self.n(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub case_file: String,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violation: Option<(String, String)>,
    pub rule: String,
    pub deadline: std::time::Instant,
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    /// run one case: `input` describes it (and is what a replay shows); the check returns Err(what is wrong)
    pub fn case(&mut self, input: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) -> bool {
        if self.violation.is_some() {
            return false;
        }
        let _ = std::fs::write(&self.case_file, input);
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(hash(input));
        }
        if self.samples.len() < 3 && nontrivial && self.evaluations % 7 == 1 {
            self.samples.push(input.chars().take(600).collect());
        }
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                self.violation = Some((e, input.to_string()));
                false
            }
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.violation = Some((format!("panicked: {}", m.chars().take(500).collect::<String>()), input.to_string()));
                false
            }
        }
    }
    pub fn go(&self) -> bool {
        self.violation.is_none() && std::time::Instant::now() < self.deadline
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// a fact about a parsed thing: where, what, and the bytes it was written at
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Fact {
    pub path: String,
    pub val: String,
    pub span: Option<(usize, usize)>,
}

pub fn fact(path: impl Into<String>, val: impl Into<String>, span: Option<(usize, usize)>) -> Fact {
    Fact {
        path: path.into(),
        val: val.into(),
        span,
    }
}

pub fn sp(s: &Span) -> Option<(usize, usize)> {
    Some((s.start, s.end))
}

pub fn simple(v: &SimpleValue) -> String {
    match v {
        SimpleValue::String(s) => format!("string {s:?}"),
        SimpleValue::Currency(c) => format!("currency {}", c.as_ref()),
        SimpleValue::Account(a) => format!("account {}", a.as_ref()),
        SimpleValue::Tag(t) => format!("tag {}", t.as_ref()),
        SimpleValue::Link(t) => format!("link {}", t.as_ref()),
        SimpleValue::Date(d) => format!("date {}", date_str(d)),
        SimpleValue::Bool(b) => format!("bool {b}"),
        SimpleValue::Null => "null".into(),
        SimpleValue::Expr(e) => format!("expr {}", dec(e.value())),
    }
}
pub fn metaval(v: &MetaValue) -> String {
    match v {
        MetaValue::Simple(s) => simple(s),
        MetaValue::Amount(a) => format!("amount {} {}", dec(a.number().value()), a.currency().as_ref()),
    }
}
pub fn dec(d: rust_decimal::Decimal) -> String {
    // value and scale
    format!("{}", d)
}
pub fn date_str(d: &time::Date) -> String {
    format!("{:04}-{:02}-{:02}", d.year(), d.month() as u8, d.day())
}

pub fn meta_facts(pre: &str, m: &Metadata, out: &mut Vec<Fact>) {
    for t in m.tags() {
        out.push(fact(format!("{pre}tag"), t.item().as_ref(), sp(t.span())));
    }
    for t in m.links() {
        out.push(fact(format!("{pre}link"), t.item().as_ref(), sp(t.span())));
    }
    for (k, v) in m.key_values() {
        out.push(fact(format!("{pre}key.{}", k.item().as_ref()), metaval(v.item()), sp(v.span())));
        out.push(fact(format!("{pre}keyat"), k.item().as_ref(), sp(k.span())));
    }
}

/// everything public about a directive
pub fn facts(d: &Spanned<Directive>) -> Vec<Fact> {
    let mut o = vec![];
    let dd = d.item();
    o.push(fact("date", date_str(dd.date().item()), sp(dd.date().span())));
    meta_facts("", dd.metadata(), &mut o);
    use DirectiveVariant::*;
    let kind = match dd.variant() {
        Transaction(x) => {
            o.push(fact("flag", format!("{}", x.flag().item()), sp(x.flag().span())));
            if let Some(p) = x.payee() {
                o.push(fact("payee", *p.item(), sp(p.span())));
            }
            if let Some(p) = x.narration() {
                o.push(fact("narration", *p.item(), sp(p.span())));
            }
            let n = x.postings().len();
            o.push(fact("postings", format!("{n}"), None));
            for (i, p) in x.postings().enumerate() {
                let q = p.item();
                let pre = format!("p{i}.");
                o.push(fact(format!("{pre}posting"), "", sp(p.span())));
                if let Some(f) = q.flag() {
                    o.push(fact(format!("{pre}flag"), format!("{}", f.item()), sp(f.span())));
                }
                o.push(fact(format!("{pre}account"), q.account().item().as_ref(), sp(q.account().span())));
                o.push(fact(format!("{pre}account_type"), format!("{:?}", q.account().item().account_type()), None));
                if let Some(a) = q.amount() {
                    o.push(fact(format!("{pre}amount"), dec(a.item().value()), sp(a.span())));
                }
                if let Some(a) = q.currency() {
                    o.push(fact(format!("{pre}currency"), a.item().as_ref(), sp(a.span())));
                }
                if let Some(c) = q.cost_spec() {
                    o.push(fact(format!("{pre}cost"), "", sp(c.span())));
                    let c = c.item();
                    if let Some(x) = c.per_unit() {
                        o.push(fact(format!("{pre}cost.per_unit"), dec(x.item().value()), sp(x.span())));
                    }
                    if let Some(x) = c.total() {
                        o.push(fact(format!("{pre}cost.total"), dec(x.item().value()), sp(x.span())));
                    }
                    if let Some(x) = c.currency() {
                        o.push(fact(format!("{pre}cost.currency"), x.item().as_ref(), sp(x.span())));
                    }
                    if let Some(x) = c.date() {
                        o.push(fact(format!("{pre}cost.date"), date_str(x.item()), sp(x.span())));
                    }
                    if let Some(x) = c.label() {
                        o.push(fact(format!("{pre}cost.label"), *x.item(), sp(x.span())));
                    }
                    if c.merge() {
                        o.push(fact(format!("{pre}cost.merge"), "", None));
                    }
                }
                if let Some(a) = q.price_annotation() {
                    let v = match a.item() {
                        PriceSpec::Unspecified => "unspecified".to_string(),
                        PriceSpec::BareCurrency(c) => format!("currency {}", c.as_ref()),
                        PriceSpec::BareAmount(x) => scoped(x),
                        PriceSpec::CurrencyAmount(x, c) => format!("{} {}", scoped(x), c.as_ref()),
                    };
                    o.push(fact(format!("{pre}price"), v, sp(a.span())));
                }
                meta_facts(&pre, q.metadata(), &mut o);
            }
            "transaction"
        }
        Price(x) => {
            o.push(fact("currency", x.currency().item().as_ref(), sp(x.currency().span())));
            amount_facts("amount", x.amount(), &mut o);
            "price"
        }
        Balance(x) => {
            acct("account", x.account(), &mut o);
            let a = x.atol();
            o.push(fact("atol", "", sp(a.span())));
            amount_facts("amount", a.item().amount(), &mut o);
            if let Some(t) = a.item().tolerance() {
                o.push(fact("tolerance", dec(*t.item()), sp(t.span())));
            }
            "balance"
        }
        Open(x) => {
            acct("account", x.account(), &mut o);
            for c in x.currencies() {
                o.push(fact("currency", c.item().as_ref(), sp(c.span())));
            }
            if let Some(b) = x.booking() {
                o.push(fact("booking", b.item().as_ref(), sp(b.span())));
            }
            "open"
        }
        Close(x) => {
            acct("account", x.account(), &mut o);
            "close"
        }
        Commodity(x) => {
            o.push(fact("currency", x.currency().item().as_ref(), sp(x.currency().span())));
            "commodity"
        }
        Pad(x) => {
            acct("account", x.account(), &mut o);
            acct("source", x.source(), &mut o);
            "pad"
        }
        Document(x) => {
            acct("account", x.account(), &mut o);
            o.push(fact("path", *x.path().item(), sp(x.path().span())));
            "document"
        }
        Note(x) => {
            acct("account", x.account(), &mut o);
            o.push(fact("comment", *x.comment().item(), sp(x.comment().span())));
            "note"
        }
        Event(x) => {
            o.push(fact("event_type", *x.event_type().item(), sp(x.event_type().span())));
            o.push(fact("description", *x.description().item(), sp(x.description().span())));
            "event"
        }
        Query(x) => {
            o.push(fact("name", *x.name().item(), sp(x.name().span())));
            o.push(fact("content", *x.content().item(), sp(x.content().span())));
            "query"
        }
        Custom(x) => {
            o.push(fact("type", *x.type_().item(), sp(x.type_().span())));
            o.push(fact("values", format!("{}", x.values().len()), None));
            for (i, v) in x.values().enumerate() {
                o.push(fact(format!("value{i}"), metaval(v.item()), sp(v.span())));
            }
            "custom"
        }
    };
    o.push(fact("kind", kind, None));
    o.sort();
    o
}
fn scoped(x: &ScopedExprValue) -> String {
    match x {
        ScopedExprValue::PerUnit(v) => format!("perunit {}", dec(v.value())),
        ScopedExprValue::Total(v) => format!("total {}", dec(v.value())),
    }
}
fn acct(p: &str, a: &Spanned<Account>, o: &mut Vec<Fact>) {
    o.push(fact(p, a.item().as_ref(), sp(a.span())));
    o.push(fact(format!("{p}_type"), format!("{:?}", a.item().account_type()), None));
}
fn amount_facts(p: &str, a: &Spanned<Amount>, o: &mut Vec<Fact>) {
    o.push(fact(p, "", sp(a.span())));
    o.push(fact(format!("{p}.number"), dec(a.item().number().item().value()), sp(a.item().number().span())));
    o.push(fact(format!("{p}.currency"), a.item().currency().item().as_ref(), sp(a.item().currency().span())));
}

/// compare; an expected fact without span matches any span
pub fn diff(expected: &[Fact], actual: &[Fact]) -> Option<String> {
    let mut e = expected.to_vec();
    let mut a = actual.to_vec();
    e.sort();
    a.sort();
    let mut miss = vec![];
    for x in &e {
        if let Some(i) = a
            .iter()
            .position(|y| x.path == y.path && x.val == y.val && (x.span.is_none() || x.span == y.span))
        {
            a.remove(i);
        } else {
            miss.push(x);
        }
    }
    if miss.is_empty() && a.is_empty() {
        None
    } else {
        Some(format!("missing {miss:?}, unexpected {a:?}"))
    }
}

/// a scratch directory, removed on drop
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let base = std::env::temp_dir();
        let p = base.join(format!("vharness-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p.canonicalize().unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub type Outcome<'a> = Result<&'a ParseSuccess<'a>, &'a ParseError>;

/// parse inline text and hand over the outcome
pub fn with_parse<T>(sources: &BeancountSources, f: impl FnOnce(&BeancountSources, &Result<ParseSuccess<'_>, ParseError>) -> T) -> T {
    let parser = BeancountParser::new(sources);
    let r = parser.parse();
    f(sources, &r)
}
pub fn errs(e: &ParseError) -> String {
    e.errors
        .iter()
        .map(|x| format!("{} ({}) at {}..{}", x.message(), x.reason(), x.span().start, x.span().end))
        .collect::<Vec<_>>()
        .join("; ")
        .chars()
        .take(1200)
        .collect()
}
