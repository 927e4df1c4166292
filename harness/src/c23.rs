//! C23: what printing shows
use crate::core::*;
use crate::gen::*;
use beancount_parser_lima::*;

fn quoted(s: &str) -> String {
    format!("\"{s}\"")
}
fn flag(f: &Flag) -> String {
    match f {
        Flag::Asterisk => "*".into(),
        Flag::Exclamation => "!".into(),
        Flag::Ampersand => "&".into(),
        Flag::Hash => "#".into(),
        Flag::Question => "?".into(),
        Flag::Percent => "%".into(),
        Flag::Letter(l) => format!("'{}", l.char()),
    }
}
fn expr(e: &Expr) -> String {
    match e {
        Expr::Value(v) => v.to_string(),
        Expr::Add(a, b) => expr(a) + " + " + &expr(b),
        Expr::Sub(a, b) => expr(a) + " - " + &expr(b),
        Expr::Mul(a, b) => expr(a) + " * " + &expr(b),
        Expr::Div(a, b) => expr(a) + " / " + &expr(b),
        Expr::Neg(a) => "-".to_string() + &expr(a),
        Expr::Paren(a) => "(".to_string() + &expr(a) + ")",
    }
}
fn amount(a: &Amount) -> String {
    expr(a.number().item().expr()) + " " + a.currency().item().as_ref()
}
fn value(v: &MetaValue) -> String {
    match v {
        MetaValue::Amount(a) => amount(a),
        MetaValue::Simple(s) => match s {
            SimpleValue::String(x) => quoted(x),
            SimpleValue::Currency(x) => x.as_ref().to_string(),
            SimpleValue::Account(x) => x.as_ref().to_string(),
            SimpleValue::Tag(x) => format!("#{}", x.as_ref()),
            SimpleValue::Link(x) => format!("^{}", x.as_ref()),
            SimpleValue::Date(x) => x.to_string(),
            SimpleValue::Bool(true) => "TRUE".into(),
            SimpleValue::Bool(false) => "FALSE".into(),
            SimpleValue::Null => "NULL".into(),
            SimpleValue::Expr(x) => expr(x.expr()),
        },
    }
}
fn meta(m: &Metadata, sep: &str) -> String {
    let mut o = String::new();
    for t in m.tags() {
        o += &format!("{sep}#{}", t.item().as_ref());
    }
    for t in m.links() {
        o += &format!("{sep}^{}", t.item().as_ref());
    }
    for (k, v) in m.key_values() {
        o += &format!("\n  {}: {}", k.item().as_ref(), value(v.item()));
    }
    o
}
fn scoped(x: &ScopedExprValue) -> String {
    match x {
        ScopedExprValue::PerUnit(v) => expr(v.expr()),
        ScopedExprValue::Total(v) => "# ".to_string() + &expr(v.expr()),
    }
}
fn cost(c: &CostSpec) -> String {
    let mut first = vec![];
    if let Some(x) = c.per_unit() {
        first.push(expr(x.item().expr()));
    }
    if let Some(x) = c.total() {
        first.push("# ".to_string() + &expr(x.item().expr()));
    }
    if let Some(x) = c.currency() {
        first.push(x.item().as_ref().to_string());
    }
    let mut all = vec![];
    if !first.is_empty() {
        all.push(first.join(" "));
    }
    if let Some(x) = c.date() {
        all.push(x.item().to_string());
    }
    if let Some(x) = c.label() {
        all.push(quoted(x.item()));
    }
    if c.merge() {
        all.push("*".into());
    }
    format!("{{{}}}", all.join(", "))
}
fn posting(p: &Posting) -> String {
    let mut o = String::new();
    if let Some(f) = p.flag() {
        o += &(flag(f.item()) + " ");
    }
    o += p.account().item().as_ref();
    if let Some(x) = p.amount() {
        o += &(" ".to_string() + &expr(x.item().expr()));
    }
    if let Some(x) = p.currency() {
        o += &(" ".to_string() + x.item().as_ref());
    }
    if let Some(x) = p.cost_spec() {
        o += &(" ".to_string() + &cost(x.item()));
    }
    if let Some(x) = p.price_annotation() {
        o += " @ ";
        o += &match x.item() {
            PriceSpec::Unspecified => String::new(),
            PriceSpec::BareCurrency(c) => c.as_ref().to_string(),
            PriceSpec::BareAmount(x) => scoped(x),
            PriceSpec::CurrencyAmount(x, c) => scoped(x) + " " + c.as_ref(),
        };
    }
    o + &meta(p.metadata(), "\n  ")
}
fn shown(d: &Directive) -> String {
    use DirectiveVariant::*;
    let m = meta(d.metadata(), " ");
    let rest = match d.variant() {
        Transaction(x) => {
            let mut o = flag(x.flag().item());
            if let Some(p) = x.payee() {
                o += &format!(" {}", quoted(p.item()));
            }
            match x.narration() {
                Some(p) => o += &format!(" {}", quoted(p.item())),
                None if x.payee().is_some() => o += " \"\"",
                None => {}
            }
            o += &m;
            for p in x.postings() {
                o += &format!("\n  {}", posting(p.item()));
            }
            o
        }
        Price(x) => format!("price {} {}{m}", x.currency().item().as_ref(), amount(x.amount().item())),
        Balance(x) => {
            let a = x.atol().item();
            let t = a.tolerance().map(|t| format!(" ~ {}", t.item())).unwrap_or_default();
            format!("balance {} {}{t}{m}", x.account().item().as_ref(), amount(a.amount().item()))
        }
        Open(x) => {
            let mut o = format!("open {}", x.account().item().as_ref());
            let c: Vec<&str> = x.currencies().map(|c| c.item().as_ref()).collect();
            if !c.is_empty() {
                o += &format!(" {}", c.join(","));
            }
            if let Some(b) = x.booking() {
                o += &format!(" {}", quoted(b.item().as_ref()));
            }
            o + &m
        }
        Close(x) => format!("close {}{m}", x.account().item().as_ref()),
        Commodity(x) => format!("commodity {}{m}", x.currency().item().as_ref()),
        Pad(x) => format!("pad {} {}{m}", x.account().item().as_ref(), x.source().item().as_ref()),
        Document(x) => format!("document {} {}{m}", x.account().item().as_ref(), quoted(x.path().item())),
        Note(x) => format!("note {} {}{m}", x.account().item().as_ref(), quoted(x.comment().item())),
        Event(x) => format!("event {} {}{m}", quoted(x.event_type().item()), quoted(x.description().item())),
        Query(x) => format!("query {} {}{m}", quoted(x.name().item()), quoted(x.content().item())),
        Custom(x) => {
            let mut o = format!("custom {}", quoted(x.type_().item()));
            for v in x.values() {
                o += &format!(" {}", value(v.item()));
            }
            o + &meta(d.metadata(), "\n  ")
        }
    };
    format!("{} {rest}", d.date().item())
}
fn same(what: &str, got: String, want: String) -> Result<(), String> {
    if got != want {
        return Err(format!("{what} is printed as {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "generated ledgers of 1-6 directives of every kind with all optional parts, and plugins; expected: the text put together from what the accessors of each directive, posting, amount and plugin give; \
               non-trivial: a directive with metadata, or a posting"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC23);
    for _ in 0..cx.scale(6000, 200000) {
        if !cx.go() {
            break;
        }
        let c = Cfg::new();
        let mut w = W::default();
        let mut facts = 0;
        for _ in 0..r.range(1, 6) {
            if r.p(15) {
                let m = *r.pick(&["a.b", "", "x y", "é"]);
                let conf = *r.pick(&["", " \"\"", " \"conf\"", " \"a, b\""]);
                w.tok(&format!("plugin \"{m}\"{conf}\n"));
            } else {
                w.directive(&mut r, &c);
                facts += w.facts.len();
            }
        }
        let text = w.out;
        cx.case(&text, facts > 4, || {
            let s = BeancountSources::from(text.as_str());
            with_parse(&s, |_, x| {
                let Ok(x) = x else { return Ok(()) };
                for d in &x.directives {
                    same("a directive", format!("{}", d.item()), shown(d.item()))?;
                    same("a spanned directive", format!("{d}"), shown(d.item()))?;
                    if let DirectiveVariant::Transaction(t) = d.item().variant() {
                        for p in t.postings() {
                            same("a posting", format!("{p}"), posting(p.item()))?;
                        }
                    }
                    for (_, v) in d.item().metadata().key_values() {
                        same("a value", format!("{v}"), value(v.item()))?;
                    }
                    same("metadata", format!("{}", d.item().metadata()), meta(d.item().metadata(), "\n  "))?;
                }
                for p in &x.plugins {
                    let c = p.config().map(|c| format!(" {}", quoted(c.item()))).unwrap_or_default();
                    same("a plugin", format!("{p}"), format!("plugin {}{c}\n", quoted(p.module_name().item())))?;
                }
                Ok(())
            })
        });
    }
}
