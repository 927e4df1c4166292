//! C08: options recorded once, validated, under their own name
use crate::core::*;
use beancount_parser_lima::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

const SUBS: &[&str] = &[
    "account_previous_balances", "account_previous_earnings", "account_previous_conversions", "account_current_earnings", "account_current_conversions", "account_unrealized_gains", "account_rounding",
];
const TYPES: &[(&str, AccountType, &str)] = &[
    ("name_assets", AccountType::Assets, "Assets"), ("name_liabilities", AccountType::Liabilities, "Liabilities"), ("name_equity", AccountType::Equity, "Equity"),
    ("name_income", AccountType::Income, "Income"), ("name_expenses", AccountType::Expenses, "Expenses"),
];

/// option name, literal value, value as recorded (None: invalid), key if multi-valued
struct Opt {
    name: String,
    lit: String,
    val: Option<String>,
    key: Option<String>,
    known: bool,
    last_wins: bool,
}

fn gen(r: &mut Rng, dir: Option<&Path>, root: bool) -> Opt {
    let bad = r.p(12);
    let mut o = |name: &str, lit: &str, val: Option<String>, key: Option<String>| Opt { name: name.into(), lit: lit.into(), val, key, known: true, last_wins: false };
    match r.n(if root { 13 } else { 11 }) {
        0 => {
            let v = *r.pick(&["My Ledger", "", "Żółw #1", "a;b", "title", "true", " padded ", "\t", "two\nlines\n", "UPPER lower", " ", "a  b", "x\u{a0}", "100%", "'q'"]);
            o("title", v, Some(v.into()), None)
        }
        1 | 2 => {
            let n = *r.pick(SUBS);
            let v = if bad { *r.pick(&["lower", "", "A::B", "A B", ":A", "A:", " A", "A ", "A: B", "A\n"]) } else { *r.pick(&["Opening-Balances", "Earnings:Previous", "9", "Żółw:A1"]) };
            o(n, v, if bad { None } else { Some(v.into()) }, None)
        }
        3 => {
            let v = if bad { *r.pick(&["nzd", "", "N-", "1A", "NŻD", " NZD", "NZD ", "NZD\n", "Nzd"]) } else { *r.pick(&["NOTHING", "NZD", "A.B"]) };
            o("conversion_currency", v, if bad { None } else { Some(v.into()) }, None)
        }
        4 => {
            let (l, k, v): (&str, &str, Option<&str>) = *r.pick(&[
                ("USD:0.005", "USD", Some("0.005")), ("*:0.01", "*", Some("0.01")), ("NZD:0.5", "NZD", Some("0.5")), ("USD:0.1", "USD", Some("0.1")), ("*:1", "*", Some("1")), ("GBP:3", "GBP", Some("3")),
                ("USD:0", "USD", Some("0")), ("USD:-0.25", "USD", Some("-0.25")), ("*:-2", "*", Some("-2")), ("NZD:12345.678", "NZD", Some("12345.678")), ("NZD:0.00", "NZD", Some("0.00")), ("*:0", "*", Some("0")), ("USD", "", None), ("USD:x", "", None), ("usd:1", "", None), ("USD:1:2", "", None), (":1", "", None), ("", "", None), (" USD:1", "", None), ("USD :1", "", None), ("USD: 1", "", None), ("USD:1 ", "", None), (" *:1", "", None), ("usd:0.1", "", None), ("USD:", "", None), ("USD;1", "", None), ("USD:1,5", "", None), ("**:1", "", None),
            ]);
            o("inferred_tolerance_default", l, v.map(|x| x.to_string()), Some(k.to_string()))
        }
        5 => {
            let v = if bad { *r.pick(&["abc", "", "1.2.3", " 1", "1 ", "1,5", "1/2", "0x1"]) } else { *r.pick(&["1.1", "0.5", "2", "1.20", "-1.5", "0", "0.0", "1000000"]) };
            o("inferred_tolerance_multiplier", v, if bad { None } else { Some(v.into()) }, None)
        }
        6 => {
            let (l, v) = *r.pick(&[("TRUE", Some(true)), ("false", Some(false)), ("True", Some(true)), ("FALSE", Some(false)), ("1", None), ("yes", None), ("", None), (" TRUE", None), ("false ", None), ("T", None), ("truest", None)]);
            o("infer_tolerance_from_cost", l, v.map(|b| b.to_string()), None)
        }
        7 => {
            let v = *r.pick(&["docs", "/abs/docs", "a/b", "../up", "docs two", "é", " docs", "docs ", "DOCS", "do*cs", "~/docs"]);
            let p = match dir {
                Some(d) => d.join(v),
                None => PathBuf::from(v),
            };
            let p = p.display().to_string();
            o("documents", v, Some(p.clone()), Some(p))
        }
        8 => {
            let v = if bad { *r.pick(&["nzd", "", "US D", " USD", "USD ", "Usd"]) } else { *r.pick(&["NZD", "USD", "GBP", "X"]) };
            o("operating_currency", v, if bad { None } else { Some(v.into()) }, Some(v.into()))
        }
        9 => {
            let (l, v) = *r.pick(&[("TRUE", Some(true)), ("False", Some(false)), ("0", Some(false)), ("1", Some(true)), ("2", None), ("maybe", None), ("01", None), (" 1", None), ("1 ", None), ("", None), ("TRUE ", None)]);
            o("render_commas", l, v.map(|b| b.to_string()), None)
        }
        10 => match r.n(3) {
            0 => {
                let v = if bad { *r.pick(&["strict", "FILO", "", " STRICT", "FIFO ", "Lifo", "STRICT-WITH-SIZE"]) } else { *r.pick(&["STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO"]) };
                o("booking_method", v, if bad { None } else { Some(v.into()) }, None)
            }
            1 => {
                let v = if bad { *r.pick(&["sideways", "", " RAW", "RAW "]) } else { *r.pick(&["DEFAULT", "RAW"]) };
                o("plugin_processing_mode", v, if bad { None } else { Some(v.into()) }, None)
            }
            _ => {
                let n = *r.pick(&["titel", "", "Title", "title ", " title", "TITLE", "title\n", "render-commas", "operating_currencies", "name_asset", "insert_pythonpath"]);
                let mut x = o(n, "whatever", None, None);
                x.known = false;
                x
            }
        },
        11 => {
            let v = if bad { *r.pick(&["-1", "many", "", "1.5", " 64", "64 ", "6_4", "6,4"]) } else { *r.pick(&["64", "1", "100000", "7"]) };
            let mut x = o("long_string_maxlines", v, if bad { None } else { Some(v.into()) }, None);
            x.last_wins = true;
            x
        }
        _ => {
            let (n, _, _) = *r.pick(TYPES);
            // a name only this type ever asks for
            let v = if bad { "lower".to_string() } else { format!("{}X{}", n.to_uppercase().replace('_', "-"), r.n(3)) };
            let mut x = o(n, &v, if bad { None } else { Some(v.clone()) }, None);
            x.last_wins = true;
            x
        }
    }
}

type Sp = (usize, usize, usize);
#[derive(Default)]
struct Want {
    single: BTreeMap<String, (String, Sp, Sp)>,
    multi: BTreeMap<(String, String), (String, Sp)>,
    /// position, related position if any
    errors: Vec<(Sp, Option<Sp>)>,
}
fn record(w: &mut Want, o: &Opt, n: Sp, v: Sp) {
    if !o.known {
        w.errors.push((n, None));
    } else if let Some(val) = &o.val {
        match &o.key {
            Some(k) => {
                let key = (o.name.clone(), k.clone());
                match w.multi.get(&key) {
                    Some(first) => w.errors.push((v, Some(first.1))),
                    None => {
                        w.multi.insert(key, (val.clone(), v));
                    }
                }
            }
            None => match w.single.get(&o.name) {
                Some(first) if !o.last_wins => w.errors.push((n, Some(first.1))),
                _ => {
                    w.single.insert(o.name.clone(), (val.clone(), n, v));
                }
            },
        }
    } else {
        w.errors.push((v, None));
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "random sequences of 0-14 options, all 25 kinds, valid and invalid values, unknown names, repetitions, in inline text or in a file and one it includes from another directory; \
               expected: a record of first values with the position of the value, every other option untouched, and errors exactly at unknown names, invalid values and repetitions, the latter related to the first; \
               non-trivial: at least two options"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC08);
    let n = cx.scale(4000, 120000);
    for _ in 0..n {
        if !cx.go() {
            break;
        }
        let sc = Scratch::new();
        let mode = r.n(3);
        let mut w = Want::default();
        let mut texts = vec![];
        let mut count = 0;
        let inc_at = if mode == 2 { r.n(6) } else { usize::MAX };
        let mut root = String::new();
        let k = *r.pick(&[0usize, 1, 2, 4, 8, 14]);
        let errors_p = r.p(50);
        let dir = sc.0.clone();
        let put = |r: &mut Rng, t: &mut String, src: usize, d: Option<&Path>, w: &mut Want, is_root: bool| {
            let mut o = gen(r, d, is_root);
            if !errors_p {
                for _ in 0..20 {
                    let dup = match &o.key {
                        Some(k) => w.multi.contains_key(&(o.name.clone(), k.clone())),
                        None => !o.last_wins && w.single.contains_key(&o.name),
                    };
                    if o.val.is_some() && !dup {
                        break;
                    }
                    o = gen(r, d, is_root);
                    if o.val.is_none() {
                        continue;
                    }
                }
            }
            t.push_str("option ");
            let a = t.len();
            t.push_str(&format!("\"{}\"", o.name));
            let b = t.len();
            t.push_str(r.pick(&[" ", "  ", "\t"]));
            let c = t.len();
            t.push_str(&format!("\"{}\"", o.lit));
            let e = t.len();
            t.push_str(r.pick(&["\n", " ; note\n", "\n\n"]));
            record(w, &o, (src, a, b), (src, c, e));
        };
        for i in 0..k.max(if mode == 2 { 1 } else { 0 }) {
            if i == inc_at.min(k.saturating_sub(1)) && mode == 2 && texts.is_empty() {
                root.push_str("include \"sub/inc.b\"\n");
                let mut t = String::new();
                let d = dir.join("sub");
                for _ in 0..r.n(6) {
                    put(&mut r, &mut t, 1, Some(&d), &mut w, false);
                    count += 1;
                }
                texts.push(t);
            }
            let d = if mode == 0 { None } else { Some(dir.as_path()) };
            put(&mut r, &mut root, 0, d, &mut w, true);
            count += 1;
        }
        let desc = format!("{root}{}", texts.iter().map(|t| format!("--- sub/inc.b\n{t}")).collect::<String>());
        cx.case(&desc, count > 1, || {
            let s = if mode == 0 {
                BeancountSources::from(root.as_str())
            } else {
                std::fs::create_dir_all(sc.0.join("sub")).unwrap();
                std::fs::write(sc.0.join("main.b"), &root).unwrap();
                if let Some(t) = texts.first() {
                    std::fs::write(sc.0.join("sub/inc.b"), t).unwrap();
                }
                BeancountSources::try_from(sc.0.join("main.b")).map_err(|e| e.to_string())?
            };
            with_parse(&s, |_, r| check(r, &w))
        });
    }
}

fn spt(s: &Span) -> Sp {
    (s.source, s.start, s.end)
}

fn check(r: &Result<ParseSuccess, ParseError>, w: &Want) -> Result<(), String> {
    match r {
        Err(e) => {
            let mut got: Vec<(Sp, Option<Sp>)> = e.errors.iter().map(|x| (spt(&x.span()), x.related().next().map(|(_, s)| spt(&s)))).collect();
            let mut want = w.errors.clone();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("errors at (source, start, end), related to: {got:?}, expected {want:?}: {}", errs(e)));
            }
            Ok(())
        }
        Ok(x) => {
            if !w.errors.is_empty() {
                return Err(format!("no error at {:?}", w.errors));
            }
            let o = &x.options;
            let mut got: BTreeMap<String, (String, Sp)> = BTreeMap::new();
            fn add<T>(g: &mut BTreeMap<String, (String, Sp)>, n: &str, v: Option<&Spanned<T>>, f: impl Fn(&T) -> String) {
                if let Some(v) = v {
                    g.insert(n.into(), (f(v.item()), spt(v.span())));
                }
            }
            add(&mut got, "title", o.title(), |x| x.to_string());
            let subs = [
                o.account_previous_balances(), o.account_previous_earnings(), o.account_previous_conversions(), o.account_current_earnings(), o.account_current_conversions(), o.account_unrealized_gains(), o.account_rounding(),
            ];
            for (n, v) in SUBS.iter().zip(subs) {
                add(&mut got, n, v, |x| x.as_ref().to_string());
            }
            add(&mut got, "conversion_currency", o.conversion_currency(), |x| x.as_ref().to_string());
            add(&mut got, "inferred_tolerance_multiplier", o.inferred_tolerance_multiplier(), |x| x.to_string());
            add(&mut got, "infer_tolerance_from_cost", o.infer_tolerance_from_cost(), |x| x.to_string());
            add(&mut got, "render_commas", o.render_commas(), |x| x.to_string());
            add(&mut got, "booking_method", o.booking_method(), |x| x.as_ref().to_string());
            add(&mut got, "plugin_processing_mode", o.plugin_processing_mode(), |x| x.to_string());
            add(&mut got, "long_string_maxlines", o.long_string_maxlines(), |x| x.to_string());
            let want: BTreeMap<String, (String, Sp)> = w.single.iter().filter(|(k, _)| !k.starts_with("name_")).map(|(k, v)| (k.clone(), (v.0.clone(), v.2))).collect();
            if got != want {
                return Err(format!("options {got:?}, expected {want:?}"));
            }
            for (n, t, d) in TYPES {
                let want = w.single.get(*n).map(|x| x.0.as_str()).unwrap_or(d);
                if o.account_type_name(*t).as_ref() != want {
                    return Err(format!("{n} is {}, expected {want}", o.account_type_name(*t)));
                }
            }
            let multi = |n: &str| -> Vec<(String, String)> { w.multi.iter().filter(|(k, _)| k.0 == n).map(|(k, v)| (k.1.clone(), v.0.clone())).collect() };
            let mut d: Vec<(String, String)> = o.documents().map(|p| (p.display().to_string(), p.display().to_string())).collect();
            d.sort();
            if d != multi("documents") {
                return Err(format!("documents {d:?}, expected {:?}", multi("documents")));
            }
            let mut d: Vec<(String, String)> = o.operating_currency().map(|p| (p.as_ref().to_string(), p.as_ref().to_string())).collect();
            d.sort();
            if d != multi("operating_currency") {
                return Err(format!("operating currencies {d:?}, expected {:?}", multi("operating_currency")));
            }
            let mut d: Vec<(String, String)> = o.inferred_tolerance_defaults().map(|(c, v)| (c.map(|c| c.as_ref().to_string()).unwrap_or("*".into()), v.to_string())).collect();
            d.sort();
            let t = multi("inferred_tolerance_default");
            if d != t {
                return Err(format!("tolerances {d:?}, expected {t:?}"));
            }
            let any = t.iter().find(|x| x.0 == "*").map(|x| x.1.clone());
            if o.inferred_tolerance_default_fallback().map(|x| x.to_string()) != any {
                return Err("fallback tolerance".into());
            }
            for c in ["USD", "NZD", "GBP", "CHF"] {
                let want = t.iter().find(|x| x.0 == c).map(|x| x.1.clone()).or(any.clone());
                let got = o.inferred_tolerance_default(&Currency::try_from(c).unwrap()).map(|x| x.to_string());
                if got != want {
                    return Err(format!("tolerance of {c} {got:?}, expected {want:?}"));
                }
            }
            Ok(())
        }
    }
}
