//! C14: literals denote the value they spell
use crate::core::*;
use crate::lexgen::lex;
use beancount_parser_lima::*;
use rust_decimal::Decimal;

fn days(y: usize, m: usize) -> usize {
    match m {
        2 => 28 + (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) as usize,
        4 | 6 | 9 | 11 => 30,
        1..=12 => 31,
        _ => 0,
    }
}

fn date(y: usize, m: usize, d: usize, s: (char, char)) -> Result<(), String> {
    let lit = format!("{y:04}{}{m:02}{}{d:02}", s.0, s.1);
    let good = d >= 1 && d <= days(y, m);
    // as a directive's date, as a metadata value, as a cost date
    let text = format!("{lit} open Assets:A\n  foo: {lit}\n");
    let src = BeancountSources::from(text.as_str());
    with_parse(&src, |_, res| match res {
        Ok(p) if good => {
            let x = &p.directives[0];
            let v = x.metadata().key_values().next().map(|(_, v)| metaval(v.item())).unwrap_or_default();
            let want = format!("{y:04}-{m:02}-{d:02}");
            if date_str(x.date().item()) != want || v != format!("date {want}") {
                return Err(format!("{lit} denotes {} and {v}, expected {want}", date_str(x.date().item())));
            }
            Ok(())
        }
        Err(_) if !good => Ok(()),
        Ok(_) => Err(format!("{lit} is no date but accepted")),
        Err(e) => Err(format!("{lit} is refused: {}", errs(e))),
    })?;
    if !good {
        let text = format!("2020-01-01 open Assets:A\n  foo: {lit}\n");
        let src = BeancountSources::from(text.as_str());
        with_parse(&src, |_, res| if res.is_ok() { Err(format!("{lit} is no date but accepted as a value")) } else { Ok(()) })?;
    }
    Ok(())
}

fn time(h: usize, m: usize, s: Option<usize>, pad: bool) -> Result<(), String> {
    let mut lit = if pad { format!("{h:02}:{m:02}") } else { format!("{h}:{m:02}") };
    if let Some(s) = s {
        lit.push_str(&format!(":{s:02}"));
    }
    let got = lex(&lit);
    let good = h < 24 && m < 60 && s.unwrap_or(0) < 60;
    let time: Vec<&(String, usize, usize)> = got.iter().filter(|t| t.0.starts_with("Time")).collect();
    if !good {
        return if time.is_empty() { Ok(()) } else { Err(format!("{lit} is no time but accepted: {got:?}")) };
    }
    let want = format!("Time({h}:{m:02}:{:02}.0)", s.unwrap_or(0));
    if time.len() == 1 && time[0].0 == want && time[0].1 == 0 && time[0].2 == lit.len() {
        Ok(())
    } else {
        Err(format!("{lit} denotes {got:?}, expected {want}"))
    }
}

fn number(lit: &str) -> Result<(), String> {
    let plain: String = lit.chars().filter(|c| *c != ',').collect();
    let (i, f) = plain.split_once('.').unwrap_or((&plain, ""));
    let digits: String = format!("{i}{f}").trim_start_matches('0').to_string();
    let max = "79228162514264337593543950335";
    let fits = |s: &str| s.len() < max.len() || (s.len() == max.len() && s <= max);
    let it = i.trim_start_matches('0');
    let text = format!("2020-01-01 price USD {lit} NZD\n2020-01-01 balance Assets:A 1 ~ {lit} NZD\n");
    let src = BeancountSources::from(text.as_str());
    with_parse(&src, |_, res| {
        let got: Option<(Decimal, Decimal)> = match res {
            Ok(p) => {
                let (mut a, mut b) = (None, None);
                for d in &p.directives {
                    match d.variant() {
                        DirectiveVariant::Price(x) => a = Some(x.amount().number().value()),
                        DirectiveVariant::Balance(x) => b = x.atol().tolerance().map(|t| *t.item()),
                        _ => {}
                    }
                }
                Some((a.ok_or("no amount")?, b.ok_or("no tolerance")?))
            }
            Err(_) => None,
        };
        if !fits(it) {
            return match got {
                None => Ok(()),
                Some(v) => Err(format!("{lit} is out of range but accepted as {}", v.0)),
            };
        }
        if f.len() > 28 || !fits(&digits) {
            // more digits than a decimal holds: the nearest with fewer places
            let Some((a, b)) = got else {
                // rounding up the largest one leaves the range
                return if it == max { Ok(()) } else { Err(format!("{lit} is refused")) };
            };
            let want: f64 = plain.parse().unwrap();
            let near: f64 = a.to_string().parse().unwrap();
            let nearest: Decimal = plain.parse().map_err(|e| format!("{e}"))?;
            return if a == b && a == nearest && (near - want).abs() <= want.abs() * 1e-12 + 1e-27 { Ok(()) } else { Err(format!("{lit} denotes {a} and {b}")) };
        }
        let m: i128 = if digits.is_empty() { 0 } else { digits.parse().unwrap() };
        match got {
            None => Err(format!("{lit} is refused: {}", res.as_ref().err().map(errs).unwrap_or_default())),
            Some((a, b)) => {
                for v in [a, b] {
                    if v.mantissa() != m || v.scale() as usize != f.len() {
                        return Err(format!("{lit} denotes {v}, expected {m} with {} places", f.len()));
                    }
                }
                Ok(())
            }
        }
    })
}

/// separators change nothing: not the value, and not whether there is one
fn separators(lit: &str) -> Result<(), String> {
    let plain: String = lit.chars().filter(|c| *c != ',').collect();
    let value = |lit: &str| -> Result<Option<String>, String> {
        let text = format!("2020-01-01 price USD {lit} NZD\n");
        let src = BeancountSources::from(text.as_str());
        with_parse(&src, |_, res| match res {
            Ok(p) => Ok(match p.directives[0].variant() {
                DirectiveVariant::Price(x) => Some(x.amount().number().value().to_string()),
                _ => None,
            }),
            Err(_) => Ok(None),
        })
    };
    let (a, b) = (value(lit)?, value(&plain)?);
    if a == b { Ok(()) } else { Err(format!("{lit} denotes {a:?}, but {plain} denotes {b:?}")) }
}

fn string(lit: &str, want: Option<&str>) -> Result<(), String> {
    let text = format!("2020-01-01 note Assets:A {lit}\n  foo: {lit}\n2020-01-02 event \"a\" {lit}\n");
    let src = BeancountSources::from(text.as_str());
    with_parse(&src, |_, res| match (res, want) {
        (Err(_), None) => Ok(()),
        (Ok(_), None) => Err(format!("{lit:?} has a bad escape but is accepted")),
        (Err(e), Some(_)) => Err(format!("{lit:?} is refused: {}", errs(e))),
        (Ok(p), Some(w)) => {
            let mut got = vec![];
            for d in &p.directives {
                match d.variant() {
                    DirectiveVariant::Note(n) => got.push(n.comment().item().to_string()),
                    DirectiveVariant::Event(n) => got.push(n.description().item().to_string()),
                    _ => {}
                }
                for (_, v) in d.metadata().key_values() {
                    match v.item() {
                        MetaValue::Simple(SimpleValue::String(s)) => got.push(s.to_string()),
                        x => return Err(format!("not a string: {}", metaval(x))),
                    }
                }
            }
            if got.len() == 3 && got.iter().all(|g| g == w) {
                Ok(())
            } else {
                Err(format!("{lit:?} denotes {got:?}, expected {w:?}"))
            }
        }
    })
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "dates: every day and non-day (month 0 to 13, day 0 to 32) of leap, common, century and extreme years with either separator, and random ones; times: every hour and minute up to 99, seconds; \
               numbers up to 60 digits, commas, any scale, around the largest decimal; strings of every escape form, raw text, bad escapes; Unicode digits; \
               expected: calendar arithmetic, mantissa and scale from the digits, and the text the string was made from; non-trivial: every literal"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC14);
    for y in [0, 1, 4, 100, 400, 999, 1000, 1582, 1600, 1900, 1999, 2000, 2019, 2020, 2023, 2024, 2100, 9996, 9999] {
        if !cx.go() {
            return;
        }
        cx.evaluations += 14 * 33 - 1;
        cx.case(&format!("every date of year {y}"), true, || {
            for m in 0..14 {
                for d in 0..33 {
                    // year 0 exists in the proleptic calendar
                    date(y, m, d, [('-', '-'), ('/', '/'), ('-', '/')][(y + m + d) % 3])?;
                }
            }
            Ok(())
        });
    }
    for _ in 0..cx.scale(3000, 100000) {
        if !cx.go() {
            return;
        }
        let (y, m, d) = (r.n(10000), if r.p(90) { r.range(1, 12) } else { r.n(100) }, if r.p(80) { r.range(1, 31) } else { r.n(100) });
        let s = *r.pick(&[('-', '-'), ('/', '/'), ('-', '/'), ('/', '-')]);
        cx.case(&format!("date {y:04}{}{m:02}{}{d:02}", s.0, s.1), true, || date(y, m, d, s));
    }
    for h in 0..100 {
        cx.evaluations += 200;
        cx.case(&format!("times of hour {h}"), true, || {
            for m in 0..100 {
                time(h, m, None, true)?;
                time(h, m, Some((h * 7 + m * 13) % 100), m % 2 == 0)?;
            }
            for s in 0..100 {
                time(h, 59, Some(s), true)?;
            }
            Ok(())
        });
    }
    for s in ["0", "00", "000.000", "79228162514264337593543950335", "79228162514264337593543950336", "79228162514264337593543950335.5", "7922816251426433759354395033.5", "7922816251426433759354395033.6",
        "0.0000000000000000000000000001", "0.00000000000000000000000000001", "0.00000000000000000000000000000", "1,000", "1,234,567.891", "1,234.00000000000000000000000000001", "1,000.123456789012345678901234567890", "001,000.10", "18446744073709551616", "18446744073709551615.99",
        "99999999999999999999999999999", "100000000000000000000000000000000000000000000", "1.10", "1.1"]
    {
        cx.case(&format!("number {s}"), true, || number(s).and_then(|_| separators(s)));
    }
    for _ in 0..cx.scale(5000, 200000) {
        if !cx.go() {
            return;
        }
        let n = *r.pick(&[1usize, 2, 3, 5, 9, 15, 19, 20, 27, 28, 29, 30, 40]);
        let mut s: String = (0..n).map(|_| (b'0' + r.n(10) as u8) as char).collect();
        if r.p(40) {
            // groups of three
            let top = if r.p(25) { 7 } else { 3 };
            let lead = r.range(1, top);
            s = (0..lead).map(|_| (b'0' + r.n(10) as u8) as char).collect();
            for _ in 0..r.n(9) {
                s.push_str(&format!(",{:03}", r.n(1000)));
            }
        }
        if r.p(60) {
            let n = *r.pick(&[1usize, 2, 2, 3, 5, 8, 20, 27, 28, 29, 35]);
            s.push('.');
            s.extend((0..n).map(|_| (b'0' + r.n(10) as u8) as char));
        }
        cx.case(&format!("number {s}"), true, || number(&s).and_then(|_| separators(&s)));
    }
    // digits which are not ASCII
    for s in ["٣", "1٣", "٢٠٢٠-٠١-٠١", "2020-0١-01", "1.٣", "１２", "２０２０-01-01", "1,٣٣٣"] {
        cx.case(&format!("non-ASCII digits {s}"), true, || {
            let text = format!("2020-01-01 custom \"x\" {s}\n");
            let src = BeancountSources::from(text.as_str());
            with_parse(&src, |_, res| if res.is_ok() { Err(format!("{s} accepted")) } else { Ok(()) })?;
            let text = format!("{s} open Assets:A\n");
            let src = BeancountSources::from(text.as_str());
            with_parse(&src, |_, res| if res.is_ok() { Err(format!("{s} accepted")) } else { Ok(()) })
        });
    }
    for s in ["١:00", "10:٣٠", "10:00:٠٠", "１０:00"] {
        cx.case(&format!("time with non-ASCII digits {s}"), true, || {
            let got = lex(s);
            if got.iter().any(|t| t.0.starts_with("Time")) { Err(format!("{s} accepted: {got:?}")) } else { Ok(()) }
        });
    }
    for s in ["\\q", "\\8", "\\x", "\\x1", "\\xzz", "\\u{d800}", "\\u{110000}", "\\u{}", "\\u12", "\\uzzzz", "\\ ", "\\-", "\\A", "\\é"] {
        for (a, b) in [("", ""), ("a", ""), ("", " b"), ("é", "")] {
            if s == "\\x1" && b == " b" || s == "\\u12" && b == " b" || s == "\\x" && b == " b" {
                continue;
            }
            let lit = format!("\"{a}{s}{b}\"");
            cx.case(&format!("string {lit}"), true, || string(&lit, None));
        }
    }
    for _ in 0..cx.scale(6000, 200000) {
        if !cx.go() {
            return;
        }
        let n = *r.pick(&[0usize, 1, 2, 4, 8, 30]);
        let escapes = r.p(70);
        let (mut lit, mut val) = (String::from("\""), String::new());
        for _ in 0..n {
            if escapes && r.p(50) {
                let (l, v): (String, char) = match r.n(14) {
                    0 => ("\\n".into(), '\n'),
                    1 => ("\\t".into(), '\t'),
                    2 => ("\\r".into(), '\r'),
                    3 => ("\\\\".into(), '\\'),
                    4 => ("\\\"".into(), '"'),
                    5 => ("\\'".into(), '\''),
                    6 => ("\\b".into(), '\u{8}'),
                    7 => ("\\f".into(), '\u{c}'),
                    8 => ("\\/".into(), '/'),
                    9 => {
                        let k = r.n(256);
                        (format!("\\x{k:02x}"), k as u8 as char)
                    }
                    10 => {
                        let k = r.n(256);
                        (format!("\\{k:03o}"), k as u8 as char)
                    }
                    11 => {
                        let c = *r.pick(&['a', 'é', '中', '\u{7f}', '\u{0}']);
                        (format!("\\u{:04x}", c as u32), c)
                    }
                    _ => {
                        let c = *r.pick(&['😱', 'Z', '\u{10ffff}', '\u{e000}']);
                        (format!("\\u{{{:x}}}", c as u32), c)
                    }
                };
                lit.push_str(&l);
                val.push(v);
            } else {
                let c = match r.n(6) {
                    0 => *r.pick(&['\n', '\t', ' ', ';', '#', '\r', '*']),
                    1 => *r.pick(&['é', '中', '😱', '\u{a0}', '\u{feff}', '\u{0}', '\u{7f}']),
                    2 => *r.pick(&['\'', '`', '{', '}', '/', '0', '7', 'x', 'u', 'n']),
                    _ => (b' ' + r.n(95) as u8) as char,
                };
                if c == '"' || c == '\\' {
                    continue;
                }
                lit.push(c);
                val.push(c);
            }
        }
        lit.push('"');
        cx.case(&format!("string {lit}"), true, || string(&lit, Some(&val)));
    }
    // booleans
    for (s, w) in [("TRUE", "bool true"), ("FALSE", "bool false"), ("NULL", "null")] {
        cx.case(s, true, || {
            let text = format!("2020-01-01 custom \"x\" {s}\n  foo: {s}\npushmeta bar: {s}\n2020-01-02 commodity USD\npopmeta bar:\n");
            let src = BeancountSources::from(text.as_str());
            with_parse(&src, |_, res| match res {
                Err(e) => Err(errs(e)),
                Ok(p) => {
                    let mut got = vec![];
                    for d in &p.directives {
                        if let DirectiveVariant::Custom(c) = d.variant() {
                            got.extend(c.values().map(|v| metaval(v.item())));
                        }
                        got.extend(d.metadata().key_values().map(|(_, v)| metaval(v.item())));
                    }
                    if got.len() == 3 && got.iter().all(|g| g == w) { Ok(()) } else { Err(format!("{s} denotes {got:?}")) }
                }
            })
        });
    }
}
