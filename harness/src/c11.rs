//! C11: expressions evaluate correctly, or the parse reports an error
use crate::core::*;
use beancount_parser_lima::*;
use rust_decimal::Decimal;
use std::str::FromStr;

#[derive(Clone)]
enum T {
    N(String, Decimal),
    Par(Box<T>),
    Sign(char, Box<T>),
    // operands and the operators between them, left to right: only + and -, or only * and /
    Chain(Box<T>, Vec<(char, T)>),
}

fn num(r: &mut Rng, wide: bool) -> T {
    let lit = if wide && r.p(35) {
        r.pick(&[
            "79228162514264337593543950335",
            "79,228,162,514,264,337,593,543,950,335",
            "39614081257132168796771975168",
            "7922816251426433759354395033.5",
            "0.0000000000000000000000000001",
            "1.0000000000000000000000000000",
            "281474976710656",
            "281474976710657.5",
            "99999999999999999999",
            "0",
            "0.00",
            "0.0",
        ])
        .to_string()
    } else {
        match r.n(7) {
            0 => format!("{}", r.n(10)),
            1 => format!("{}.{:02}", r.n(1000), r.n(100)),
            2 => format!("{},{:03}", r.range(1, 999), r.n(1000)),
            3 => format!("{}.{:0w$}", r.n(100), r.n(1000), w = r.range(3, 8)),
            4 => format!("{}", r.n(100)),
            5 => format!("0.{:04}", r.n(10000)),
            _ => format!("{}", r.n(100000)),
        }
    };
    let v = Decimal::from_str(&lit.replace(',', "")).unwrap();
    T::N(lit, v)
}
fn sum(r: &mut Rng, d: usize, w: bool) -> T {
    let a = product(r, d, w);
    let n = if d == 0 { 0 } else { *r.pick(&[0usize, 0, 1, 1, 2, 3, 5]) };
    if n == 0 {
        return a;
    }
    T::Chain(Box::new(a), (0..n).map(|_| (*r.pick(&['+', '-']), product(r, d - 1, w))).collect())
}
fn product(r: &mut Rng, d: usize, w: bool) -> T {
    let a = factor(r, d, w);
    let n = if d == 0 { 0 } else { *r.pick(&[0usize, 0, 1, 1, 2, 3]) };
    if n == 0 {
        return a;
    }
    T::Chain(Box::new(a), (0..n).map(|_| (*r.pick(&['*', '*', '/']), factor(r, d - 1, w))).collect())
}
fn factor(r: &mut Rng, d: usize, w: bool) -> T {
    let x = if d > 0 && r.p(30) { T::Par(Box::new(sum(r, d - 1, w))) } else { num(r, w) };
    match r.n(6) {
        0 => T::Sign('-', Box::new(x)),
        1 => T::Sign('+', Box::new(x)),
        _ => x,
    }
}
fn show(t: &T, r: &mut Rng, o: &mut String) {
    let gap = |r: &mut Rng, o: &mut String| o.push_str(*r.pick(&["", " ", " ", "\t", "  "]));
    match t {
        T::N(s, _) => o.push_str(s),
        T::Par(x) => {
            o.push('(');
            gap(r, o);
            show(x, r, o);
            gap(r, o);
            o.push(')');
        }
        T::Sign(c, x) => {
            o.push(*c);
            gap(r, o);
            show(x, r, o);
        }
        T::Chain(a, v) => {
            show(a, r, o);
            for (c, x) in v {
                gap(r, o);
                o.push(*c);
                gap(r, o);
                show(x, r, o);
            }
        }
    }
}
fn scale(t: &T) -> u32 {
    match t {
        T::N(_, v) => v.scale(),
        T::Par(x) | T::Sign(_, x) => scale(x),
        T::Chain(a, v) => v.iter().map(|x| scale(&x.1)).max().unwrap_or(0).max(scale(a)),
    }
}
fn eval(t: &T) -> Option<Decimal> {
    Some(match t {
        T::N(_, v) => *v,
        T::Par(x) => eval(x)?,
        T::Sign('-', x) => -eval(x)?,
        T::Sign(_, x) => eval(x)?,
        T::Chain(a, v) => {
            let mut a = eval(a)?;
            for (c, x) in v {
                let x = eval(x)?;
                a = match c {
                    '+' => a.checked_add(x)?,
                    '-' => a.checked_sub(x)?,
                    '*' => a.checked_mul(x)?,
                    _ => a.checked_div(x)?,
                };
            }
            a
        }
    })
}
/// exact value as a fraction, while it fits
fn exact(t: &T) -> Option<(i128, i128)> {
    fn norm(a: i128, b: i128) -> Option<(i128, i128)> {
        if b == 0 {
            return None;
        }
        let (mut x, mut y) = (a.unsigned_abs(), b.unsigned_abs());
        while y != 0 {
            (x, y) = (y, x % y);
        }
        let g = (x as i128).max(1);
        let s = if b < 0 { -1 } else { 1 };
        let (a, b) = (a / g * s, b / g * s);
        (a.abs() < 1 << 60 && b < 1 << 60).then_some((a, b))
    }
    match t {
        T::N(_, v) => norm(v.mantissa(), 10i128.pow(v.scale())),
        T::Par(x) => exact(x),
        T::Sign('-', x) => exact(x).map(|(a, b)| (-a, b)),
        T::Sign(_, x) => exact(x),
        T::Chain(a, v) => {
            let (mut n, mut d) = exact(a)?;
            for (c, x) in v {
                let (p, q) = exact(x)?;
                (n, d) = match c {
                    '+' => norm(n * q + p * d, d * q)?,
                    '-' => norm(n * q - p * d, d * q)?,
                    '*' => norm(n * p, d * q)?,
                    _ => norm(n * q, d * p)?,
                };
            }
            Some((n, d))
        }
    }
}
/// would some part of it read as a date?
fn datelike(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len()).any(|i| {
        i + 6 < b.len()
            && b[i..i + 4].iter().all(u8::is_ascii_digit)
            && (b[i + 4] == b'-' || b[i + 4] == b'/')
            && b[i + 5].is_ascii_digit()
    })
}

fn one(cx: &mut Ctx, t: &T, text: &str) {
    // where an expression can stand
    let places = [
        format!("2020-01-01 price USD {text} NZD\n"),
        format!("2020-01-01 *\n  Assets:A  {text} NZD\n  Assets:B\n"),
        format!("2020-01-01 *\n  Assets:A  {text}\n  Assets:B\n"),
        format!("2020-01-01 *\n  Assets:A  1 USD @ {text} NZD\n"),
        format!("2020-01-01 *\n  Assets:A  1 USD @@ {text}\n"),
        format!("2020-01-01 *\n  Assets:A  1 USD {{{text} NZD}}\n"),
        format!("2020-01-01 *\n  Assets:A  1 USD {{1 # {text} NZD}}\n"),
        format!("2020-01-01 balance Assets:A {text} NZD\n"),
        format!("2020-01-01 balance Assets:A {text} ~ 0.1 NZD\n"),
        format!("2020-01-01 commodity USD\n  key: {text}\n"),
        format!("2020-01-01 commodity USD\n  key: {text} NZD\n"),
        format!("2020-01-01 custom \"x\" {text}\n"),
    ];
    let k = (hash(text) % (2 * places.len() as u64)) as usize;
    let k = if k < places.len() { k } else { 0 };
    let place = &places[k];
    let want = eval(t).map(|mut v| {
        v.rescale(scale(t));
        v
    });
    let nontrivial = !matches!(t, T::N(..));
    cx.case(place, nontrivial, || {
        let s = BeancountSources::from(place.as_str());
        with_parse(&s, |_, res| match (res, want) {
            (Err(_), None) => Ok(()),
            (Ok(_), None) => Err(format!("{text}: accepted, although it overflows or divides by zero")),
            (Err(e), Some(w)) => Err(format!("{text}: refused, though its value is {w}: {}", errs(e))),
            (Ok(p), Some(w)) => {
                let Some(d) = p.directives.first() else { return Err("no directive".into()) };
                let got = value(d).ok_or("no value")?;
                if dec(got) != dec(w) && !(got.is_zero() && w.is_zero() && got.scale() == w.scale()) {
                    return Err(format!("{text}: value {got}, expected {w}"));
                }
                if let Some((n, q)) = exact(t) {
                    // |got - n/q| <= 1/2 of the last place, and a little for long divisions
                    let p = 10i128.pow(got.scale().min(12));
                    if got.scale() <= 12 && got.mantissa().abs() < 1 << 60 && n.abs() < 1 << 40 && q < 1 << 40 {
                        let err = (got.mantissa() * q - n * p).abs();
                        if err * 1000 > q * 501 {
                            return Err(format!("{text}: value {got}, but exactly {n}/{q}"));
                        }
                    }
                }
                Ok(())
            }
        })
    });
}

fn value(d: &Spanned<Directive>) -> Option<Decimal> {
    use DirectiveVariant::*;
    fn mv(v: &MetaValue) -> Option<Decimal> {
        match v {
            MetaValue::Simple(SimpleValue::Expr(e)) => Some(val(e)),
            MetaValue::Amount(a) => Some(val(a.number())),
            _ => None,
        }
    }
    match d.variant() {
        Price(x) => Some(val(x.amount().number())),
        Balance(x) => Some(val(x.atol().amount().number())),
        Commodity(_) => d.metadata().key_values().next().and_then(|(_, v)| mv(v)),
        Custom(x) => x.values().next().and_then(|v| mv(v)),
        Transaction(x) => {
            let p = x.postings().next()?;
            if let Some(c) = p.cost_spec() {
                return c.total().or(c.per_unit()).map(|v| val(v));
            }
            if let Some(a) = p.price_annotation() {
                return match a.item() {
                    PriceSpec::BareAmount(v) | PriceSpec::CurrencyAmount(v, _) => Some(match v {
                        ScopedExprValue::PerUnit(v) | ScopedExprValue::Total(v) => val(v),
                    }),
                    _ => None,
                };
            }
            p.amount().map(|v| val(v))
        }
        _ => None,
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "random expression trees, depth up to 4, numbers from one digit to the largest decimal and the smallest fraction, any blanks, standing wherever an expression may; \
               expected: the tree evaluated left to right with checked decimal operations and rounded to the largest scale, and, while it fits, compared with the exact fraction; non-trivial: an operator"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC11);
    for (a, op, b) in (0..4).flat_map(|o| ["8", "0", "2.5", "-3", "(1 - 1)", "79228162514264337593543950335"].map(|a| (a, o))).flat_map(|(a, o)| ["0", "0.00", "2", "-0.5", "79228162514264337593543950335"].map(|b| (a, o, b))) {
        let leaf = |s: &str| -> T {
            match s {
                "(1 - 1)" => T::Par(Box::new(T::Chain(Box::new(T::N("1".into(), Decimal::ONE)), vec![('-', T::N("1".into(), Decimal::ONE))]))),
                _ if s.starts_with('-') => T::Sign('-', Box::new(T::N(s[1..].into(), Decimal::from_str(&s[1..]).unwrap()))),
                _ => T::N(s.into(), Decimal::from_str(s).unwrap()),
            }
        };
        let t = T::Chain(Box::new(leaf(a)), vec![(['+', '-', '*', '/'][op], leaf(b))]);
        let text = format!("{a} {} {b}", ['+', '-', '*', '/'][op]);
        one(cx, &t, &text);
    }
    for i in 0..cx.scale(12000, 600000) {
        if !cx.go() {
            break;
        }
        let wide = r.p(30);
        let d = 1 + i % 4;
        let t = sum(&mut r, d, wide);
        let mut text = String::new();
        show(&t, &mut r, &mut text);
        if datelike(&text) || text.len() > 400 {
            continue;
        }
        one(cx, &t, &text);
    }
}

/// its value, or another one if it does not compare with decimals as its value does
fn val(e: &ExprValue) -> rust_decimal::Decimal {
    let (v, other) = (e.value(), e.value().checked_add(rust_decimal::Decimal::ONE).filter(|o| *o != e.value()));
    if *e == v && other.map_or(true, |o| *e != o) { v } else { v + rust_decimal::Decimal::NEGATIVE_ONE }
}
