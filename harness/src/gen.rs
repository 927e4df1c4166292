//! random well-formed ledgers together with the facts they state
use crate::core::*;
use rust_decimal::Decimal;
use std::str::FromStr;

#[derive(Default, Clone)]
pub struct W {
    pub out: String,
    pub facts: Vec<Fact>,
}
pub type Sp = (usize, usize);

#[derive(Clone)]
pub struct Cfg {
    pub dates: Vec<String>,
    pub kinds: Vec<&'static str>,
    pub accounts: Vec<String>,
    pub currencies: Vec<String>,
    pub tags: Vec<String>,
    pub links: Vec<String>,
    pub keys: Vec<String>,
    pub tag_p: usize,
    pub meta_p: usize,
    pub noise_p: usize,
    pub crlf: bool,
    pub max_postings: usize,
    pub cost_p: usize,
    pub multiline: bool,
}

pub const KINDS: &[&str] = &[
    "transaction", "price", "balance", "open", "close", "commodity", "pad", "document", "note", "event", "query", "custom",
];

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

impl Cfg {
    pub fn new() -> Self {
        Cfg {
            dates: strs(&["2020-01-01", "2020/01/02", "2019-12-31", "0001-01-01", "9999-12-31", "2020-02-29", "2021/03-04"]),
            kinds: KINDS.to_vec(),
            accounts: strs(&[
                "Assets:Cash", "Assets:Bank:Checking-1", "Liabilities:Card", "Equity:Opening-Balances", "Income:Salary", "Expenses:Food", "Assets:Żółw:Ünï", "Expenses:中文", "Income:1A",
            ]),
            currencies: strs(&["USD", "NZD", "GBP", "V", "A1", "X.Y-Z_9", "ABC'D", "/ESZ4", "/6'J", "/3-._B"]),
            tags: strs(&["trip", "a-b_c", "x/y.z", "9", "T", "end.", "-/_."]),
            links: strs(&["inv-1", "l.2", "trip", "Z_", "a/", ".0"]),
            keys: strs(&["foo", "bar", "open", "txn", "kEy-1_x", "option", "price", "zz", "plugin", "note", "k-", "a_"]),
            tag_p: 30,
            meta_p: 35,
            noise_p: 15,
            crlf: false,
            max_postings: 4,
            cost_p: 30,
            multiline: false,
        }
    }
}

pub fn canon_date(s: &str) -> String {
    s.replace('/', "-")
}

impl W {
    pub fn tok(&mut self, s: &str) -> Sp {
        let a = self.out.len();
        self.out.push_str(s);
        (a, self.out.len())
    }
    pub fn ws(&mut self, r: &mut Rng) {
        let s = *r.pick(&[" ", " ", " ", "  ", "\t", " \t "]);
        self.out.push_str(s);
    }
    pub fn fact(&mut self, p: impl Into<String>, v: impl Into<String>, s: Option<Sp>) {
        self.facts.push(fact(p, v, s));
    }
    pub fn eol(&mut self, r: &mut Rng, c: &Cfg) {
        let nl = if c.crlf && r.p(50) { "\r\n" } else { "\n" };
        if r.p(c.noise_p) {
            self.out.push_str(*r.pick(&[" ", "\t", "  ", ""]));
        }
        if r.p(c.noise_p) {
            self.out.push_str(*r.pick(&["; a comment", " ;", " ; \"quoted\" #tag 2020-01-01 open"]));
        }
        self.out.push_str(nl);
        if r.p(c.noise_p) {
            self.out.push_str(*r.pick(&["\n", "  \n", "; whole line\n", "   ; indented\n", "* heading\n", "\n\n", "\t\n", "  : ignored\n", ": ignored too\n"]));
        }
    }
}

pub fn string_lit(r: &mut Rng, multiline: bool) -> (String, String) {
    let n = *r.pick(&[0usize, 1, 3, 8, 20]);
    let mut lit = String::from("\"");
    let mut val = String::new();
    for _ in 0..n {
        match r.n(14) {
            0 => {
                lit.push_str("\\\"");
                val.push('"');
            }
            1 => {
                lit.push_str("\\\\");
                val.push('\\');
            }
            2 => {
                lit.push_str("\\n");
                val.push('\n');
            }
            3 => {
                lit.push_str("\\t");
                val.push('\t');
            }
            4 if multiline => {
                lit.push('\n');
                val.push('\n');
            }
            5 => {
                let c = *r.pick(&['é', '中', '😱', 'ß', '\u{a0}']);
                lit.push(c);
                val.push(c);
            }
            6 => {
                let c = *r.pick(&[' ', ';', '#', ':', '\'', ',', '{', '-']);
                lit.push(c);
                val.push(c);
            }
            _ => {
                let c = (b'a' + r.n(26) as u8) as char;
                lit.push(c);
                val.push(c);
            }
        }
    }
    lit.push('"');
    (lit, val)
}

/// a number literal and its value
pub fn number(r: &mut Rng) -> (String, Decimal) {
    let lit = match r.n(6) {
        0 => format!("{}", r.n(10)),
        1 => format!("{}.{:02}", r.n(1000), r.n(100)),
        2 => format!("{},{:03}", r.range(1, 999), r.n(1000)),
        3 => format!("{},{:03},{:03}.{}", r.range(1, 99), r.n(1000), r.n(1000), r.n(100000)),
        4 => format!("{}.{:0w$}", r.n(100), r.n(1000), w = r.range(3, 6)),
        _ => format!("{}", r.n(100000)),
    };
    let v = Decimal::from_str(&lit.replace(',', "")).unwrap();
    (lit, v)
}

/// expression: text, value (None: overflow or division by zero), largest scale
pub fn expr(r: &mut Rng, depth: usize) -> (String, Option<Decimal>, u32) {
    fn fin(d: Option<Decimal>, s: u32) -> Option<Decimal> {
        d.map(|mut d| {
            d.rescale(s);
            d
        })
    }
    let (t, v, s) = sum(r, depth);
    (t, fin(v, s), s)
}
type E = (String, Option<Decimal>, u32);
fn gap(r: &mut Rng) -> &'static str {
    *r.pick(&["", " ", "  "])
}
fn sum(r: &mut Rng, d: usize) -> E {
    let (mut t, mut v, mut s) = product(r, d);
    let n = if d == 0 { 0 } else { *r.pick(&[0usize, 0, 0, 1, 1, 2, 3]) };
    for _ in 0..n {
        let (t2, v2, s2) = product(r, d - 1);
        let plus = r.p(50);
        // a blank before the operator, lest "1 -2" and "-" runs lex oddly
        t = format!("{t}{}{} {t2}", " ", if plus { "+" } else { "-" });
        v = match (v, v2) {
            (Some(a), Some(b)) => if plus { a.checked_add(b) } else { a.checked_sub(b) },
            _ => None,
        };
        s = s.max(s2);
    }
    (t, v, s)
}
fn product(r: &mut Rng, d: usize) -> E {
    let (mut t, mut v, mut s) = factor(r, d);
    let n = if d == 0 { 0 } else { *r.pick(&[0usize, 0, 0, 1, 1, 2]) };
    for _ in 0..n {
        let (t2, v2, s2) = factor(r, d - 1);
        let mul = r.p(60);
        t = format!("{t} {} {t2}", if mul { "*" } else { "/" });
        v = match (v, v2) {
            (Some(a), Some(b)) => if mul { a.checked_mul(b) } else { a.checked_div(b) },
            _ => None,
        };
        s = s.max(s2);
    }
    (t, v, s)
}
fn factor(r: &mut Rng, d: usize) -> E {
    let sign = *r.pick(&["", "", "", "-", "+"]);
    let (t, v, s) = if d > 0 && r.p(25) {
        let (t, v, s) = sum(r, d - 1);
        (format!("({}{t}{})", gap(r), gap(r)), v, s)
    } else {
        let (t, v) = number(r);
        (t, Some(v), v.scale())
    };
    let v = if sign == "-" { v.map(|x| -x) } else { v };
    (format!("{sign}{t}"), v, s)
}
/// an expression which has a value
pub fn good_expr(r: &mut Rng, depth: usize) -> (String, Decimal) {
    loop {
        if let (t, Some(v), s) = expr(r, depth) {
            if v.scale() == s {
                return (t, v);
            }
        }
    }
}

impl W {
    fn s(&mut self, r: &mut Rng, c: &Cfg, path: &str) {
        let (l, v) = string_lit(r, c.multiline);
        let s = self.tok(&l);
        self.fact(path, v, Some(s));
    }
    fn acct(&mut self, r: &mut Rng, c: &Cfg, path: &str) {
        let a = r.pick(&c.accounts).clone();
        let s = self.tok(&a);
        self.fact(path, a.clone(), Some(s));
        self.fact(format!("{path}_type"), a.split(':').next().unwrap(), None);
    }
    fn cur(&mut self, r: &mut Rng, c: &Cfg, path: &str) -> (String, Sp) {
        let a = r.pick(&c.currencies).clone();
        let s = self.tok(&a);
        self.fact(path, a.clone(), Some(s));
        (a, s)
    }
    fn ex(&mut self, r: &mut Rng, path: &str) -> Sp {
        let d = *r.pick(&[0usize, 0, 0, 1, 2]);
        let (t, v) = good_expr(r, d);
        let s = self.tok(&t);
        self.fact(path, dec(v), Some(s));
        s
    }
    fn amount(&mut self, r: &mut Rng, c: &Cfg, path: &str) -> Sp {
        let a = self.ex(r, &format!("{path}.number"));
        self.ws(r);
        let (_, b) = self.cur(r, c, &format!("{path}.currency"));
        self.fact(path, "", Some((a.0, b.1)));
        (a.0, b.1)
    }
    /// returns (value text, span, ends in a bare expression)
    pub fn metaval(&mut self, r: &mut Rng, c: &Cfg, no_leading_expr: bool) -> (String, Sp, bool) {
        loop {
            match r.n(9) {
                0 => {
                    let (l, v) = string_lit(r, c.multiline);
                    let s = self.tok(&l);
                    return (format!("string {v:?}"), s, false);
                }
                1 if !no_leading_expr => {
                    let k = r.pick(&c.currencies).clone();
                    let s = self.tok(&k);
                    return (format!("currency {k}"), s, false);
                }
                2 => {
                    let k = r.pick(&c.accounts).clone();
                    let s = self.tok(&k);
                    return (format!("account {k}"), s, false);
                }
                3 => {
                    let k = r.pick(&c.tags).clone();
                    let s = self.tok(&format!("#{k}"));
                    return (format!("tag {k}"), s, false);
                }
                4 => {
                    let k = r.pick(&c.links).clone();
                    let s = self.tok(&format!("^{k}"));
                    return (format!("link {k}"), s, false);
                }
                5 => {
                    let k = r.pick(&c.dates).clone();
                    let s = self.tok(&k);
                    return (format!("date {}", canon_date(&k)), s, false);
                }
                6 => {
                    let (k, v) = *r.pick(&[("TRUE", "bool true"), ("FALSE", "bool false"), ("NULL", "null")]);
                    let s = self.tok(k);
                    return (v.into(), s, false);
                }
                7 if !no_leading_expr => {
                    let (t, v) = good_expr(r, 2);
                    let s = self.tok(&t);
                    return (format!("expr {}", dec(v)), s, true);
                }
                8 if !no_leading_expr => {
                    let (t, v) = good_expr(r, 1);
                    let s = self.tok(&t);
                    self.ws(r);
                    let k = r.pick(&c.currencies).clone();
                    let e = self.tok(&k);
                    return (format!("amount {} {k}", dec(v)), (s.0, e.1), false);
                }
                _ => {}
            }
        }
    }
    fn tags_links(&mut self, r: &mut Rng, c: &Cfg, used: &mut Vec<String>) {
        if !r.p(c.tag_p) {
            return;
        }
        for _ in 0..r.range(1, 4) {
            self.one_tag_link(r, c, used, "", true);
        }
    }
    fn one_tag_link(&mut self, r: &mut Rng, c: &Cfg, used: &mut Vec<String>, pre: &str, lead: bool) -> bool {
        let (pool, ch, path) = if r.p(50) { (&c.tags, '#', "tag") } else { (&c.links, '^', "link") };
        if pool.is_empty() {
            return false;
        }
        let t = r.pick(pool).clone();
        let full = format!("{ch}{t}");
        if used.contains(&full) {
            return false;
        }
        if lead {
            self.ws(r);
        }
        let s = self.tok(&full);
        used.push(full);
        self.fact(format!("{pre}{path}"), t, Some(s));
        true
    }
    fn meta(&mut self, r: &mut Rng, c: &Cfg, pre: &str, used: &mut Vec<String>) {
        if !r.p(c.meta_p) {
            return;
        }
        let mut keys = c.keys.clone();
        r.shuffle(&mut keys);
        for _ in 0..r.range(1, 4) {
            let indent = *r.pick(&["  ", "    ", "\t", " "]);
            if r.p(70) {
                if let Some(k) = keys.pop() {
                    self.out.push_str(indent);
                    let s = self.tok(&k);
                    self.fact(format!("{pre}keyat"), k.clone(), Some(s));
                    self.tok(":");
                    if r.p(90) {
                        self.ws(r);
                        let (v, s, _) = self.metaval(r, c, false);
                        self.fact(format!("{pre}key.{k}"), v, Some(s));
                    } else {
                        self.fact(format!("{pre}key.{k}"), "null", None);
                    }
                    self.eol(r, c);
                }
            } else {
                let save = self.out.len();
                self.out.push_str(indent);
                if self.one_tag_link(r, c, used, pre, false) {
                    self.eol(r, c);
                } else {
                    self.out.truncate(save);
                }
            }
        }
    }

    /// one directive; facts are those of this directive only
    pub fn directive(&mut self, r: &mut Rng, c: &Cfg) -> &'static str {
        self.facts.clear();
        let kind = *r.pick(&c.kinds);
        let d = r.pick(&c.dates).clone();
        let s = self.tok(&d);
        self.fact("date", canon_date(&d), Some(s));
        self.fact("kind", kind, None);
        let mut used = vec![];
        self.ws(r);
        if kind != "transaction" {
            self.tok(kind);
            self.ws(r);
        }
        match kind {
            "transaction" => {
                let f = *r.pick(&["txn", "*", "!", "#", "&", "?", "%", "'A", "'Z"]);
                let s = self.tok(f);
                self.fact("flag", if f == "txn" { "*" } else { f }, Some(s));
                let n = r.n(3);
                let mut lits = vec![];
                for _ in 0..n {
                    self.ws(r);
                    let (l, v) = string_lit(r, c.multiline);
                    let s = self.tok(&l);
                    lits.push((v, s));
                }
                if n == 2 && !lits[0].0.is_empty() {
                    self.fact("payee", lits[0].0.clone(), Some(lits[0].1));
                }
                if n > 0 && !lits[n - 1].0.is_empty() {
                    self.fact("narration", lits[n - 1].0.clone(), Some(lits[n - 1].1));
                }
                self.tags_links(r, c, &mut used);
                self.eol(r, c);
                self.meta(r, c, "", &mut used);
                let np = r.n(c.max_postings + 1);
                self.fact("postings", format!("{np}"), None);
                for i in 0..np {
                    self.posting(r, c, &format!("p{i}."));
                }
                return kind;
            }
            "price" => {
                self.cur(r, c, "currency");
                self.ws(r);
                self.amount(r, c, "amount");
            }
            "balance" => {
                self.acct(r, c, "account");
                self.ws(r);
                if r.p(50) {
                    let s = self.amount(r, c, "amount");
                    self.fact("atol", "", Some(s));
                } else {
                    let a = self.ex(r, "amount.number");
                    self.ws(r);
                    self.tok("~");
                    self.ws(r);
                    let (l, v) = number(r);
                    let s = self.tok(&l);
                    self.fact("tolerance", dec(v), Some(s));
                    self.ws(r);
                    let (_, b) = self.cur(r, c, "amount.currency");
                    self.fact("amount", "", Some((a.0, b.1)));
                    self.fact("atol", "", Some((a.0, b.1)));
                }
            }
            "open" => {
                self.acct(r, c, "account");
                let mut cs = c.currencies.clone();
                r.shuffle(&mut cs);
                cs.truncate(r.n(4));
                for (i, x) in cs.iter().enumerate() {
                    if i > 0 {
                        let g = gap(r);
                        self.tok(&format!("{g},"));
                    }
                    self.ws(r);
                    let s = self.tok(x);
                    self.fact("currency", x.clone(), Some(s));
                }
                if r.p(40) {
                    self.ws(r);
                    let b = *r.pick(&["STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO"]);
                    let s = self.tok(&format!("\"{b}\""));
                    self.fact("booking", b, Some(s));
                }
            }
            "close" => self.acct(r, c, "account"),
            "commodity" => {
                self.cur(r, c, "currency");
            }
            "pad" => {
                self.acct(r, c, "account");
                self.ws(r);
                self.acct(r, c, "source");
            }
            "document" => {
                self.acct(r, c, "account");
                self.ws(r);
                self.s(r, c, "path");
            }
            "note" => {
                self.acct(r, c, "account");
                self.ws(r);
                self.s(r, c, "comment");
            }
            "event" => {
                self.s(r, c, "event_type");
                self.ws(r);
                self.s(r, c, "description");
            }
            "query" => {
                self.s(r, c, "name");
                self.ws(r);
                self.s(r, c, "content");
            }
            "custom" => {
                self.s(r, c, "type");
                let n = r.n(5);
                self.fact("values", format!("{n}"), None);
                let mut prev = false;
                for i in 0..n {
                    self.ws(r);
                    let (v, s, e) = self.metaval(r, c, prev);
                    prev = e;
                    self.fact(format!("value{i}"), v, Some(s));
                }
            }
            _ => unreachable!(),
        }
        if kind != "custom" {
            self.tags_links(r, c, &mut used);
        }
        self.eol(r, c);
        self.meta(r, c, "", &mut used);
        kind
    }

    pub fn posting(&mut self, r: &mut Rng, c: &Cfg, pre: &str) {
        let ind = *r.pick(&["  ", "    ", "\t", " "]);
        self.out.push_str(ind);
        let start = self.out.len();
        if r.p(25) {
            let f = *r.pick(&["*", "!", "#", "&", "?", "%", "'B"]);
            let s = self.tok(f);
            self.fact(format!("{pre}flag"), f, Some(s));
            self.ws(r);
        }
        self.acct(r, c, &format!("{pre}account"));
        if r.p(75) {
            self.ws(r);
            self.ex(r, &format!("{pre}amount"));
        }
        if r.p(75) {
            self.ws(r);
            self.cur(r, c, &format!("{pre}currency"));
        }
        if r.p(c.cost_p) {
            self.ws(r);
            self.cost(r, c, &format!("{pre}cost"));
        }
        if r.p(25) {
            self.ws(r);
            let total = r.p(50);
            let a = self.tok(if total { "@@" } else { "@" });
            let mut end = a.1;
            let mut v = vec![];
            if r.p(75) {
                self.ws(r);
                let (t, x) = good_expr(r, 1);
                end = self.tok(&t).1;
                v.push(format!("{} {}", if total { "total" } else { "perunit" }, dec(x)));
            }
            if r.p(75) {
                self.ws(r);
                let k = r.pick(&c.currencies).clone();
                end = self.tok(&k).1;
                v.push(if v.is_empty() { format!("currency {k}") } else { k });
            }
            let val = if v.is_empty() { "unspecified".to_string() } else { v.join(" ") };
            self.fact(format!("{pre}price"), val, Some((a.0, end)));
        }
        let end = self.out.len();
        self.fact(format!("{pre}posting"), "", Some((start, end)));
        self.eol(r, c);
        self.meta(r, c, pre, &mut vec![]);
    }

    /// each component at most once, in any order
    pub fn cost(&mut self, r: &mut Rng, c: &Cfg, path: &str) {
        let a = self.tok("{");
        let mut comps: Vec<u8> = vec![];
        if r.p(70) {
            comps.push(if r.p(30) { 5 } else { 0 });
        }
        if r.p(30) && !comps.contains(&0) {
            comps.push(1);
        }
        for k in [2, 3, 4] {
            if r.p(40) {
                comps.push(k);
            }
        }
        r.shuffle(&mut comps);
        for (i, k) in comps.iter().enumerate() {
            if i > 0 {
                let g = gap(r);
                self.tok(&format!("{g},"));
            }
            // a comma between digits would be part of a number
            let g = if i > 0 { *r.pick(&[" ", "  "]) } else { gap(r) };
            self.tok(g);
            let st = self.out.len();
            let mut fs: Vec<(&str, String)> = vec![];
            match k {
                0 | 5 => {
                    // amount, with (0) or without (5) currency
                    match r.n(4) {
                        0 => {
                            let (t, v) = good_expr(r, 1);
                            self.tok(&t);
                            fs.push(("per_unit", dec(v)));
                        }
                        1 => {
                            let (t, v) = good_expr(r, 1);
                            self.tok(&format!("{t} # "));
                            fs.push(("per_unit", dec(v)));
                            let (t, v) = good_expr(r, 1);
                            self.tok(&t);
                            fs.push(("total", dec(v)));
                        }
                        2 => {
                            let (t, v) = good_expr(r, 1);
                            self.tok(&format!("# {t}"));
                            fs.push(("total", dec(v)));
                        }
                        _ => {
                            let (t, v) = good_expr(r, 0);
                            self.tok(&format!("{t} #"));
                            fs.push(("per_unit", dec(v)));
                        }
                    }
                    if *k == 0 {
                        self.tok(" ");
                        let k = r.pick(&c.currencies).clone();
                        self.tok(&k);
                        fs.push(("currency", k));
                    }
                }
                1 => {
                    if r.p(30) {
                        self.tok("# ");
                    }
                    let k = r.pick(&c.currencies).clone();
                    self.tok(&k);
                    fs.push(("currency", k));
                }
                2 => {
                    let k = r.pick(&c.dates).clone();
                    self.tok(&k);
                    fs.push(("date", canon_date(&k)));
                }
                3 => {
                    let (l, v) = string_lit(r, c.multiline);
                    self.tok(&l);
                    fs.push(("label", v));
                }
                _ => {
                    self.tok("*");
                    self.fact(format!("{path}.merge"), "", None);
                }
            }
            let en = self.out.len();
            for (n, v) in fs {
                self.fact(format!("{path}.{n}"), v, Some((st, en)));
            }
        }
        let g = gap(r);
        self.tok(g);
        let b = self.tok("}");
        self.fact(path, "", Some((a.0, b.1)));
    }
}
