//! C09: account type names stay one-to-one through every renaming
use crate::core::*;
use beancount_parser_lima::*;

const TYPES: &[(&str, AccountType, &str)] = &[
    ("name_assets", AccountType::Assets, "Assets"), ("name_liabilities", AccountType::Liabilities, "Liabilities"), ("name_equity", AccountType::Equity, "Equity"),
    ("name_income", AccountType::Income, "Income"), ("name_expenses", AccountType::Expenses, "Expenses"),
];

pub fn run(cx: &mut Ctx) {
    cx.rule = "random sequences of 0-14 renamings among a pool of 12 names (defaults, fresh, swaps by way of a third name, renaming to itself, to another's name, to an invalid name) interleaved with accounts of all those names; \
               expected: a bijection updated only by valid unused names; an account accepted, with its type, exactly if its first component is current where it stands; non-trivial: at least one renaming takes effect"
        .into();
    let mut r = Rng::new(cx.seed ^ 0xC09);
    let pool = ["Assets", "Liabilities", "Equity", "Income", "Expenses", "Vermögen", "A", "B", "C-1", "Actifs", "X9", "A²", "BⅧ", "Cʰ中", "D--", "lower", "", "A B", "Žab", "Bé"];
    let n = cx.scale(6000, 200000);
    for _ in 0..n {
        if !cx.go() {
            break;
        }
        let mut cur: Vec<String> = TYPES.iter().map(|t| t.2.to_string()).collect();
        let mut text = String::new();
        // (offset range of the line, expected error)
        let mut bad: Vec<(usize, usize)> = vec![];
        let mut good: Vec<(usize, AccountType)> = vec![];
        let mut renamed = false;
        let mut finals = cur.clone();
        let clean = r.p(50);
        for _ in 0..r.n(20) {
            let a = text.len();
            if r.p(45) {
                let t = r.n(5);
                let mut nm = *r.pick(&pool);
                let valid = |s: &str| {
                    let mut c = s.chars();
                    c.next().is_some_and(|c| c.is_ascii_uppercase()) && c.all(|c| c.is_alphanumeric() || c == '-')
                };
                let ok = |cur: &Vec<String>, nm: &str| valid(nm) && (cur[t] == nm || !cur.iter().any(|c| c == nm));
                if clean {
                    for _ in 0..30 {
                        if ok(&cur, nm) {
                            break;
                        }
                        nm = *r.pick(&pool);
                    }
                    if !ok(&cur, nm) {
                        continue;
                    }
                }
                text.push_str(&format!("option \"{}\" \"{nm}\"\n", TYPES[t].0));
                if ok(&cur, nm) {
                    renamed |= cur[t] != nm;
                    cur[t] = nm.to_string();
                } else {
                    bad.push((a, text.len()));
                }
                finals = cur.clone();
            } else {
                let mut nm = *r.pick(&pool[..15]);
                if clean {
                    nm = if let Some(x) = pool.iter().find(|p| cur.iter().any(|c| c == *p) && r.p(40)) { x } else { continue };
                }
                text.push_str(&format!("2020-01-01 close {nm}:{}\n", r.pick(&["Sub0", "Sub1", "X", "9x", "中文", "Ünï-1", "A:B:C", "S--", "1:2", "Ⅷ", "Aʰǅ²"])));
                match cur.iter().position(|c| c == nm) {
                    Some(t) => good.push((a, TYPES[t].1)),
                    None => {
                        bad.push((a, text.len()));
                        text.push_str("plugin \"p\"\n");
                    }
                }
            }
        }
        cx.case(&text.clone(), renamed, || {
            let s = BeancountSources::from(text.as_str());
            with_parse(&s, |_, r| match r {
                Ok(x) => {
                    if !bad.is_empty() {
                        return Err(format!("accepted what it must not: lines at {bad:?}"));
                    }
                    for (a, t) in &good {
                        let d = x.directives.iter().find(|d| d.span().start == *a).ok_or("directive missing")?;
                        if let DirectiveVariant::Close(c) = d.item().variant() {
                            if c.account().item().account_type() != *t {
                                return Err(format!("account {} has type {:?}, expected {t:?}", c.account(), c.account().item().account_type()));
                            }
                        }
                    }
                    for (i, t) in TYPES.iter().enumerate() {
                        let n = x.options.account_type_name(t.1);
                        if n.as_ref() != finals[i] {
                            return Err(format!("{:?} is named {n}, expected {}", t.1, finals[i]));
                        }
                    }
                    Ok(())
                }
                Err(e) => {
                    for b in &bad {
                        if !e.errors.iter().any(|x| b.0 <= x.span().start && x.span().start < b.1) {
                            return Err(format!("no error for the line at {b:?}: {}", errs(e)));
                        }
                    }
                    for x in &e.errors {
                        if !bad.iter().any(|b| b.0 <= x.span().start && x.span().start <= b.1) {
                            return Err(format!("error where there should be none: {}", errs(e)));
                        }
                    }
                    Ok(())
                }
            })
        });
    }
}
