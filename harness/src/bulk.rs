//! large numbers of things, for most properties: bounds which the code does not have
use crate::core::*;
use beancount_parser_lima::*;
use std::collections::BTreeSet;

struct El(String);
impl<'a> ElementType<'a> for El {
    fn element_type(&self) -> &'a str {
        Box::leak(self.0.clone().into_boxed_str())
    }
}

fn lines(k: usize, f: impl Fn(usize) -> String) -> String {
    (0..k).map(f).collect()
}
fn parsed(text: &str, f: impl FnOnce(&ParseSuccess) -> Result<(), String>) -> Result<(), String> {
    let s = BeancountSources::from(text);
    with_parse(&s, |_, r| match r {
        Ok(x) => f(x),
        Err(e) => Err(format!("errors: {}", errs(e))),
    })
    .map_err(|e| format!("{e}\nfor {}", text.chars().take(1500).collect::<String>()))
}
fn refused(text: &str, n: usize) -> Result<(), String> {
    let s = BeancountSources::from(text);
    with_parse(&s, |_, r| match r {
        Ok(_) => Err("accepted".into()),
        Err(e) if e.errors.len() == n => Ok(()),
        Err(e) => Err(format!("expected {n} errors, got {}", errs(e))),
    })
    .map_err(|e| format!("{e}\nfor {}", text.chars().take(1500).collect::<String>()))
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        let (g, w) = (format!("{got:?}"), format!("{want:?}"));
        Err(format!("{what}: {}, expected {}", g.chars().take(400).collect::<String>(), w.chars().take(400).collect::<String>()))
    }
}
fn event(d: &Spanned<Directive>) -> String {
    match d.item().variant() {
        DirectiveVariant::Event(e) => e.event_type().item().to_string(),
        DirectiveVariant::Open(o) => format!("{}", o.account().item()),
        _ => d.to_string(),
    }
}
fn tx(p: &ParseSuccess) -> Result<Vec<String>, String> {
    match p.directives[0].item().variant() {
        DirectiveVariant::Transaction(t) => Ok(t.postings().map(|p| p.to_string()).collect()),
        _ => Err("no transaction".into()),
    }
}

pub const SIZES: [usize; 11] = [2, 9, 17, 24, 33, 65, 101, 129, 257, 300, 1025];

pub fn run(cx: &mut Ctx, prop: &str) {
    for k in SIZES {
        if !cx.go() {
            return;
        }
        let name = format!("{prop}, large case of size {k} (harness/src/bulk.rs)");
        let p = prop.to_string();
        cx.case(&name, false, || one(&p, k));
    }
}

fn one(prop: &str, k: usize) -> Result<(), String> {
    match prop {
        "C01" => {
            let t = lines(k, |i| format!("2020-01-01 event \"{i}\" \"\"\n2020-01-01 open Assets:A{i}\n"));
            parsed(&t, |p| same("one date", p.directives.iter().map(event).collect::<Vec<_>>(), (0..k).map(|i| format!("Assets:A{i}")).chain((0..k).map(|i| i.to_string())).collect()))?;
            let year = |i: usize| 9999 - i * (9000 / k);
            let t = lines(k, |i| format!("{:04}-12-31 event \"{i}\" \"\"\n", year(i)));
            parsed(&t, |p| same("dates", p.directives.iter().map(event).collect::<Vec<_>>(), (0..k).rev().map(|i| i.to_string()).collect()))?;
            // sorted already, then a few out of place
            let t = format!("{}2000-01-01 event \"late\" \"\"\n", lines(k, |i| format!("2020-{:02}-{:02} event \"{i}\" \"\"\n", 1 + i * 11 / k, 1)));
            parsed(&t, |p| same("dates", p.directives.iter().map(event).collect::<Vec<_>>(), std::iter::once("late".to_string()).chain((0..k).map(|i| i.to_string())).collect()))
        }
        "C02" => {
            let t = format!("{}xyz\u{e9}\n{}", lines(k * 64, |i| if i % 7 == 0 { "\u{e9}\u{2014}\n".into() } else { "a\n".into() }), "z".repeat(k * 64));
            let s = BeancountSources::from(t.clone());
            let a = t.find('x').unwrap();
            let r = s.resolve_span(&Span { source: 0, start: a, end: a + 6 });
            same("resolved", (r.content, r.start_line, r.end_line), ("xyz\u{e9}", k * 64 + 1, k * 64 + 1))?;
            let r = s.resolve_span(&Span { source: 0, start: 0, end: t.len() });
            same("resolved", (r.content, r.start_line, r.end_line), (t.as_str(), 1, k * 64 + 2))
        }
        "C03" => {
            let s = BeancountSources::from("a\n");
            let mut y = SyntheticSources::new(&s);
            let mut all = vec![];
            for i in 0..k {
                all.push((y.create_synthetic_span("one", &format!("f{i}\n")), "one".to_string(), i));
                all.push((y.create_synthetic_span(&format!("n{i}"), &format!("f{i}\n")), format!("n{i}"), i));
            }
            for (sp, n, i) in all {
                let r = y.resolve_span(&sp);
                let l = if n == "one" { i + 1 } else { 1 };
                same("resolved", (r.file_name, r.content, r.start_line, r.end_line), (Some(n.as_str()), format!("f{i}").as_str(), l, l))?;
            }
            Ok(())
        }
        "C04" => {
            for gap in ["\n", "  \n", "; c\n", ": x y\n", "  : x\n"] {
                let t = format!("open{}{}  foo:\n", "\n", gap.repeat(k));
                let toks: Vec<String> = lex_with_source(SourceId::default(), &t).iter().map(|(t, _)| format!("{t:?}")).collect();
                same(&format!("{k} times {gap:?}"), toks, ["Open", "Eol", "Indent", "Key(\"foo\")", "Colon", "Eol"].iter().map(|s| s.to_string()).collect())?;
            }
            Ok(())
        }
        "C05" => {
            let t = "open open: ".repeat(k);
            let toks: Vec<String> = lex_with_source(SourceId::default(), &t).iter().map(|(t, _)| format!("{t:?}")).collect();
            let mut want: Vec<String> = (0..k).flat_map(|_| ["Open", "Key(\"open\")", "Colon"]).map(|s| s.to_string()).collect();
            want.push("Eol".into());
            same("tokens", toks, want)
        }
        "C06" => {
            let (push, pop) = (lines(k, |i| format!("pushtag #t{i}\n")), lines(k, |i| format!("poptag #t{i}\n")));
            parsed(&format!("{push}2020-01-01 event \"in\" \"\" #own #t0\n{pop}2020-01-02 event \"out\" \"\"\n"), |p| {
                let got: BTreeSet<String> = p.directives[0].item().metadata().tags().map(|t| t.to_string()).collect();
                same("tags", (got, p.directives[0].item().metadata().tags().len(), p.directives[1].item().metadata().tags().len()), ((0..k).map(|i| format!("#t{i}")).chain(["#own".into()]).collect(), k + 1, 0))
            })?;
            // the same one: in force after all but one pop
            let t = format!("{}{}2020-01-01 event \"in\" \"\"\npoptag #t\n2020-01-02 event \"out\" \"\"\n", "pushtag #t\n".repeat(k), "poptag #t\n".repeat(k - 1));
            parsed(&t, |p| same("tags", (p.directives[0].item().metadata().tags().len(), p.directives[1].item().metadata().tags().len()), (1, 0)))?;
            refused(&format!("{}{}", "pushtag #t\n".repeat(k), "poptag #t\n".repeat(k + 1)), 1)?;
            refused(&"pushtag #t\n".repeat(k), k)
        }
        "C07" => {
            let t = format!("{}{}", lines(k, |i| format!("pushmeta foo: {i}\n")), lines(k, |i| format!("2020-01-01 event \"{i}\" \"\"\npopmeta foo:\n")));
            parsed(&format!("{t}2020-01-02 event \"out\" \"\"\n"), |p| {
                let v: Vec<String> = p.directives.iter().map(|d| d.item().metadata().key_values().map(|(k, v)| format!("{}={}", k.item(), metaval(v.item()))).collect()).collect();
                let want: Vec<String> = (0..k).rev().map(|i| format!("foo={}", metaval(&MetaValue::Simple(SimpleValue::Expr(num(i)))))).chain(["".into()]).collect();
                same("values", v, want)
            })?;
            let t = format!("{}2020-01-01 event \"in\" \"\"\n  own: 1\n  foo0: 7\n{}", lines(k, |i| format!("pushmeta foo{i}: {i}\n")), lines(k, |i| format!("popmeta foo{i}:\n")));
            parsed(&t, |p| same("keys", p.directives[0].item().metadata().key_values().map(|(k, _)| k.item().to_string()).collect::<BTreeSet<_>>(), (0..k).map(|i| format!("foo{i}")).chain(["own".into()]).collect()))
        }
        "C08" => {
            let t = lines(k, |i| format!("option \"operating_currency\" \"A{i}\"\noption \"documents\" \"/d{i}\"\noption \"inferred_tolerance_default\" \"A{i}:0.{i}\"\n"));
            parsed(&t, |p| {
                let o = &p.options;
                same("currencies", o.operating_currency().map(|c| c.to_string()).collect::<BTreeSet<_>>(), (0..k).map(|i| format!("A{i}")).collect())?;
                same("documents", o.documents().map(|c| c.to_string_lossy().to_string()).collect::<BTreeSet<_>>(), (0..k).map(|i| format!("/d{i}")).collect())?;
                same("tolerances", o.inferred_tolerance_defaults().count(), k)
            })?;
            refused(&format!("{t}option \"operating_currency\" \"A0\"\noption \"documents\" \"/d{}\"\n", k / 2), 2)
        }
        "C10" => {
            let s = format!("{}Z", "A".repeat(k));
            let l = "a".repeat(k);
            same("currency", Currency::try_from(s.as_str()).map(|c| c.to_string()).ok(), Some(s.clone()))?;
            same("tag", Tag::try_from(l.as_str()).map(|c| c.to_string()).ok(), Some(format!("#{l}")))?;
            same("link", Link::try_from(l.as_str()).map(|c| c.to_string()).ok(), Some(format!("^{l}")))?;
            same("key", Key::try_from(l.as_str()).map(|c| c.to_string()).ok(), Some(l.clone()))?;
            same("bad currency", Currency::try_from(format!("{s}_Z-a-Z").as_str()).is_ok(), false)?;
            same("bad tag", Tag::try_from(format!("{l}!{l}").as_str()).is_ok(), false)?;
            same("bad key", Key::try_from(format!("{l}.{l}").as_str()).is_ok(), false)?;
            parsed(&format!("2020-01-01 open Assets{}\n", lines(k, |i| format!(":A{i}"))), |p| same("account", event(&p.directives[0]), format!("Assets{}", lines(k, |i| format!(":A{i}")))))
        }
        "C11" => {
            let t = format!("2020-01-01 price ABC 1000000{} USD\n", " - 1 + 0.5".repeat(k));
            parsed(&t, |p| match p.directives[0].item().variant() {
                DirectiveVariant::Price(x) => same("value", x.amount().number().value(), rust_decimal::Decimal::new(10_000_000 - 5 * k as i64, 1)),
                _ => Err("no price".into()),
            })?;
            let k = k.min(129);
            let t = format!("2020-01-01 price ABC {}1{} USD\n", "-(".repeat(k), ")".repeat(k));
            parsed(&t, |p| match p.directives[0].item().variant() {
                DirectiveVariant::Price(x) => same("value", x.amount().number().value(), rust_decimal::Decimal::new(if k % 2 == 0 { 1 } else { -1 }, 0)),
                _ => Err("no price".into()),
            })
        }
        "C13" => {
            for (what, item) in [("tag", '#'), ("link", '^')] {
                let l = lines(k, |i| format!(" {item}t{i}"));
                let m = lines(k, |i| format!("  {item}u{i}\n  key{i}: {i}\n"));
                let t = format!("2020-01-01 event \"a\" \"b\"{l}\n{m}");
                parsed(&t, |p| {
                    let m = p.directives[0].item().metadata();
                    same(what, (if item == '#' { m.tags().len() } else { m.links().len() }, m.key_values().len()), (2 * k, k))
                })?;
                for j in [0, k - 1] {
                    refused(&format!("2020-01-01 event \"a\" \"b\"{l} {item}t{j}\n{m}"), 1)?;
                    refused(&format!("{t}  {item}t{j}\n"), 1)?;
                    refused(&format!("{t}  {item}u{j}\n"), 1)?;
                    refused(&format!("{t}  key{j}: {j}\n"), 1)?;
                }
            }
            let l = (0..k).map(|i| format!("A{i}")).collect::<Vec<_>>();
            parsed(&format!("2020-01-01 open Assets:A {}\n", l.join(",")), |p| match p.directives[0].item().variant() {
                DirectiveVariant::Open(o) => same("currencies", o.currencies().map(|c| c.to_string()).collect::<BTreeSet<_>>(), l.iter().cloned().collect()),
                _ => Err("no open".into()),
            })?;
            for j in [0, k / 2, k - 1] {
                refused(&format!("2020-01-01 open Assets:A {},A{j}\n", l.join(",")), 1)?;
            }
            Ok(())
        }
        "C14" => {
            let s = lines(k, |i| format!("{i}\u{e9}\n"));
            let e = s.replace('\n', "\\n");
            parsed(&format!("2020-01-01 event \"{s}\" \"{e}\"\n"), |p| match p.directives[0].item().variant() {
                DirectiveVariant::Event(x) => same("strings", (*x.event_type().item(), *x.description().item()), (s.as_str(), s.as_str())),
                _ => Err("no event".into()),
            })
        }
        "C15" => {
            let at = |i: usize| Span { source: 0, start: i, end: i + 1 };
            let mut e = spanned(El("main".into()), at(0)).error("why");
            for i in 0..k {
                e = e.in_context(&spanned(El(format!("c{i}")), at(i))).related_to(&spanned(El(format!("r{i}")), at(2 * i)));
            }
            let more = (0..k).map(|i| spanned(El(format!("m{i}")), at(3 * i))).collect::<Vec<_>>();
            let e = e.in_contexts(more.iter()).related_to_all(more.iter());
            let want = |l: &str, n: usize| (0..k).map(|i| (format!("{l}{i}"), n * i)).chain((0..k).map(|i| (format!("m{i}"), 3 * i))).collect::<Vec<_>>();
            same("contexts", e.contexts().map(|(l, s)| (l.to_string(), s.start)).collect::<Vec<_>>(), want("c", 1))?;
            same("related", e.related().map(|(l, s)| (l.to_string(), s.start)).collect::<Vec<_>>(), want("r", 2))
        }
        "C17" => {
            let k = k.min(300);
            let d = Scratch::new();
            let w = |n: String, t: String| std::fs::write(d.0.join(n), t).map_err(|e| e.to_string());
            // wide
            for i in 0..k {
                w(format!("w{i}.b"), format!("2020-01-01 event \"{i}\" \"\"\n"))?;
            }
            w("wide.b".into(), lines(k, |i| format!("include \"w{i}.b\"\n")) + &lines(k, |i| format!("include \"w{i}.b\"\n")))?;
            let order = |f: &str| {
                let s = BeancountSources::try_from(d.0.join(f)).map_err(|e| e.to_string())?;
                with_parse(&s, |_, r| match r {
                    Ok(x) => Ok(x.directives.iter().map(event).collect::<Vec<_>>()),
                    Err(e) => Err(errs(e)),
                })
            };
            same("files", order("wide.b")?, (0..k).map(|i| i.to_string()).collect())?;
            // deep
            for i in 0..k {
                w(format!("d{i}.b"), format!("2020-01-01 event \"a{i}\" \"\"\n{}2020-01-01 event \"z{i}\" \"\"\n", if i + 1 < k { format!("include \"d{}.b\"\n", i + 1) } else { String::new() }))?;
            }
            same("files", order("d0.b")?, (0..k).map(|i| format!("a{i}")).chain((0..k).rev().map(|i| format!("z{i}"))).collect())
        }
        "C19" => {
            for limit in [k - 1, k, k + 1] {
                for (n, s) in [(k, "a\n".repeat(k - 1)), (k, "\n".repeat(k - 1) + "b"), (1, "x".repeat(80 * k))] {
                    let t = format!("option \"long_string_maxlines\" \"{limit}\"\n2020-01-01 event \"{s}\" \"\"\n");
                    parsed(&t, |p| match &p.warnings[..] {
                        [] => same("warned", false, n > limit),
                        [w] => same("warned", (true, w.reason().contains(&format!("({limit})")), w.reason().contains(&format!("\"{n}\""))), (n > limit, true, true)),
                        x => Err(format!("{} warnings", x.len())),
                    })?;
                }
            }
            Ok(())
        }
        "C20" => {
            let t = format!("2020-01-01 * \"a\"\n{}", lines(k, |i| format!("  Assets:A{i} {i} USD\n    key: {i}\n")));
            parsed(&t, |p| match p.directives[0].item().variant() {
                DirectiveVariant::Transaction(x) => same(
                    "postings",
                    x.postings().map(|p| (p.account().item().to_string(), p.amount().map(|a| a.value().to_string()), p.metadata().key_values().len())).collect::<Vec<_>>(),
                    (0..k).map(|i| (format!("Assets:A{i}"), Some(i.to_string()), 1)).collect(),
                ),
                _ => Err("no transaction".into()),
            })?;
            parsed(&format!("2020-01-01 custom \"t\"{}\n", lines(k, |i| format!(" \"{i}\""))), |p| match p.directives[0].item().variant() {
                DirectiveVariant::Custom(x) => same("values", x.values().map(|v| format!("{:?}", metaval(v.item()))).collect::<Vec<_>>(), (0..k).map(|i| format!("{:?}", metaval(&MetaValue::Simple(SimpleValue::String(Box::leak(i.to_string().into_boxed_str())))))).collect()),
                _ => Err("no custom".into()),
            })
        }
        "C23" => {
            let t = format!("2020-01-01 * \"a\"\n{}", lines(k, |i| format!("  Assets:A{i} {i} USD\n")));
            parsed(&t, |p| {
                same("postings", tx(p)?, (0..k).map(|i| format!("Assets:A{i} {i} USD")).collect())?;
                same("printed", p.directives[0].to_string().trim_end().to_string(), t.trim_end().to_string())
            })?;
            let t = format!("2020-01-01 event \"a\" \"b\"{}\n", lines(k, |i| format!(" #t{i}")));
            parsed(&t, |p| {
                let s = p.directives[0].to_string();
                same("tags", s.split(" #").skip(1).map(|x| x.trim().to_string()).collect::<BTreeSet<_>>(), (0..k).map(|i| format!("t{i}")).collect())
            })
        }
        _ => Ok(()),
    }
}

fn num(i: usize) -> ExprValue {
    ExprValue::from(Expr::Value(rust_decimal::Decimal::from(i as u64)))
}
