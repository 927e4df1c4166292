mod bulk;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c23;
mod core;
mod gen;
mod lexgen;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let seed: u64 = a[2].parse().unwrap();
    let thorough = a[3] == "thorough";
    std::panic::set_hook(Box::new(|_| {}));
    let mut cx = core::Ctx {
        seed,
        thorough,
        case_file: a[4].clone(),
        evaluations: 0,
        distinct: Default::default(),
        samples: vec![],
        violation: None,
        rule: String::new(),
        deadline: std::time::Instant::now() + std::time::Duration::from_secs(if thorough { 1500 } else { 60 }),
    };
    // deep recursion in the code under test is not what these oracles are about
    let p = prop.to_string();
    let cx = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            bulk::run(&mut cx, &p);
            match p.as_str() {
                "C01" => c01::run(&mut cx),
                "C02" => c02::run(&mut cx),
                "C03" => c03::run(&mut cx),
                "C04" => c04::run(&mut cx),
                "C05" => c05::run(&mut cx),
                "C06" => c06::run(&mut cx, false),
                "C07" => c06::run(&mut cx, true),
                "C16" => c16::run(&mut cx),
                "C17" => c17::run(&mut cx),
                "C08" => c08::run(&mut cx),
                "C09" => c09::run(&mut cx),
                "C10" => c10::run(&mut cx),
                "C11" => c11::run(&mut cx),
                "C12" => c12::run(&mut cx),
                "C13" => c13::run(&mut cx),
                "C14" => c14::run(&mut cx),
                "C15" => c15::run(&mut cx),
                "C18" => c18::run(&mut cx),
                "C19" => c19::run(&mut cx),
                "C20" => c20::run(&mut cx),
                "C23" => c23::run(&mut cx),
                x => panic!("no oracle for {x}"),
            }
            cx.rule.push_str("; besides, one case of each size in 2..1025 listed in bulk.rs (many directives, files, tags, errors and so on)");
            cx
        })
        .unwrap()
        .join()
        .unwrap();
    let v = match &cx.violation {
        None => "null".to_string(),
        Some((w, i)) => format!(
            "{{\"what\":{},\"input\":{}}}",
            core::json_str(&w.chars().take(4000).collect::<String>()),
            core::json_str(&i.chars().take(20000).collect::<String>())
        ),
    };
    println!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"violation\":{}}}",
        cx.evaluations,
        cx.distinct.len(),
        core::json_str(&cx.rule),
        cx.samples.iter().map(|s| core::json_str(s)).collect::<Vec<_>>().join(","),
        v
    );
}
