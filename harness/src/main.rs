#[macro_use]
mod core;
mod gen;
mod heap;
mod monitor;
mod props;
mod refm;
mod surround;
mod wire;

use crate::core::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let prop = args.get(1).cloned().unwrap_or_default();
    let tier = get("--tier").unwrap_or("quick".into());
    let scratch = std::path::PathBuf::from(get("--scratch").unwrap_or("/nonexistent".into()));
    let mut ctx = Ctx {
        prop: prop.clone(),
        seed: get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1),
        thorough: tier == "thorough",
        tier: tier.clone(),
        // (quick, thorough)
        factor: {
            let (quick, deep) = match prop.as_str() {
                "C19" | "C22" => (10, 200),
                "C26" => (20, 400),
                "C25" => (1, 20),
                // the cheap ones
                "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C11" | "C13" | "C15" | "C18" | "C29" => (240, 1600),
                _ => (80, 1600),
            };
            if tier == "thorough" {
                deep
            } else {
                quick
            }
        },
        scale: get("--scale").map(|s| s.parse().unwrap()).unwrap_or(1.0),
        deadline: get("--budget").map(|s| std::time::Instant::now() + std::time::Duration::from_secs(s.parse().unwrap())),
        only: get("--only").map(|s| {
            let (f, i) = s.rsplit_once(':').unwrap();
            (f.to_string(), i.parse().unwrap())
        }),
        surround: false,
        threads: get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8),
        trace: get("--trace"),
        stats: Stats::default(),
        insufficient: vec![],
        rule: String::new(),
        assumptions: vec![],
        scratch,
    };
    install_panic_hook();
    let t0 = std::time::Instant::now();
    if !props::run(&mut ctx, &prop) {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    }
    let out = ctx.result_json(t0.elapsed().as_secs_f64());
    match get("--out") {
        Some(f) => std::fs::write(f, out).unwrap(),
        None => print!("{out}"),
    }
}
