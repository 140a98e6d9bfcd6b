mod engine;
mod influence;
mod props;
mod refm;
mod world;

use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let prop = args.get(1).cloned().unwrap_or_default();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let out = get("--out");
    let only = get("--only");
    let limit: u64 = get("--case-limit").and_then(|s| s.parse().ok()).unwrap_or(600);
    engine::install_panic_hook();
    let ex = engine::Ex::new(&prop, thorough, only, get("--trace"));
    let start = Instant::now();
    let emit = move |e: &engine::Ex| {
        let js = e.report_json(start.elapsed().as_secs_f64());
        match &out {
            Some(p) => std::fs::write(p, js).unwrap(),
            None => println!("{}", js),
        }
    };
    {
        let emit = emit.clone();
        ex.start_watchdog(Duration::from_secs(limit), move |e| emit(e));
    }
    match engine::guard(|| props::run(&prop, &ex)) {
        Ok(true) => {}
        Ok(false) => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
        Err(e) => {
            // parameters and keys shared by the cases could not be set up
            ex.fail_setup(&e);
        }
    }
    emit(&ex);
    if let Some(v) = ex.violated() {
        println!("violation in case {}: {}", v.case, v.msg);
        std::process::exit(1);
    }
}
