#![allow(dead_code)]
mod acts;
mod ix;
mod judge;
mod ops;
mod probe;
mod run;
mod svm;
mod world;

fn main() {
    // Programs under test panic on purpose (assertions); the ledger turns that
    // into a failed transaction.
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SIM_PANIC").is_ok() {
            eprintln!("{i}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |name: &str| -> Option<String> {
        a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
    };
    let num = |name: &str, d: u64| opt(name).map_or(d, |x| x.parse().expect("number"));
    let seed = opt("--seed")
        .or(std::env::var("VERIF_SEED").ok())
        .and_then(|x| x.parse().ok())
        .unwrap_or(1);
    let root = opt("--root").unwrap_or("/verif".into());
    let programs = svm::Programs::load();
    let threads = num("--threads", std::thread::available_parallelism().map_or(8, |n| n.get() as u64)) as usize;
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = opt("--tier").unwrap_or("quick".into());
            let secs = num("--secs", if tier == "thorough" { 1200 } else { 25 }) as f64;
            run::check(
                &programs,
                &run::CheckArgs {
                    prop: opt("--prop").expect("--prop"),
                    tier,
                    seed,
                    secs,
                    max_runs: num("--runs", u64::MAX),
                    threads,
                    root,
                    write: opt("--no-evidence").is_none(),
                },
            )
        }
        Some("replay") => run::replay(&programs, &a[2], &root),
        Some("determinism") => run::determinism(&programs, seed, num("--runs", 20), threads),
        Some("survey") => run::survey(&programs, seed, num("--runs", 20), threads),
        Some("matrix") => run::matrix(&programs, seed, num("--runs", 20), threads),
        Some("trace") => run::trace(&programs, &opt("--prop").expect("--prop"), num("--run-seed", 0)),
        _ => {
            eprintln!("usage: ntt-sim check --prop Cxx --tier quick|thorough | replay FILE | determinism");
            2
        }
    };
    std::process::exit(code);
}
