#![feature(thread_local, alloc_error_hook)]

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c12;
mod disk;
mod doc;
mod engine;
mod gen;
mod node;
mod ops;
mod prog;
mod reader;
mod rng;
mod seams;
mod sink;
mod sx;

use engine::{Check, Tier};

fn checks() -> Vec<Box<dyn Check>> {
    vec![Box::new(c01::C01), Box::new(c02::C02), Box::new(c03::C03), Box::new(c04::C04), Box::new(c05::C05), Box::new(c06::C06), Box::new(c07::C07), Box::new(c08::C08), Box::new(c09::C09), Box::new(c10::C10), Box::new(c10::C11), Box::new(c12::C12)]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    seams::install_hooks();
    engine::init();
    let env = |k: &str| std::env::var(k).ok();
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match args.get(3).cloned().or(env("VERIF_TIER")).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let root = env("VERIF_ROOT").unwrap_or_else(|| "/verif".into());
    let find = |id: &str| checks().into_iter().find(|c| c.id() == id);
    let code = match (args.get(1).map(String::as_str), args.get(2)) {
        (Some("check"), Some(id)) => match find(id) {
            Some(c) => engine::run_check(&*c, tier, seed, &root),
            None => usage(),
        },
        (Some("replay"), Some(id)) => match (find(id), args.get(3)) {
            (Some(c), Some(f)) => engine::replay(&*c, f),
            _ => usage(),
        },
        (Some("probe"), _) => c09::main_probe(),
        // the plan of one run
        (Some("plan"), Some(id)) => match (find(id), args.get(4)) {
            (Some(c), Some(run)) => {
                println!("{}", engine::regenerate(&*c, seed, run.parse().unwrap_or(0), tier));
                0
            }
            _ => usage(),
        },
        _ => usage(),
    };
    std::process::exit(code);
}

fn usage() -> i32 {
    eprintln!("usage: sim check ID [quick|thorough] | sim replay ID FILE | sim plan ID TIER RUN");
    2
}
