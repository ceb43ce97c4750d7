mod engine;
mod gen;
mod props;
mod runner;

use std::path::Path;

#[cfg(feature = "interval")]
use props::interval;
use props::{commands, fs, graph, lazy, resources, threads, triggers, tx};

macro_rules! registry {
    ($($(#[$m:meta])* $p:ty),* $(,)?) => {
        fn dispatch(mode: &str, id: &str, args: &[String]) -> i32 {
            $(
                $(#[$m])*
                if id == <$p as runner::Prop>::ID {
                    return match mode {
                        "check" => runner::check::<$p>(),
                        "worker" => runner::worker::<$p>(&args[0], Path::new(&args[1])),
                        "case" => runner::run_case::<$p>(Path::new(&args[0])),
                        "replay" => runner::replay::<$p>(Path::new(&args[0])),
                        _ => 64,
                    };
                }
            )*
            eprintln!("unknown property {id}");
            64
        }
    };
}

registry!(
    graph::G01,
    graph::G02,
    tx::S01,
    tx::S02,
    tx::S03,
    threads::S04,
    tx::S05,
    triggers::S06,
    resources::S07,
    tx::S08,
    tx::S09,
    lazy::D01,
    fs::D02,
    fs::D03,
    fs::C01,
    commands::C02,
    #[cfg(feature = "interval")]
    interval::I01,
    #[cfg(feature = "interval")]
    interval::I02,
    #[cfg(feature = "interval")]
    interval::I03,
);

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(String::as_str) {
        Some("replay") if args.len() == 2 => {
            let id = runner::read_replay_property(Path::new(&args[1]));
            dispatch("replay", &id, &args[1..])
        }
        Some(mode @ ("check" | "worker" | "case")) if args.len() >= 2 => {
            dispatch(mode, &args[1], &args[2..])
        }
        _ => {
            eprintln!("usage: vharness check ID | replay FILE");
            64
        }
    };
    std::process::exit(code);
}
