mod doc;
mod field;
mod fmt;
mod full;
mod fuzz;
mod gen;
mod norm;
mod opc;
mod props;
mod runner;
mod xml;

use std::path::{Path, PathBuf};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    runner::install_hook();
    let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let find = |id: &str| match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    let code = match arg(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let n = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
            runner::check(find(arg(2)), &root, arg(3) == "thorough", seed, n)
        }
        "worker" => {
            let n = |i: usize| arg(i).parse::<u64>().unwrap();
            let root = Path::new(arg(9));
            let known: Vec<String> = runner::load_known(root, arg(2)).into_iter().map(|k| k.sig).collect();
            runner::worker(find(arg(2)), arg(3) == "thorough", n(4), n(5), n(6), n(7), 0, arg(8), &known);
            0
        }
        "shrink" => {
            runner::shrink_file(props::ALL, Path::new(arg(2)));
            0
        }
        "replay" => runner::replay_file(props::ALL, Path::new(arg(2))),
        "survey" => {
            runner::survey(find(arg(2)), arg(4).parse().unwrap_or(1), arg(3).parse().unwrap_or(1000));
            0
        }
        "list" => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check <property> [quick|thorough] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
