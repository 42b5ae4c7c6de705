//! Command line of the runner.
use crate::eng::Ty;
use crate::report::{dir_ok, field, install_hook, Opts, Run};
use std::path::PathBuf;

pub fn main(extra: Vec<Box<dyn crate::ops::TypeOps>>, mods: Vec<crate::kwops::KwMod>) -> ! {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let dir = PathBuf::from(opt("--dir").unwrap_or_else(|| "/tmp/pmon".into()));
    dir_ok(&dir);
    let mut o = Opts {
        prop: String::new(),
        thorough: opt("--tier").as_deref() == Some("thorough"),
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        out: opt("--out").map(PathBuf::from),
        dir,
        threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
        max_secs: opt("--max-secs").and_then(|s| s.parse().ok()).unwrap_or(100_000),
        only: None,
    };
    match a.first().map(String::as_str) {
        Some("check") => o.prop = a[1].clone(),
        Some("replay") => {
            let j = std::fs::read_to_string(&a[1]).expect("cannot read the replay file");
            let get = |n: &str| field(&j, n).expect("not a replay file");
            o.prop = get("property");
            o.seed = get("seed").parse().unwrap();
            o.thorough = get("tier") == "thorough";
            o.only = Some((get("section"), get("idx").parse().unwrap()));
        }
        // a program that looks at parsel inside the compiler
        Some("inside") => { std::fs::write(&a[4], crate::inside::program(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), &a[5..].iter().map(|x| x.parse().unwrap()).collect::<Vec<_>>())).unwrap(); std::process::exit(0) }
        _ => { eprintln!("usage: runner check Cxx [--tier quick|thorough] [--seed N] [--out FILE] [--dir DIR] | replay FILE"); std::process::exit(2) }
    }
    install_hook();
    let run = Run::new(o);
    let types: Vec<Ty> = crate::zoo::all().into_iter().chain(extra).map(Ty::new).collect();
    let mods: Vec<_> = crate::zoo::keyword_modules().into_iter().chain(mods).collect();
    if !crate::props::run(&run, &types, &mods) { eprintln!("unknown property {}", run.o.prop); std::process::exit(2) }
    std::process::exit(run.finish())
}
