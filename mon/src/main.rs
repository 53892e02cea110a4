#![allow(dead_code)]
mod checks;
mod client;
mod ctl;
mod http;
mod lin;
mod proto;
mod report;
mod rng;
mod run;
mod server;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let bin = std::env::var("NEXO_BIN").unwrap_or_else(|_| format!("{}/target/server/debug/nexo", root));
    let lib = format!("{}/target/libchaos.so", root);
    if a.len() < 2 {
        eprintln!("usage: nexo-mon <property> [--only <scenario> <seed>]");
        std::process::exit(2);
    }
    let only = if a.len() >= 4 && a[2] == "--only" { Some((a[3].clone(), a.get(4).and_then(|s| s.parse().ok()).unwrap_or(0))) } else { None };
    let spec = match checks::spec(&a[1]) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", a[1]);
            std::process::exit(2);
        }
    };
    if let Err(e) = server::init_scratch(&bin, &lib) {
        eprintln!("scratch: {}", e);
        std::process::exit(2);
    }
    if std::env::var("MON_V").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let rc = run::run(&a[1], spec, &root, only);
    if std::env::var("MON_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(server::scratch_root());
    }
    std::process::exit(rc);
}
