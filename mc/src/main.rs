mod checks;
mod drv;
mod engine;
mod json;
mod oracle;
mod pty;
mod rig;
mod sys;
mod vfs;
mod vt;

fn main() {
    if std::env::var_os("MC_WORKER").is_some() {
        engine::worker_main();
    }
    let a: Vec<String> = std::env::args().collect();
    let tier = match a.get(3).map(|s| s.as_str()).or(std::env::var("VERIF_TIER").ok().as_deref()) {
        Some("thorough") => engine::Tier::Thorough,
        _ => engine::Tier::Quick,
    };
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(id)) => match checks::find(id) {
            Some(c) => engine::run_check(c, tier),
            None => engine::engine_error("no such check"),
        },
        (Some("replay"), Some(f)) => engine::replay_file(f),
        (Some("list"), _) => {
            for c in checks::ALL {
                println!("{} {}", c.id(), c.level());
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | mc replay FILE | mc list");
            2
        }
    };
    std::process::exit(code);
}
