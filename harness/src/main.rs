mod engine;
mod refmpq;
mod props;
mod ptrace;

use engine::*;
use std::process::Command;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: mc <ID> [quick|thorough] [--case KEY]");
        std::process::exit(2);
    }
    if let Some(code) = props::helper(&args) {
        std::process::exit(code);
    }
    let id = args[0].clone();
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "quick" => thorough = false,
            "thorough" => thorough = true,
            "--case" => {
                i += 1;
                only = args.get(i).cloned();
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    if std::env::var("MC_CHILD").is_ok() {
        install_panic_hook();
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
        let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&id, thorough, only)));
        ctx.watchdog();
        match guarded(|| props::run(ctx)) {
            Ok(true) => {}
            Ok(false) => {
                eprintln!("unknown property {}", id);
                std::process::exit(2);
            }
            Err(m) => {
                eprintln!("check error: {}", m);
                std::process::exit(3);
            }
        }
        std::process::exit(ctx.finish());
    }
    // supervisor
    let base = if std::path::Path::new("/dev/shm").is_dir() && std::env::var("MC_TMP").is_err() {
        "/dev/shm".to_string()
    } else {
        std::env::var("MC_TMP").unwrap_or_else(|_| "/tmp".into())
    };
    let scratch = std::path::PathBuf::from(base).join(format!("mopaq-mc-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).expect("scratch");
    let start = std::time::Instant::now();
    let st = Command::new(std::env::current_exe().unwrap())
        .args(&args)
        .env("MC_CHILD", "1")
        .env("MC_SCRATCH", &scratch)
        .status()
        .expect("spawn");
    let code = match st.code() {
        Some(c) => c,
        None => {
            use std::os::unix::process::ExitStatusExt;
            let sig = st.signal().unwrap_or(0);
            let running = read_progress(&scratch.join("progress"));
            let ended = std::fs::read_to_string("/root/.vp/ended.log").unwrap_or_default();
            if running.is_empty() || (sig == 9 && ended.contains(&format!("{}", std::process::id()))) {
                eprintln!("worker ended by signal {} outside any case", sig);
                4
            } else {
                let v: Vec<Violation> = vec![Violation {
                    key: running[0].clone(),
                    msg: format!("the process was killed by signal {} while executing: {}", sig, running.join(" | ")),
                }];
                write_evidence(
                    &id,
                    &serde_json::json!({"property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": 1, "level": "exploration",
                    "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "aborted", "samples": running}, "wall_s": start.elapsed().as_secs_f64(), "violations": 1}),
                );
                report(&id, &v, thorough);
                1
            }
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}
