use rmon::{checks, run::*};
use std::time::{Duration, Instant};
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("RMON_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            if a.get(3).map(|s| s == "thorough").unwrap_or(false) {
                thorough = true;
            }
            if a.get(3).map(|s| s == "quick").unwrap_or(false) {
                thorough = false;
            }
            std::process::exit(parent(&root, &a[2], seed, thorough));
        }
        Some("child") => std::process::exit(child(&root, &a[2], seed, a[3] == "thorough", None)),
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).expect("replay file");
            let f = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{} ", k)).map(|x| x.trim().to_string())).unwrap_or_default();
            let only = Some((f("stream"), f("idx").parse().unwrap_or(0)));
            std::process::exit(child(&root, &f("check"), f("seed").parse().unwrap_or(1), f("tier") == "thorough", only));
        }
        Some("list") => {
            for (n, _) in checks::all() {
                println!("{}", n);
            }
        }
        _ => {
            eprintln!("rmon check C01 [quick|thorough] | rmon replay FILE | rmon list");
            std::process::exit(2);
        }
    }
}
fn child(root: &str, check: &str, seed: u64, thorough: bool, only: Option<(String, u64)>) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    let cap = if thorough { 600 } else { 150 };
    let cfg = Cfg { check: check.into(), seed, thorough, only, root: root.into(), start, deadline: start + Duration::from_secs(cap) };
    let f = match checks::all().into_iter().find(|c| c.0 == check) {
        Some(f) => f.1,
        None => {
            eprintln!("no such check {}", check);
            return 2;
        }
    };
    let mut obs = Obs::default();
    // the check itself runs on a big stack as well
    let c2 = cfg.clone();
    let (rep, obs) = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let rep = f(&c2, &mut obs);
            (rep, obs)
        })
        .unwrap()
        .join()
        .unwrap_or_else(|e| {
            println!("ERROR: the monitor failed: {}", panic_text(&e));
            std::process::exit(2);
        });
    report(&cfg, obs, rep)
}
/// The workload runs in a child process, so that a crash of the whole process
/// (stack overflow, abort, out of memory) is observed and attributed to its input.
fn parent(root: &str, check: &str, seed: u64, thorough: bool) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let inflight = format!("{}/target/inflight-{}", root, check);
    let _ = std::fs::remove_file(&inflight);
    let st = std::process::Command::new(exe)
        .args(&["child", check, if thorough { "thorough" } else { "quick" }])
        .env("VERIF_SEED", seed.to_string())
        .status()
        .expect("child");
    use std::os::unix::process::ExitStatusExt;
    match st.code() {
        Some(c) => c,
        None => {
            let sig = st.signal().unwrap_or(0);
            if sig == 9 || sig == 15 {
                println!("ERROR: the workload was ended from outside (signal {})", sig);
                return 2;
            }
            let s = std::fs::read_to_string(&inflight).unwrap_or_default();
            let dir = format!("{}/evidence/replay", root);
            let _ = std::fs::create_dir_all(&dir);
            let p = format!("{}/{}-{}-crash.txt", dir, check, seed);
            let _ = std::fs::write(&p, format!("check {}\nseed {}\ntier {}\n--- what\nprocess ended by signal {}\n--- cases under way (stream, index), one of them did it\n{}", check, seed, if thorough { "thorough" } else { "quick" }, sig, s));
            println!("what: the process that ran the parser was ended by signal {}", sig);
            println!("VIOLATION property={} replay={}", check, p);
            1
        }
    }
}
