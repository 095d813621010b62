//! C19: the outcome depends on the text and the options alone.
use super::api::Src;
use super::tree::rep;
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use std::cell::Cell;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::sync::Arc;
#[path = "../../../variants/src/outcome.rs"]
mod outcome;
use outcome::*;

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C19", c19)]
}

thread_local! {
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static RECORDS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
/// formats everything, for the threads that ask for it
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if LOGGING.with(|l| l.get()) {
            let mut s = String::new();
            let _ = write!(s, "{} {} {}", r.level(), r.target(), r.args());
            RECORDS.with(|x| x.set(x.get() + 1));
            BYTES.with(|x| x.set(x.get() + s.len() as u64));
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

/// what is parsed before, or next to it
fn busy(src: &Src, r: &mut Rng, o: &mut Obs) {
    for _ in 0..1 + r.n(4) {
        let (t, m, _) = src.text(r);
        if scan(&t).is_none() {
            continue;
        }
        arm(&t);
        let most = if r.pc(50) { usize::MAX } else { r.n(3) };
        let tolerant = r.pc(30);
        let module = r.pc(30) != m;
        let _ = std::panic::catch_unwind(|| {
            if let Ok(p) = ressa::Builder::new().module(module).tolerant(tolerant).js(t.as_str()).build() {
                for x in p.take(most.min(t.len() + 2)) {
                    if x.is_err() {
                        break;
                    }
                }
            }
        });
        o.feat("others");
    }
}
fn hex(s: &str) -> String {
    let mut o = String::with_capacity(s.len() * 2);
    for b in s.bytes() {
        let _ = write!(o, "{:02x}", b);
    }
    o
}
fn clip(s: &str) -> String {
    s.chars().take(3000).collect()
}
/// the outcomes of another build, one line per text
fn ask(cmd: &mut Command, texts: &[(String, bool, bool)]) -> Result<(Vec<String>, String), String> {
    let mut c = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let mut i = c.stdin.take().unwrap();
    let lines: String = texts.iter().map(|(t, m, k)| format!("{} {} {}\n", *m as u8, *k as u8, hex(t))).collect();
    let h = std::thread::spawn(move || {
        let _ = i.write_all(lines.as_bytes());
    });
    let out = c.wait_with_output().map_err(|e| e.to_string())?;
    let _ = h.join();
    let e = String::from_utf8_lossy(&out.stderr).to_string();
    let v: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect();
    if !out.status.success() {
        return Ok((v, format!("{}\n{}", out.status, e)));
    }
    Ok((v, String::new()))
}

fn c19(cfg: &Cfg, o: &mut Obs) -> Report {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    let src = Arc::new(Src::new(&cfg.root));
    cases(cfg, o, "again", cfg.n(60_000, 1_500_000), |o, r, _| {
        let (text, m0, kind) = src.text(r);
        if scan(&text).is_none() {
            o.skipped += 1;
            return Ok(());
        }
        let module = r.pc(10) != m0;
        let tolerant = r.pc(20);
        arm(&text);
        let base = outcome(&text, module, tolerant);
        let same = |how: &str, got: String| {
            if got != base {
                return Err(bug(
                    format!("the same text has another outcome: {}", how),
                    &text,
                    format!("[{} module={} tolerant={}]\nfirst {}\nthen  {}", kind, module, tolerant, clip(&base), clip(&got)),
                ));
            }
            Ok(())
        };
        if base.starts_with("panic") {
            return Err(bug("panic", &text, kind));
        }
        same("right after", outcome(&text, module, tolerant))?;
        // with every message of the log written
        RECORDS.with(|x| x.set(0));
        BYTES.with(|x| x.set(0));
        LOGGING.with(|l| l.set(true));
        let got = outcome(&text, module, tolerant);
        LOGGING.with(|l| l.set(false));
        o.add("log records", RECORDS.with(|x| x.get()));
        o.add("log bytes", BYTES.with(|x| x.get()));
        same("with logging", got)?;
        busy(&src, r, o);
        arm(&text);
        // other memory, other thread, others at work in between
        let copy = {
            let mut s = String::with_capacity(text.len() + 1 + r.n(4000));
            s.push_str(&text);
            s
        };
        same("after other texts", outcome(&copy, module, tolerant))?;
        if r.pc(12) {
            let t2 = copy.clone();
            let got = std::thread::Builder::new().stack_size(1 << 30).spawn(move || outcome(&t2, module, tolerant)).unwrap().join().unwrap();
            same("in a new thread", got)?;
            o.feat("new thread");
        }
        o.feat(kind);
        o.feat(if base.contains("\nerror: ") || base.starts_with("error: ") || base.starts_with("not built") { "error" } else { "valid" });
        o.seen(&text, true);
        Ok(())
    });
    // the same from everybody at once, started at the same moment
    cases(cfg, o, "at-once", cfg.n(300, 6_000), |o, r, _| {
        let mut ts = vec![];
        while ts.len() < 12 {
            let (t, m, _) = src.text(r);
            if scan(&t).is_some() {
                ts.push((t, m, r.pc(20)));
            }
        }
        let base: Vec<String> = ts.iter().map(|t| outcome(&t.0, t.1, t.2)).collect();
        let gate = std::sync::Barrier::new(6);
        let orders: Vec<Vec<usize>> = (0..6)
            .map(|_| {
                let mut v: Vec<usize> = (0..ts.len()).collect();
                for i in (1..v.len()).rev() {
                    v.swap(i, r.n(i + 1));
                }
                v
            })
            .collect();
        let (ts2, base2, gate2) = (&ts, &base, &gate);
        let res: Vec<Option<(usize, String)>> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .into_iter()
                .map(|ord| {
                    std::thread::Builder::new()
                        .stack_size(1 << 29)
                        .spawn_scoped(s, move || {
                            gate2.wait();
                            for k in ord {
                                let g = outcome(&ts2[k].0, ts2[k].1, ts2[k].2);
                                if g != base2[k] {
                                    return Some((k, g));
                                }
                            }
                            None
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for x in res.into_iter().flatten() {
            return Err(bug("the same text has another outcome: next to other threads", &ts[x.0].0, format!("alone {}\nthen  {}", clip(&base[x.0]), clip(&x.1))));
        }
        for t in &ts {
            o.seen(&t.0, true);
        }
        o.add("at once", 72);
        Ok(())
    });
    log::set_max_level(log::LevelFilter::Off);
    // other builds of the same code
    let v = format!("{}/target/variants", cfg.root);
    let builds: Vec<(&str, String, u64)> = vec![
        ("debug+debug_look_ahead", format!("{}/debug/outcomes", v), 1),
        ("release", format!("{}/release/outcomes", v), 2),
        ("address-sanitizer", format!("{}/target/asan/x86_64-unknown-linux-gnu/release/outcomes", cfg.root), 2),
    ];
    let per = 500;
    let nb = builds.len() as u64;
    cases(cfg, o, "builds", nb * cfg.n(60, 1200), |o, r, i| {
        let (name, bin, _) = &builds[(i % nb) as usize];
        if !std::path::Path::new(bin).exists() {
            o.skipped += per;
            return Ok(());
        }
        let mut ts = vec![];
        for _ in 0..per {
            let (t, m, _) = src.text(r);
            if scan(&t).is_some() {
                ts.push((t, m, r.pc(20)));
            } else {
                o.skipped += 1;
            }
        }
        let mut cmd = Command::new(bin);
        cmd.env_clear().env("PATH", "/usr/bin:/bin");
        if r.pc(50) {
            cmd.env("RUST_LOG", "trace").env("RUST_BACKTRACE", "full").env("LANG", "de_DE.UTF-8").env("TZ", "Asia/Kathmandu");
        }
        cmd.env("ASAN_OPTIONS", "detect_leaks=1:detect_stack_use_after_return=0:abort_on_error=0");
        compare(o, name, &mut cmd, &ts)
    });
    if cfg.thorough {
        // the interpreter that looks for undefined behaviour
        let dir = format!("{}/variants", cfg.root);
        let miri = || {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "-q", "--offline", "--manifest-path"]).arg(format!("{}/Cargo.toml", dir));
            c.env("CARGO_TARGET_DIR", format!("{}/target/miri", cfg.root)).env("MIRIFLAGS", "-Zmiri-disable-isolation").env_remove("RUSTUP_TOOLCHAIN").env("CARGO_NET_OFFLINE", "true");
            c
        };
        let there = ask(&mut miri(), &[]).map(|x| x.1.is_empty()).unwrap_or(false);
        if there {
            cases(cfg, o, "interpreter", 320, |o, r, _| {
                let mut ts = vec![];
                while ts.len() < 12 {
                    let (t, m, _) = src.text(r);
                    if t.len() < 200 && scan(&t).is_some() {
                        ts.push((t, m, r.pc(20)));
                    }
                }
                compare(o, "interpreter", &mut miri(), &ts)
            });
        }
    }
    rep(
        "a case counts when one text (with its options) had the same parts, error, comments and end in every repetition: at once, with every log message formatted, after other parses, in other memory, in other threads, and in other builds (debug with debug_look_ahead, plain release, address sanitizer; in the thorough tier also Miri); distinct by text",
        &["others", "log records", "new thread", "valid", "error", "at once", "build debug+debug_look_ahead", "build release"],
        60_000,
    )
}
fn compare(o: &mut Obs, name: &str, cmd: &mut Command, ts: &[(String, bool, bool)]) -> Result<(), Bug> {
    let (got, err) = ask(cmd, ts).map_err(|e| bug(format!("the build {} does not run: {}", name, e), "", ""))?;
    for (k, (t, m, tol)) in ts.iter().enumerate() {
        let want = outcome(t, *m, *tol);
        match got.get(k) {
            Some(g) if *g == format!("{:016x}", digest(&want)) => {
                o.seen(t, true);
                o.feat(&format!("build {}", name));
            }
            Some(_) => {
                return Err(bug(format!("another outcome in another build ({})", name), t, format!("module={} tolerant={}\nhere {}", m, tol, clip(&want))));
            }
            None => {
                return Err(bug(format!("the build {} stops with this text", name), t, format!("module={} tolerant={}\n{}", m, tol, clip(&err))));
            }
        }
    }
    if !err.is_empty() {
        return Err(bug(format!("the build {} reports an error", name), &ts.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join("\n---\n"), clip(&err)));
    }
    Ok(())
}
