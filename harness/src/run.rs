//! Runner: deterministic cases over worker threads, watchdog, memory accounting,
//! violation / replay files and the evidence report.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::*;
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- memory monitor
pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
static LIVE: AtomicI64 = AtomicI64::new(0);
/// the whole process may not hold more than this
const LIMIT: i64 = 12 << 30;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as u64));
        if l.size() >= 4096 && LIVE.fetch_add(l.size() as i64, Ordering::Relaxed) > LIMIT {
            libc_abort();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= 4096 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
        if l.size() >= 4096 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        if n >= 4096 && LIVE.fetch_add(n as i64, Ordering::Relaxed) > LIMIT {
            libc_abort();
        }
        System.realloc(p, l, n)
    }
}
fn libc_abort() -> ! {
    std::process::abort()
}
/// (allocations, bytes) asked for by this thread so far
pub fn allocated() -> (u64, u64) {
    (ALLOCS.with(|c| c.get()), BYTES.with(|c| c.get()))
}

// ---------------------------------------------------------------- configuration
#[derive(Clone)]
pub struct Cfg {
    pub check: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub root: String,
    pub start: Instant,
    pub deadline: Instant,
}
impl Cfg {
    /// number of cases for the tier (RMON_SCALE: a fraction of them, for mutation runs)
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        match std::env::var("RMON_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((n as f64 * f) as u64).max(1),
            None => n,
        }
    }
    pub fn tmp(&self) -> String {
        let d = format!("{}/target/tmp-{}-{}", self.root, self.check, std::process::id());
        let _ = std::fs::create_dir_all(&d);
        d
    }
}

#[derive(Clone, Debug)]
pub struct Bug {
    pub what: String,
    pub text: String,
    pub detail: String,
}
pub fn bug(what: impl Into<String>, text: &str, detail: impl Into<String>) -> Bug {
    Bug { what: what.into(), text: text.into(), detail: detail.into() }
}

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub skipped: u64,
    pub trivial: u64,
    pub distinct: HashSet<u64>,
    pub feats: BTreeMap<String, u64>,
    pub pairs: HashSet<u32>,
    pub samples: Vec<String>,
    pub bugs: Vec<(String, u64, Bug)>,
    pub known: BTreeMap<String, u64>,
    pub max: BTreeMap<String, f64>,
}
pub fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
impl Obs {
    pub fn feat(&mut self, f: &str) {
        self.add(f, 1);
    }
    pub fn add(&mut self, f: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.feats.get_mut(f) {
            Some(x) => *x += n,
            None => {
                self.feats.insert(f.to_string(), n);
            }
        }
    }
    pub fn maxf(&mut self, f: &str, v: f64) {
        let e = self.max.entry(f.to_string()).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    /// count a case that really was observed
    pub fn seen(&mut self, text: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            if self.distinct.insert(hash(text)) && self.samples.len() < 2 && text.len() < 400 {
                self.samples.push(text.to_string());
            }
        } else {
            self.trivial += 1;
        }
    }
    pub fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.skipped += o.skipped;
        self.trivial += o.trivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.feats {
            *self.feats.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.max {
            self.maxf(&k, v);
        }
        self.pairs.extend(o.pairs);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.bugs.extend(o.bugs);
    }
}

// ---------------------------------------------------------------- watchdog
pub const WORKERS: usize = 8;
static SLOT_START: [AtomicU64; WORKERS] = [const { AtomicU64::new(0) }; WORKERS];
static SLOT_IDX: [AtomicU64; WORKERS] = [const { AtomicU64::new(0) }; WORKERS];
static SLOT_TEXT: [Mutex<String>; WORKERS] = [const { Mutex::new(String::new()) }; WORKERS];
thread_local! {
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}
static CASE_SECONDS: AtomicU64 = AtomicU64::new(30);

/// remember the text given to the parser, should it never come back
pub fn arm(text: &str) {
    WORKER.with(|w| {
        if w.get() < WORKERS {
            if let Ok(mut s) = SLOT_TEXT[w.get()].lock() {
                s.clear();
                s.push_str(text);
            }
        }
    });
}

pub fn replay_dir(cfg: &Cfg) -> String {
    let d = format!("{}/evidence/replay", cfg.root);
    let _ = std::fs::create_dir_all(&d);
    d
}
pub fn write_replay(cfg: &Cfg, stream: &str, idx: u64, b: &Bug) -> String {
    let p = format!("{}/{}-{}-{}-{}.txt", replay_dir(cfg), cfg.check, cfg.seed, stream, idx);
    let mut s = String::new();
    s.push_str(&format!(
        "check {}\nseed {}\ntier {}\nstream {}\nidx {}\n",
        cfg.check,
        cfg.seed,
        if cfg.thorough { "thorough" } else { "quick" },
        stream,
        idx
    ));
    s.push_str(&format!("--- what\n{}\n--- detail\n{}\n--- text\n{}\n", b.what, b.detail, b.text));
    let _ = std::fs::write(&p, s);
    p
}

fn now_ms(cfg: &Cfg) -> u64 {
    cfg.start.elapsed().as_millis() as u64 + 1
}

/// Run `n` cases of one stream on all workers.
pub fn cases<F>(cfg: &Cfg, obs: &mut Obs, stream: &str, n: u64, f: F)
where
    F: Fn(&mut Obs, &mut Rng, u64) -> Result<(), Bug> + Sync,
{
    let (lo, hi) = match &cfg.only {
        Some((s, i)) if s == stream => (*i, *i + 1),
        Some(_) => return,
        None => (0, n),
    };
    cases_raw(cfg, obs, stream, lo, hi, f)
}

/// Run the cases lo..hi.
pub fn cases_raw<F>(cfg: &Cfg, obs: &mut Obs, stream: &str, lo: u64, hi: u64, f: F)
where
    F: Fn(&mut Obs, &mut Rng, u64) -> Result<(), Bug> + Sync,
{
    let next = AtomicU64::new(lo);
    let stop = AtomicBool::new(false);
    let found = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let results: Mutex<Vec<Obs>> = Mutex::new(vec![]);
    let status = format!("{}/target/inflight-{}", cfg.root, cfg.check);
    let status = std::fs::OpenOptions::new().create(true).write(true).open(&status).ok();
    std::thread::scope(|sc| {
        for w in 0..WORKERS {
            let (next, stop, found, results, f, done, status) = (&next, &stop, &found, &results, &f, &done, &status);
            let r = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, move || {
                WORKER.with(|c| c.set(w));
                let mut o = Obs::default();
                let mut batch = (0, 0);
                loop {
                    if batch.0 >= batch.1 {
                        let k = if hi - lo > 2000 { 16 } else { 1 };
                        let b = next.fetch_add(k, Ordering::SeqCst);
                        batch = (b, (b + k).min(hi));
                        if b >= hi || stop.load(Ordering::Relaxed) || (b > lo + 400 && Instant::now() > cfg.deadline) {
                            break;
                        }
                    }
                    let i = batch.0;
                    batch.0 += 1;
                    SLOT_IDX[w].store(i, Ordering::SeqCst);
                    SLOT_START[w].store(now_ms(cfg), Ordering::SeqCst);
                    if let Some(fd) = status {
                        use std::os::unix::fs::FileExt;
                        let _ = fd.write_at(format!("{:<24} {:<20}\n", stream, i).as_bytes(), (w * 46) as u64);
                    }
                    let mut r = Rng::new(cfg.seed, &format!("{}/{}", cfg.check, stream), i);
                    let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut o, &mut r, i))) {
                        Ok(r) => r,
                        Err(e) => Err(bug(format!("the monitor or the parser panicked: {}", panic_text(&e)), &SLOT_TEXT[w].lock().map(|s| s.clone()).unwrap_or_default(), "")),
                    };
                    SLOT_START[w].store(0, Ordering::SeqCst);
                    if let Err(b) = res {
                        o.bugs.push((stream.to_string(), i, b));
                        if found.fetch_add(1, Ordering::SeqCst) >= bug_limit() {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
                WORKER.with(|c| c.set(usize::MAX));
                done.fetch_add(1, Ordering::SeqCst);
                results.lock().unwrap().push(o);
            });
            r.expect("spawn");
        }
        // watchdog
        let (done, f_stream) = (&done, stream);
        sc.spawn(move || {
            while done.load(Ordering::SeqCst) < WORKERS as u64 {
                std::thread::sleep(Duration::from_millis(20));
                let now = now_ms(cfg);
                if LIVE.load(Ordering::Relaxed) > LIMIT / 2 {
                    // the case that has been under way for the longest time
                    let w = (0..WORKERS).filter(|w| SLOT_START[*w].load(Ordering::SeqCst) != 0).min_by_key(|w| SLOT_START[*w].load(Ordering::SeqCst)).unwrap_or(0);
                    let text = SLOT_TEXT[w].lock().map(|s| s.chars().take(20_000).collect::<String>()).unwrap_or_default();
                    let b = bug("the memory in use grows without end", &text, "");
                    let p = write_replay(cfg, f_stream, SLOT_IDX[w].load(Ordering::SeqCst), &b);
                    println!("what: {}", b.what);
                    println!("VIOLATION property={} replay={}", cfg.check, p);
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
                for w in 0..WORKERS {
                    let st = SLOT_START[w].load(Ordering::SeqCst);
                    if st != 0 && now > st + CASE_SECONDS.load(Ordering::SeqCst) * 1000 {
                        let text = SLOT_TEXT[w].lock().map(|s| s.clone()).unwrap_or_default();
                        let idx = SLOT_IDX[w].load(Ordering::SeqCst);
                        let b = bug("no result after 30 seconds (non-termination)", &text, "");
                        let p = write_replay(cfg, f_stream, idx, &b);
                        println!("what: {}", b.what);
                        println!("VIOLATION property={} replay={}", cfg.check, p);
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    for o in results.into_inner().unwrap() {
        obs.merge(o);
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

// ---------------------------------------------------------------- report
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || c == '\u{2028}' || c == '\u{2029}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Report {
    pub rule: String,
    pub assumptions: Vec<String>,
    /// features that must have been observed for the run to count
    pub must_see: Vec<String>,
    pub min_distinct: u64,
}

/// Write the evidence and decide the exit code.
pub fn report(cfg: &Cfg, mut obs: Obs, rep: Report) -> i32 {
    let wall = cfg.start.elapsed().as_secs_f64();
    obs.bugs.sort_by(|a, b| (a.2.text.len(), &a.0, a.1).cmp(&(b.2.text.len(), &b.0, b.1)));
    let mut e = String::from("{\n");
    e.push_str(&format!(
        " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n",
        js(&cfg.check),
        js(if cfg.thorough { "thorough" } else { "quick" }),
        cfg.seed
    ));
    e.push_str(" \"coverage\": {\n");
    e.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", obs.evals, obs.distinct.len()));
    e.push_str(&format!("  \"rule\": {},\n", js(&rep.rule)));
    e.push_str(&format!("  \"trivial\": {},\n  \"skipped_outside_tokenizer_domain\": {},\n", obs.trivial, obs.skipped));
    e.push_str(&format!("  \"distinct_parent_child_pairs\": {},\n", obs.pairs.len()));
    e.push_str("  \"observed\": {");
    for (i, (k, v)) in obs.feats.iter().enumerate() {
        e.push_str(&format!("{}\n   {}: {}", if i > 0 { "," } else { "" }, js(k), v));
    }
    e.push_str("\n  },\n  \"maxima\": {");
    for (i, (k, v)) in obs.max.iter().enumerate() {
        e.push_str(&format!("{}\n   {}: {}", if i > 0 { "," } else { "" }, js(k), v));
    }
    e.push_str("\n  },\n  \"samples\": [");
    for (i, s) in obs.samples.iter().enumerate() {
        e.push_str(&format!("{}\n   {}", if i > 0 { "," } else { "" }, js(s)));
    }
    e.push_str("\n  ]\n },\n \"assumptions\": [");
    for (i, s) in rep.assumptions.iter().enumerate() {
        e.push_str(&format!("{}\n  {}", if i > 0 { "," } else { "" }, js(s)));
    }
    e.push_str(&format!("\n ],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n", wall, obs.bugs.len()));
    if cfg.only.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.root));
        std::fs::write(format!("{}/evidence/{}.json", cfg.root, cfg.check), e).expect("evidence");
    }
    for (k, n) in known_findings(cfg) {
        println!("KNOWN-FINDING: property={} {} ({})", cfg.check, k, n);
    }
    for (k, n) in &obs.known {
        println!("(left aside as known: {}, {} times)", k, n);
    }
    println!(
        "{} {}: {} evaluations, {} distinct, {} skipped, {} kinds of events, {:.1}s",
        cfg.check,
        if cfg.thorough { "thorough" } else { "quick" },
        obs.evals,
        obs.distinct.len(),
        obs.skipped,
        obs.feats.len(),
        wall
    );
    if !obs.bugs.is_empty() {
        for (i, (stream, idx, b)) in obs.bugs.iter().take(5.max(bug_limit() as usize / 20)).enumerate() {
            println!("what: {}", b.what.chars().take(600).collect::<String>());
            if i == 0 {
                println!("detail: {}", b.detail.chars().take(1200).collect::<String>());
                println!("input: {}", js(&b.text.chars().take(600).collect::<String>()));
            }
            let p = if cfg.only.is_none() { write_replay(cfg, stream, *idx, b) } else { "(replayed)".into() };
            println!("VIOLATION property={} replay={}", cfg.check, p);
        }
        return 1;
    }
    if cfg.only.is_none() {
        let mut missing: Vec<&String> = rep.must_see.iter().filter(|f| !obs.feats.contains_key(*f)).collect();
        missing.sort();
        if !missing.is_empty() {
            println!("ERROR: the run never observed {:?}", missing);
            return 2;
        }
        if (obs.distinct.len() as u64) < rep.min_distinct {
            println!("ERROR: the run observed only {} distinct cases", obs.distinct.len());
            return 2;
        }
    }
    0
}
/// the recorded findings of this property that still fail: (what, text)
fn known_findings(cfg: &Cfg) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{}/known-findings.txt", cfg.root)).unwrap_or_default().lines() {
        let rest = match l.strip_prefix("finding: ") {
            Some(r) => r,
            None => continue,
        };
        let (head, what) = match rest.split_once(" :: ") {
            Some(x) => x,
            None => continue,
        };
        if !head.starts_with(&format!("property={} ", cfg.check)) {
            continue;
        }
        let text = match head.split_once(" text=") {
            Some((_, t)) => t,
            None => continue,
        };
        let text = text.trim().trim_start_matches('"').trim_end_matches('"').replace("\\n", "\n").replace("\\\"", "\"");
        let g = crate::oracle::parse(&text, head.contains("module=true"));
        if g.ok() != head.contains("want=accept") {
            v.push((what.to_string(), js(&text)));
        }
    }
    v
}
fn bug_limit() -> u64 {
    std::env::var("RMON_BUGS").ok().and_then(|s| s.parse().ok()).unwrap_or(20)
}
