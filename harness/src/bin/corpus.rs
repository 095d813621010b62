// dev: corpus REFFILE -> compare
use rmon::*;
use std::sync::{Arc, Mutex, atomic::*};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let reff = std::env::args().nth(1).unwrap();
    let txt = std::fs::read_to_string(reff).unwrap();
    let lines: Arc<Vec<String>> = Arc::new(txt.lines().map(|s| s.to_string()).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for _ in 0..8 {
        let (lines, next, out) = (lines.clone(), next.clone(), out.clone());
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= lines.len() { break; }
            let f: Vec<&str> = lines[i].split('\t').collect();
            if f[1] == "-" { continue; }
            let text = match std::fs::read_to_string(f[0]) { Ok(t) => t, Err(_) => continue };
            let r = corpus::compare(&text, f[1] == "module", f[2], f[3]);
            out.lock().unwrap().push((f[0].to_string(), text.len(), r));
        }).unwrap());
    }
    for h in hs { h.join().unwrap(); }
    let out = out.lock().unwrap();
    let mut cnt = std::collections::BTreeMap::new();
    for (p, l, r) in out.iter() {
        *cnt.entry(r.class()).or_insert(0usize) += 1;
        if r.class() == "err" || r.class() == "panic" || r.class()=="mismatch" { println!("{}\t{}\t{}", r.show(), l, p); }
    }
    eprintln!("{:?}", cnt);
}
