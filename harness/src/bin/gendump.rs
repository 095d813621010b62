// dev: gendump N SEED [MODULE] -> N generated programs, one per line: ok|... text(json-escaped) \t sx
use rmon::{gen::*, rng::*, sexp, tok::*};
use std::panic::*;
fn main() {
    set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let n: u64 = a[1].parse().unwrap();
    let seed: u64 = a[2].parse().unwrap();
    let dump = a.get(3).map(|s| s == "dump").unwrap_or(false);
    let mut bad = 0;
    let mut skip = 0;
    std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
    for i in 0..n {
        let mut prof = Prof::default();
        prof.import_call = a.get(4).is_none();
        prof.names_pc = if i % 3 == 0 { 30 } else { 6 };
        let mut g = Gen::new(Rng::new(seed, "gd", i), prof);
        let pr = g.program();
        let mut r = Rng::new(seed, "gdr", i);
        let st = if i % 2 == 0 { PLAIN } else { Style { nl: 10, cm: 6, elide: 60, tight: 60, exotic: false } };
        let tx = render(&pr.toks, &mut r, &st, !pr.module);
        if dump {
            let j = format!("{:?}", tx.text);
            println!("{}\t{}\t{}\t{}", i, if pr.module { "module" } else { "script" }, hex(&tx.text), hex(&pr.parts.join("\n\u{1}")));
            let _ = j;
            continue;
        }
        if !pre(&tx) { skip += 1; continue; }
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<String>, String> {
            let p = ressa::Builder::new().module(pr.module).js(tx.text.as_str()).build().map_err(|e| e.to_string())?;
            let mut v = vec![];
            for x in p { v.push(sexp::part(&x.map_err(|e| e.to_string())?)); }
            Ok(v)
        }));
        let msg = match res {
            Err(_) => "PANIC".to_string(),
            Ok(Err(e)) => format!("ERR {}", e),
            Ok(Ok(v)) => if v == pr.parts { continue } else { let k = (0..v.len().max(pr.parts.len())).find(|k| v.get(*k) != pr.parts.get(*k)).unwrap(); format!("DIFF part {}\n  got {:?}\n  exp {:?}", k, v.get(k), pr.parts.get(k)) },
        };
        bad += 1;
        println!("=== {} {} {}\n{}\n", i, if pr.module {"module"} else {"script"}, msg, tx.text);
    }
    eprintln!("bad {} skip {} of {}", bad, skip, n);
    }).unwrap().join().unwrap();
}
fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
fn pre(t: &Text) -> bool {
    let exp: Vec<(usize, usize)> = t.spans.iter().map(|s| (s.0, s.1)).collect();
    let txt = t.text.clone();
    match catch_unwind(move || {
        let mut v = vec![];
        for i in ress::refs::RefScanner::new(txt) { if i.token.is_comment() || i.token.is_eof() { continue; } v.push((i.span.start, i.span.end)); }
        v
    }) { Ok(v) => v == exp, Err(_) => false }
}
