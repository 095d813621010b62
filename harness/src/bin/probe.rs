use std::io::Read;
fn main() {
    let mut module = false; let mut tol = false; let mut toks=false; let mut srcs = vec![];
    for a in std::env::args().skip(1) {
        match a.as_str() { "-m" => module = true, "-t" => tol = true, "-k" => toks = true,
          "-" => { let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap(); srcs.push(s);} _ => srcs.push(a.replace("\\n","\n").replace("\\r","\r")) }
    }
    std::panic::set_hook(Box::new(|_| {}));
    for s in srcs {
        println!("=== {:?}", s);
        if toks { let s2=s.clone(); let r = std::panic::catch_unwind(move || { for i in ress::refs::RefScanner::new(s2) { println!("   {:?}", i); } }); if r.is_err() {println!("   SCANPANIC");} }
        let r = std::panic::catch_unwind(|| {
            let p = ressa::Builder::new().module(module).tolerant(tol).js(s.clone()).build();
            match p { Ok(p) => { let mut n=0; for part in p { println!("  {:?}", part); n+=1; if part.is_err() || n>50 {break;} } } Err(e) => println!("  BUILD ERR {:?}", e) }
        });
        if let Err(e) = r { println!("  PANIC {:?}", e.downcast_ref::<String>().map(|s|s.as_str()).or(e.downcast_ref::<&str>().copied())); }
    }
}
