//! Differential observation against the reference parser (acorn): verdict and tree.
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use crate::tok::Text;

#[derive(Clone, Debug)]
pub struct Dt {
    pub text: String,
    pub module: bool,
    pub label: String,
}

/// What the property does not speak about: rules over names and literal contents that
/// this parser does not implement, recognised by the message of the reference parser.
pub fn outside(msg: &str, text: &str, off: usize) -> Option<&'static str> {
    let has = |x: &str| msg.contains(x);
    if has("already been declared") {
        return Some("duplicate declaration");
    }
    if has("Argument name clash") {
        return Some("duplicate parameter");
    }
    if has("is not defined in the file") || has("is not defined (") || (msg.starts_with("Export '") && has("not defined")) {
        return Some("undefined export");
    }
    if has("Duplicate export") {
        return Some("duplicate export");
    }
    if has("regular expression") || has("octal") || has("Octal") || has("escape") || has("Invalid number") || has("Identifier directly after number") {
        return Some("literal contents");
    }
    if has("let is disallowed as a lexically bound name") {
        // the language says so of let and const only
        let b = before_trivia(text.get(..off).unwrap_or(""));
        if before_trivia(b.trim_end_matches('*')).ends_with("function") {
            return Some("reference parser: function named let");
        }
    }
    if has("let is disallowed as a lexically bound name") && text.get(..off).unwrap_or("").contains("catch") {
        // the language allows it in the pattern of a catch clause
        return Some("reference parser: let in the pattern of a catch clause");
    }
    if has("Unexpected keyword") && before_trivia(text.get(..off).unwrap_or("")).ends_with("let") {
        // the reference parser reads every `let` before a word as a declaration, the
        // language only one before a name
        return Some("reference parser: let before a keyword");
    }
    // function without a name as a statement: pinned by the existing tests
    let before = text.get(..off).unwrap_or("").trim_end();
    if has("Unexpected token") && text.get(off..).map(|s| s.starts_with('(')).unwrap_or(false) {
        let b = before.trim_end_matches('*').trim_end();
        if b.ends_with("function") {
            return Some("known: a function statement without a name is accepted (pinned by the existing tests)");
        }
    }
    None
}

/// the text up to the last token
pub fn before_trivia(s: &str) -> &str {
    let mut s = s;
    loop {
        let t = s.trim_end();
        if t.ends_with("*/") {
            if let Some(i) = t.rfind("/*") {
                s = &t[..i];
                continue;
            }
        }
        let l = t.rfind(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')).map(|i| i + 1).unwrap_or(0);
        if let Some(i) = t[l..].find("//") {
            s = &t[..l + i];
            continue;
        }
        return t;
    }
}

/// Generate texts, ask the reference parser about all of them, compare.
pub fn diff<F>(cfg: &Cfg, o: &mut Obs, stream: &str, n: u64, gen: F)
where
    F: Fn(&mut Rng, u64) -> Option<Dt> + Sync,
{
    let (lo, hi) = match &cfg.only {
        Some((s, i)) if s == stream => (*i, *i + 1),
        Some(_) => return,
        None => (0, n),
    };
    const CHUNK: u64 = 80_000;
    let mut at = lo;
    while at < hi {
        let end = (at + CHUNK).min(hi);
        if at > lo && std::time::Instant::now() > cfg.deadline {
            break;
        }
        // deterministic texts, in parallel
        let k = WORKERS as u64;
        let per = (end - at + k - 1) / k;
        let mut all: Vec<(u64, Dt)> = vec![];
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..k)
                .map(|w| {
                    let gen = &gen;
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn_scoped(sc, move || {
                            let mut v = vec![];
                            for i in (at + w * per)..(at + (w + 1) * per).min(end) {
                                let mut r = Rng::new(cfg.seed, &format!("{}/{}", cfg.check, stream), i);
                                if let Some(d) = gen(&mut r, i) {
                                    v.push((i, d));
                                }
                            }
                            v
                        })
                        .unwrap()
                })
                .collect();
            for h in hs {
                all.extend(h.join().unwrap());
            }
        });
        let mut seen = std::collections::HashSet::new();
        all.retain(|(_, d)| seen.insert((d.text.clone(), d.module)));
        let texts: Vec<(String, bool)> = all.iter().map(|(_, d)| (d.text.clone(), d.module)).collect();
        let refs = match reference(&cfg.root, &cfg.tmp(), &texts) {
            Ok(r) => r,
            Err(e) => {
                println!("ERROR: {}", e);
                std::process::exit(2);
            }
        };
        let index: std::collections::HashMap<u64, usize> = all.iter().enumerate().map(|(k, (i, _))| (*i, k)).collect();
        let (all, refs, index) = (&all, &refs, &index);
        let sub = Cfg { only: None, ..cfg.clone() };
        let base = at;
        cases_raw(&sub, o, stream, base, end, move |o, _r, i| {
            let k = match index.get(&i) {
                Some(k) => *k,
                None => return Ok(()),
            };
            judge(o, &all[k].1, &refs[k])
        });
        at = end;
    }
}

pub fn judge(o: &mut Obs, d: &Dt, v: &Ref) -> Result<(), Bug> {
    let g = parse(&d.text, d.module);
    if let Some(p) = &g.panic {
        return Err(bug(format!("panic: {}", p), &d.text, format!("{} module={}", d.label, d.module)));
    }
    match v {
        Ref::Accept(parts) => {
            if !g.ok() && rejected_by_engine(&d.text, d.module) {
                // the reference parser is known to miss some early errors
                o.feat("outside.the engine rejects what the reference parser accepts");
                return Ok(());
            }
            if let Err(mut b) = same(&d.text, &g, parts) {
                b.detail = format!("[{} module={}] {}", d.label, d.module, b.detail);
                return Err(b);
            }
            o.feat("both.accept");
        }
        Ref::Reject(msg, off) => {
            if g.ok() {
                if let Some(why) = outside(msg, &d.text, *off) {
                    match why.strip_prefix("known: ") {
                        Some(k) => *o.known.entry(k.to_string()).or_insert(0) += 1,
                        None => o.feat(&format!("outside.{}", why)),
                    }
                    return Ok(());
                }
                return Err(bug(format!("malformed program accepted; the reference parser says: {}", msg), &d.text, format!("[{} module={}] {}", d.label, d.module, g.parts.join(" "))));
            }
            o.feat("both.reject");
        }
    }
    o.feat(&d.label);
    o.seen(&d.text, true);
    Ok(())
}

// ---------------------------------------------------------------- seed texts
/// a seed cut into (trivia before, token)
pub type Cut = Vec<(String, String)>;
pub struct Seeds {
    pub texts: Vec<(String, bool)>,
    pub cuts: Vec<(Cut, bool)>,
    pub pool: Vec<String>,
}
pub fn seeds(root: &str) -> Seeds {
    let mut s = Seeds { texts: vec![], cuts: vec![], pool: vec![] };
    for (f, m) in [("script", false), ("module", true)].iter() {
        let t = std::fs::read_to_string(format!("{}/seeds/{}.txt", root, f)).expect("seeds");
        for l in t.lines() {
            if l.is_empty() {
                continue;
            }
            let t = l.replace("\\n", "\n");
            s.texts.push((t.clone(), *m));
            if let Some(c) = cut(&t) {
                if c.iter().all(|x| !x.1.starts_with('`') && !x.1.starts_with('/') && !x.1.ends_with('`') && !x.1.ends_with("${") && !x.1.contains('\\')) && !c.is_empty() {
                    s.pool.extend(c.iter().map(|x| x.1.clone()));
                    s.cuts.push((c, *m));
                }
            }
        }
    }
    s
}
/// None when there are comments or the tokenizer fails
pub fn cut(t: &str) -> Option<Cut> {
    let v = scan(t)?;
    let mut p = 0;
    let mut c = vec![];
    for k in v {
        if k.eof {
            continue;
        }
        if k.comment || k.start < p || k.end < k.start {
            return None;
        }
        c.push((t[p..k.start].to_string(), t[k.start..k.end].to_string()));
        p = k.end;
    }
    Some(c)
}
/// text of a cut and whether the tokenizer sees exactly these tokens in it
pub fn glue(c: &Cut) -> Option<String> {
    let mut t = Text { text: String::new(), spans: vec![], comments: vec![], elided: 0, newlines: 0 };
    for (i, (g, k)) in c.iter().enumerate() {
        if g.is_empty() && i > 0 {
            // keep what was adjacent adjacent only if it stays two tokens
            let a = c[i - 1].1.chars().last().unwrap_or(' ');
            let b = k.chars().next().unwrap_or(' ');
            let word = |c: char| c.is_alphanumeric() || c == '_' || c == '$' || c == '\\';
            let calm = |c: char| matches!(c, '(' | ')' | '[' | ']' | '{' | '}' | ';' | ',' | ':' | '~');
            if !(calm(a) || calm(b) || (word(a) != word(b) && a != '.' && b != '.')) {
                t.text.push(' ');
            }
        }
        t.text.push_str(g);
        let s = t.text.len();
        t.text.push_str(k);
        t.spans.push((s, t.text.len(), i));
    }
    if t.text.contains('/') || t.text.contains('`') || t.text.contains('\\') || t.text.contains("<!--") || t.text.contains("-->") {
        return None;
    }
    if !lexes(&t) {
        return None;
    }
    Some(t.text)
}
/// one to three token edits
pub fn mutate(r: &mut Rng, c: &mut Cut, pool: &[String]) -> &'static str {
    let k = r.n(c.len().max(1));
    if c.is_empty() {
        return "empty";
    }
    match r.n(6) {
        0 => {
            c.remove(k);
            "delete"
        }
        1 => {
            c.insert(k, (" ".into(), pool[r.n(pool.len())].clone()));
            "insert"
        }
        2 => {
            c[k].1 = pool[r.n(pool.len())].clone();
            "replace"
        }
        3 => {
            let j = r.n(c.len());
            let t = c[k].1.clone();
            c[k].1 = c[j].1.clone();
            c[j].1 = t;
            "swap"
        }
        4 => {
            let x = c[k].clone();
            c.insert(k, x);
            "duplicate"
        }
        _ => {
            c[k].0 = if c[k].0.contains('\n') { " ".into() } else { "\n".into() };
            "newline"
        }
    }
}
