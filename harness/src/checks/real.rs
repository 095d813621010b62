//! C18: programs that people have written, and what becomes of them when they are laid out
//! anew, taken apart, moved or damaged. The programs are the ones installed in the sandbox.
use super::neg::WRAPS;
use super::tree::rep;
use crate::corpus;
use crate::diff::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sexp;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C18", c18)]
}
const ROOTS: &[&str] = &["/opt/veriftools/node/node_modules", "/usr/lib/node_modules", "/usr/share/javascript", "/usr/share/nodejs"];

fn walk(d: &Path, out: &mut Vec<(String, u64)>) {
    let mut es: Vec<_> = match std::fs::read_dir(d) {
        Ok(x) => x.flatten().collect(),
        Err(_) => return,
    };
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let t = match e.file_type() {
            Ok(t) => t,
            Err(_) => continue,
        };
        let p = e.path();
        if t.is_dir() {
            walk(&p, out);
        } else if t.is_file() && matches!(p.extension().and_then(|x| x.to_str()), Some("js") | Some("mjs") | Some("cjs")) {
            let l = e.metadata().map(|m| m.len()).unwrap_or(0);
            if let (Some(s), true) = (p.to_str(), l > 0) {
                out.push((s.to_string(), l));
            }
        }
    }
}
/// run a script of the reference on the files, split over processes; the lines of the answer
fn node(cfg: &Cfg, script: &str, files: &[String], args: &[String]) -> Vec<String> {
    let k = WORKERS.min(files.len().max(1));
    let mut kids = vec![];
    for w in 0..k {
        let (fi, fo) = (format!("{}/{}{}.in", cfg.tmp(), script, w), format!("{}/{}{}.out", cfg.tmp(), script, w));
        let l: String = files.iter().skip(w).step_by(k).map(|f| format!("{}\n", f)).collect();
        let c = std::fs::write(&fi, l).and_then(|_| std::process::Command::new("node").arg("--stack-size=8000").arg(format!("{}/oracle/{}", cfg.root, script)).arg(&fi).arg(&fo).args(args).spawn());
        kids.push((c, fi, fo));
    }
    let mut out = vec![];
    for (c, fi, fo) in kids {
        if !c.and_then(|mut c| c.wait()).map(|s| s.success()).unwrap_or(false) {
            println!("ERROR: the reference parser failed on the files of {}", fi);
            std::process::exit(2);
        }
        out.extend(std::fs::read_to_string(&fo).unwrap_or_default().lines().map(|l| l.to_string()));
        let _ = (std::fs::remove_file(fi), std::fs::remove_file(fo));
    }
    out.sort();
    out
}
fn parts(text: &str, module: bool) -> Result<Vec<String>, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut v = vec![];
        for p in ressa::Builder::new().module(module).js(text).build().map_err(|e| e.to_string())? {
            v.push(corpus::fnv(&sexp::part(&p.map_err(|e| e.to_string())?)));
        }
        Ok(v)
    }))
    .unwrap_or_else(|e| Err(format!("panic: {}", panic_text(&e))))
}
/// other white space and comments between the same tokens, line breaks in the same places
fn anew(r: &mut Rng, text: &str) -> Option<String> {
    let v = scan(text)?;
    let dense = r.pc(40);
    let mut t = String::with_capacity(text.len() * 2);
    let mut p = 0;
    let mut want = vec![];
    let nl = |s: &str| s.contains(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}'));
    let mut gap = String::new();
    for k in &v {
        if k.start < p || k.end < k.start {
            return None;
        }
        gap.push_str(&text[p..k.start]);
        p = k.end;
        if k.comment {
            // keeps whether there is a line break in it
            let c = &text[k.start..k.end];
            gap.push_str(if nl(c) || !c.starts_with("/*") { "\n" } else { " " });
            continue;
        }
        if k.eof {
            break;
        }
        if want.is_empty() || nl(&gap) {
            match r.n(8) {
                0 => t.push_str("/* a\n b */"),
                1 => t.push_str(" // c\r\n"),
                2 => t.push_str("\n\n\t"),
                3 => t.push('\r'),
                4 => t.push('\u{2028}'),
                5 => t.push_str("\u{2029} /**/"),
                _ => t.push('\n'),
            }
        } else if !gap.is_empty() {
            match r.n(if dense { 4 } else { 30 }) {
                0 => t.push_str("/* a */"),
                1 => t.push('\t'),
                2 => t.push_str(" \u{a0}\u{feff}"),
                3 => t.push_str("\u{c}\u{b}  /***/ /* * / */"),
                _ => t.push(' '),
            }
        }
        gap.clear();
        let s = t.len();
        t.push_str(&text[k.start..k.end]);
        want.push((s, t.len()));
    }
    if r.pc(50) {
        t.push_str(["\n", " // end", "/* end */", "\u{2029}"][r.n(4)]);
    }
    let got: Vec<(usize, usize)> = scan(&t)?.iter().filter(|k| !k.comment && !k.eof).map(|k| (k.start, k.end)).collect();
    // a carriage return and the line feed of a comment end differ for the tokenizer sometimes
    if got != want {
        return None;
    }
    Some(t)
}
fn c18(cfg: &Cfg, o: &mut Obs) -> Report {
    let mut files = vec![];
    for r in ROOTS {
        walk(Path::new(r), &mut files);
    }
    let total = files.len();
    let cap = if cfg.thorough { 1_500_000 } else { 150_000 };
    files.retain(|f| f.1 <= cap);
    let mut r = Rng::new(cfg.seed, "C18/files", 0);
    for i in (1..files.len()).rev() {
        files.swap(i, r.n(i + 1));
    }
    files.truncate(cfg.n(3_000, 100_000) as usize);
    let files: Vec<String> = files.into_iter().map(|f| f.0).collect();
    o.maxf("files there are", total as f64);
    o.maxf("files taken", files.len() as f64);
    let need = |s: &str| cfg.only.is_none() || cfg.only.as_ref().map(|x| x.0 == s).unwrap_or(false);
    let refs: Vec<Vec<String>> = if need("whole") || need("anew") {
        node(cfg, "batch.mjs", &files, &[]).iter().map(|l| l.split('\t').map(|x| x.to_string()).collect::<Vec<_>>()).filter(|f: &Vec<String>| f.len() == 4 && f[1] != "-").collect()
    } else {
        vec![]
    };
    cases(cfg, o, "whole", refs.len() as u64, |o, _, i| {
        let f = match refs.get(i as usize) {
            Some(f) => f,
            None => return Ok(()),
        };
        let text = match std::fs::read_to_string(&f[0]) {
            Ok(t) => t,
            Err(_) => return Ok(()),
        };
        arm(&text);
        let e = |what: String| Err(bug(what, &text, format!("{} ({})", f[0], f[1])));
        match corpus::compare(&text, f[1] == "module", &f[2], &f[3]) {
            corpus::R::Ok(n) => {
                o.seen(&text, true);
                o.add("parts", n as u64);
                o.add("bytes", text.len() as u64);
                o.feat(&f[1]);
                o.maxf("longest program", text.len() as f64);
                Ok(())
            }
            corpus::R::TokPanic | corpus::R::TokDiffer => {
                o.skipped += 1;
                Ok(())
            }
            corpus::R::Panic(p) => e(format!("a real program makes the parser panic: {}", p)),
            corpus::R::Err(m) => e(format!("a real program is rejected: {}", m)),
            corpus::R::Mismatch(k, s) => e(format!("part {} of a real program has another tree: {}", k, s.chars().take(400).collect::<String>())),
        }
    });
    cases(cfg, o, "anew", refs.len() as u64 * cfg.n(1, 4), |o, r, i| {
        let f = match refs.get(i as usize % refs.len().max(1)) {
            Some(f) => f,
            None => return Ok(()),
        };
        let text = match std::fs::read_to_string(&f[0]) {
            Ok(t) => t,
            Err(_) => return Ok(()),
        };
        if text.starts_with("#!") || text.contains("-->") || text.contains("<!--") {
            o.skipped += 1;
            return Ok(());
        }
        let (t, want) = match (anew(r, &text), corpus::token_digest(&text)) {
            (Some(t), Some(d)) if d == f[2] => (t, f[3].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<Vec<_>>()),
            _ => {
                o.skipped += 1;
                return Ok(());
            }
        };
        arm(&t);
        match parts(&t, f[1] == "module") {
            Ok(p) if p == want => {
                o.feat("anew");
                o.seen(&t, true);
                Ok(())
            }
            Ok(_) => Err(bug("a real program has another tree with other white space and comments", &t, f[0].clone())),
            Err(e) => Err(bug(format!("a real program with other white space and comments is rejected: {}", e), &t, f[0].clone())),
        }
    });
    if !need("pieces") && !need("moved") && !need("damaged") && !need("joined") {
        return Report { rule: String::new(), assumptions: vec![], must_see: vec![], min_distinct: 0 };
    }
    let sn: Vec<(String, bool, String)> = node(cfg, "snippets.mjs", &files[..files.len().min(cfg.n(3000, 20_000) as usize)], &[cfg.seed.to_string(), cfg.n(30, 60).to_string()])
        .iter()
        .filter_map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            let b: Option<Vec<u8>> = f.get(2).map(|h| (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect());
            Some((String::from_utf8(b?).ok()?, f[0] == "m", f[1].to_string()))
        })
        .collect();
    let mut seen = std::collections::HashSet::new();
    let sn: Vec<_> = sn.into_iter().filter(|s| seen.insert(s.0.clone())).collect();
    o.maxf("pieces", sn.len() as f64);
    let cuts: Vec<(Cut, bool, String)> = sn
        .iter()
        .filter(|s| !s.0.contains('/') && !s.0.contains('`') && !s.0.contains('\\') && !s.0.contains("-->") && !s.0.contains("<!--"))
        .filter_map(|s| {
            let c = cut(&s.0)?;
            glue(&c)?;
            Some((c, s.1, s.2.clone()))
        })
        .collect();
    o.maxf("pieces for damage", cuts.len() as f64);
    if cuts.is_empty() {
        return rep("", &["pieces"], 1);
    }
    diff(cfg, o, "pieces", cuts.len() as u64, |r, i| {
        let c = &cuts[i as usize % cuts.len()];
        Some(Dt { text: glue(&c.0)?, module: c.1 != r.pc(10), label: format!("piece {}", c.2) })
    });
    diff(cfg, o, "moved", cfg.n(40_000, 800_000), |r, _| {
        let c = &cuts[r.n(cuts.len())];
        let t = glue(&c.0)?;
        let (a, b) = WRAPS[r.n(WRAPS.len())];
        Some(Dt { text: format!("{}\n{}\n{}", a, t, b), module: c.1, label: "moved".into() })
    });
    diff(cfg, o, "joined", cfg.n(30_000, 600_000), |r, _| {
        let mut c: Cut = vec![];
        let mut m = false;
        for _ in 0..2 + r.n(3) {
            let x = &cuts[r.n(cuts.len())];
            let mut k = x.0.clone();
            if let Some(f) = k.first_mut() {
                f.0 = if r.pc(70) { "\n".into() } else { " ".into() };
            }
            if r.pc(25) && k.last().map(|x| x.1 == ";").unwrap_or(false) {
                k.pop();
            }
            m = m || x.1;
            c.extend(k);
        }
        Some(Dt { text: glue(&c)?, module: m, label: "joined".into() })
    });
    let pool: Vec<String> = cuts.iter().flat_map(|c| c.0.iter().map(|x| x.1.clone())).step_by(7).collect();
    diff(cfg, o, "damaged", cfg.n(120_000, 2_500_000), |r, _| {
        let c = &cuts[r.n(cuts.len())];
        let mut k = c.0.clone();
        if k.len() > 60 {
            return None;
        }
        let mut l = "";
        for _ in 0..1 + (r.pc(20) as usize) {
            l = mutate(r, &mut k, &pool);
        }
        let mut t = glue(&k)?;
        if r.pc(30) {
            let (a, b) = WRAPS[r.n(WRAPS.len())];
            t = format!("{}\n{}\n{}", a, t, b);
        }
        Some(Dt { text: t, module: c.1, label: format!("damage.{}", l) })
    });
    rep(
        "a case counts when a program that people have written (or one laid out anew, a piece of one, several pieces in a row, a piece in other surroundings, or a damaged piece) had the verdict and the tree that the reference parser gives; distinct by text",
        &["script", "module", "anew", "moved", "joined", "both.accept", "both.reject", "damage.delete", "damage.insert", "damage.replace", "damage.swap", "damage.newline", "piece IfStatement", "piece CallExpression", "piece ArrowFunctionExpression", "piece Property"],
        60_000,
    )
}
