use crate::sexp;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn fnv(s: &str) -> String {
    let (mut a, mut c) = (0x811c9dc5u32, 0x1234567u32);
    for &b in s.as_bytes() {
        a = (a ^ b as u32).wrapping_mul(0x01000193);
        c = (c ^ b as u32).wrapping_add(0x9e3779b9).wrapping_mul(0x85ebca6b);
        c ^= c >> 13;
    }
    format!("{:08x}{:08x}", a, c)
}

pub enum R {
    Ok(usize),
    TokPanic,
    TokDiffer,
    Panic(String),
    Err(String),
    Mismatch(usize, String),
}
impl R {
    pub fn class(&self) -> &'static str {
        match self {
            R::Ok(_) => "ok",
            R::TokPanic => "tokpanic",
            R::TokDiffer => "tokdiffer",
            R::Panic(_) => "panic",
            R::Err(_) => "err",
            R::Mismatch(..) => "mismatch",
        }
    }
    pub fn show(&self) -> String {
        match self {
            R::Panic(s) => format!("PANIC {}", s),
            R::Err(s) => format!("ERR {}", s),
            R::Mismatch(i, s) => format!("MISMATCH {} {}", i, s.chars().take(300).collect::<String>()),
            _ => self.class().to_string(),
        }
    }
}

/// digest of all non-comment, non-template tokens as the tokenizer crate sees them
pub fn token_digest(text: &str) -> Option<String> {
    let t = text.to_string();
    catch_unwind(AssertUnwindSafe(move || {
        let mut s = String::new();
        let mut first = true;
        let t2 = t.clone();
        for i in ress::refs::RefScanner::new(t) {
            if i.token.is_comment() || i.token.is_eof() || i.is_template() {
                continue;
            }
            if !first {
                s.push('\n');
            }
            first = false;
            s.push_str(&t2[i.span.start..i.span.end]);
        }
        fnv(&s)
    }))
    .ok()
}

pub fn compare(text: &str, module: bool, tokd: &str, hashes: &str) -> R {
    match token_digest(text) {
        None => return R::TokPanic,
        Some(d) => {
            if d != tokd {
                return R::TokDiffer;
            }
        }
    }
    let h: Vec<&str> = hashes.split(',').filter(|s| !s.is_empty()).collect();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let p = ressa::Builder::new().module(module).js(text).build();
        let p = match p {
            Ok(p) => p,
            Err(e) => return R::Err(format!("build {}", e)),
        };
        let mut i = 0;
        for part in p {
            match part {
                Err(e) => return R::Err(e.to_string()),
                Ok(p) => {
                    let s = sexp::part(&p);
                    if i >= h.len() || fnv(&s) != h[i] {
                        return R::Mismatch(i, s);
                    }
                }
            }
            i += 1;
        }
        if i != h.len() {
            return R::Mismatch(i, "part count".into());
        }
        R::Ok(i)
    }));
    match r {
        Ok(r) => r,
        Err(e) => R::Panic(
            e.downcast_ref::<String>().cloned().unwrap_or_else(|| {
                e.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default()
            }),
        ),
    }
}
