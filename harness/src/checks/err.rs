//! C11, C12: what an error says, and that there is nothing but trees and errors.
use super::tree::rep;
use crate::diff::*;
use crate::gen::*;
use crate::gx::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use crate::tok::*;

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C11", c11)]
}

/// the errors that look back at something read before
pub fn retrospective(e: &crate::oracle::E) -> bool {
    const BACK: &[&str] = &[
        "a default value is only allowed in a pattern",
        "prototype can only be declared once",
        "when not at assignment target",
        "restricted",
        "Cannot delete",
        "use strict in an invalid location",
        "Expected ; found",
        "only for of loops can use await",
    ];
    BACK.iter().any(|m| e.msg.contains(m)) || e.kind == "InvalidGetterParams" || e.kind == "InvalidSetterParams"
}

/// words that are read together with the token behind them: one that makes no sense there
/// can be blamed on either
fn decided_by_next(w: &str) -> bool {
    matches!(w, "let" | "import" | "async" | "break")
}

fn spans_of(tx: &Text) -> Vec<(usize, usize)> {
    tx.spans.iter().map(|s| (s.0, s.1)).collect()
}
/// index of the token that the error names; the number of tokens for the end of the text
pub fn named(text: &str, spans: &[(usize, usize)], e: &crate::oracle::E) -> Result<usize, String> {
    let (line, col) = match e.pos {
        None => return if e.kind == "UnexpectedEoF" { Ok(spans.len()) } else { Err("an error without a position".into()) },
        Some(p) => p,
    };
    let l = Lines::new(text);
    let off = match l.offset(line, col) {
        Some(o) => o,
        None => return Err(format!("there is no line {}", line)),
    };
    if off > text.len() || l.at(off) != (line, col) {
        return Err(format!("line {} has no column {}", line, col));
    }
    if let Some(k) = spans.iter().position(|s| s.0 == off) {
        return Ok(k);
    }
    if off >= spans.last().map(|s| s.1).unwrap_or(0) {
        return Ok(spans.len());
    }
    Err(format!("no token starts at line {}, column {}", line, col))
}
fn open_brackets(t: &[Tok]) -> Vec<char> {
    let mut v = vec![];
    for k in t {
        match k.k {
            K::TplHead => v.push('$'),
            K::TplTail => {
                v.pop();
            }
            K::Punct => match k.t.as_str() {
                "(" | "[" | "{" => v.push(k.t.chars().next().unwrap()),
                ")" | "]" | "}" => {
                    v.pop();
                }
                _ => {}
            },
            _ => {}
        }
    }
    v
}

fn c11(cfg: &Cfg, o: &mut Obs) -> Report {
    // a closing bracket of the wrong kind can stand nowhere: the error is right there
    cases(cfg, o, "foreign-bracket", cfg.n(60_000, 1_500_000), |o, r, i| {
        let mut pf = prof_small();
        pf.items = 1 + (i % 4) as usize;
        let mut g = Gen::new(Rng::new(r.next(), "g", 0), pf);
        let p = g.program();
        let k = r.n(p.toks.len() + 1);
        let open = open_brackets(&p.toks[..k]);
        let b = match open.last() {
            Some('(') => ["]", "}"][r.n(2)],
            Some('[') => [")", "}"][r.n(2)],
            Some('{') => [")", "]"][r.n(2)],
            Some(_) => [")", "]"][r.n(2)],
            None => [")", "]", "}"][r.n(3)],
        };
        let mut t = p.toks.clone();
        t.insert(k, crate::tok::p(b));
        let st = style(r);
        let tx = render(&t, r, &st, !p.module);
        if !lexes(&tx) {
            o.skipped += 1;
            return Ok(());
        }
        let spans = spans_of(&tx);
        let at = tx.spans.iter().position(|s| s.2 == k).unwrap();
        let g = parse(&tx.text, p.module);
        if let Some(x) = &g.panic {
            return Err(bug(format!("panic: {}", x), &tx.text, ""));
        }
        let e = match &g.err {
            None => return Err(bug("a closing bracket without its opening one was accepted", &tx.text, g.show())),
            Some(e) => e,
        };
        let n = sound(&tx.text, &spans, e)?;
        if n != at && !retrospective(e) && !(n + 1 == at && decided_by_next(&p.toks[k - 1].t)) {
            return Err(bug(format!("the error is not at the first token that is wrong: {:+} {}", n as i64 - at as i64, e.msg.split(";").next().unwrap_or("")), &tx.text, format!("token {} is {} but: {}", at, b, e.display)));
        }
        let mut done = 0;
        while done < p.parts.len() && p.bounds[done + 1] < k {
            done += 1;
        }
        if g.parts.len() < done || g.parts[..done] != p.parts[..done] {
            return Err(bug("the parts before the error are not those of the text", &tx.text, format!("at least {} of {:?}, got {:?}", done, p.parts, g.parts)));
        }
        o.feat(&format!("foreign.{}", b));
        o.seen(&tx.text, true);
        Ok(())
    });
    cases(cfg, o, "truncation", cfg.n(60_000, 1_500_000), |o, r, i| {
        let mut pf = prof_small();
        pf.items = 1 + (i % 4) as usize;
        let mut g = Gen::new(Rng::new(r.next(), "g", 0), pf);
        let p = g.program();
        let k = r.n(p.toks.len());
        let st = style(r);
        let tx = render(&p.toks[..k], r, &st, !p.module);
        if !lexes(&tx) {
            o.skipped += 1;
            return Ok(());
        }
        let spans = spans_of(&tx);
        let g = parse(&tx.text, p.module);
        if let Some(x) = &g.panic {
            return Err(bug(format!("panic: {}", x), &tx.text, ""));
        }
        if let Some(e) = &g.err {
            let n = sound(&tx.text, &spans, e)?;
            if n != spans.len() && !retrospective(e) && !(n + 1 == spans.len() && decided_by_next(&p.toks[k - 1].t)) {
                return Err(bug(format!("the text stops too early, but the error is not at its end: {:+} {}", n as i64 - spans.len() as i64, e.msg.split(";").next().unwrap_or("")), &tx.text, e.display.clone()));
            }
            o.feat("truncated.rejected");
        } else {
            o.feat("truncated.accepted");
        }
        o.seen(&tx.text, true);
        Ok(())
    });
    // any error: a place in the text, the token that is there, and nothing behind it matters
    let s = seeds(&cfg.root);
    cases(cfg, o, "mutations", cfg.n(120_000, 2_500_000), |o, r, i| {
        let (c, m) = &s.cuts[r.n(s.cuts.len())];
        let mut c = c.clone();
        for _ in 0..1 + r.n(2) {
            mutate(r, &mut c, &s.pool);
        }
        if i % 3 == 0 {
            // something before it, over several lines
            let (b, m2) = &s.cuts[r.n(s.cuts.len())];
            if m2 == m {
                let mut b = b.clone();
                if let Some(x) = c.first_mut() {
                    x.0 = "\n".into();
                }
                b.extend(c);
                c = b;
            }
        }
        if c.is_empty() || c.iter().any(|x| x.1.contains('/') || x.1.contains('`')) || glue(&c).is_none() {
            return Ok(());
        }
        let tx = super::layout::respace(r, &c, 2);
        if !lexes(&tx) {
            o.skipped += 1;
            return Ok(());
        }
        let spans = spans_of(&tx);
        let g = parse(&tx.text, *m);
        if let Some(x) = &g.panic {
            return Err(bug(format!("panic: {}", x), &tx.text, ""));
        }
        let e = match &g.err {
            None => {
                o.feat("mutation.valid");
                return Ok(());
            }
            Some(e) => e,
        };
        let n = sound(&tx.text, &spans, e)?;
        o.feat(&format!("error.{}", e.kind));
        if tx.text[..spans.get(n).map(|s| s.0).unwrap_or(tx.text.len())].contains(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')) {
            o.feat("error.behind-a-line-terminator");
        }
        o.seen(&tx.text, true);
        // another continuation behind the token after the culprit
        if n + 1 < spans.len() && !retrospective(e) {
            let (b, _) = &s.cuts[r.n(s.cuts.len())];
            let mut t2 = tx.text[..spans[n + 1].1].to_string();
            for (g, k) in b {
                t2.push_str(if g.is_empty() { " " } else { g });
                t2.push_str(k);
            }
            let same_start = match scan(&t2) {
                None => false,
                Some(v) => {
                    let v: Vec<(usize, usize)> = v.iter().filter(|k| !k.comment && !k.eof).map(|k| (k.start, k.end)).collect();
                    v.len() > n + 1 && v[..n + 2] == spans[..n + 2]
                }
            };
            if !same_start {
                o.skipped += 1;
                return Ok(());
            }
            let h = parse(&t2, *m);
            if h.err.as_ref() != Some(e) || h.parts != g.parts {
                return Err(bug("the error depends on text far behind it", &t2, format!("{}\ninstead of {}\nof {}", h.show(), g.show(), tx.text)));
            }
            o.feat("error.independent");
            o.seen(&t2, true);
        }
        Ok(())
    });
    rep(
        "a case counts when a text that is no program ended in an error and the error was checked: a position that is the start of a token by an independent count of lines and columns, the token that the message names, the first token that no program could have there (foreign closing brackets, truncated programs), the same error whatever follows; distinct by text",
        &["foreign.)", "foreign.]", "foreign.}", "truncated.rejected", "truncated.accepted", "error.UnexpectedToken", "error.behind-a-line-terminator", "error.independent"],
        50_000,
    )
}

/// position and message of an error fit the text
fn sound(text: &str, spans: &[(usize, usize)], e: &crate::oracle::E) -> Result<usize, Bug> {
    let n = named(text, spans, e).map_err(|m| bug(format!("the position of the error is none: {}", m), text, e.display.clone()))?;
    if let Some((l, c)) = e.pos {
        if !e.display.contains(&format!("{}:{}", l, c)) {
            return Err(bug("the error does not show its position", text, e.display.clone()));
        }
    }
    let tok = match spans.get(n) {
        Some(s) => &text[s.0..s.1],
        None => "",
    };
    if let Some(x) = e.msg.split("; found ").nth(1) {
        let want = if n == spans.len() {
            "EoF".to_string()
        } else {
            scan(text).and_then(|v| v.into_iter().find(|k| k.start == spans[n].0 && !k.comment)).map(|k| k.dbg).unwrap_or_default()
        };
        if x != want {
            return Err(bug("the error names another token than the one at its position", text, format!("{}, but there is {} {}", e.display, want, tok)));
        }
    }
    if let Some(x) = e.msg.strip_prefix("Found unexpected token: ") {
        if x.split("; ").next() != Some(tok) {
            return Err(bug("the error names another token than the one at its position", text, format!("{}, but there is {}", e.display, tok)));
        }
    }
    Ok(n)
}
