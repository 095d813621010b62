//! C10 and friends: malformed programs are rejected, valid ones are not.
use super::tree::rep;
use crate::diff::*;
use crate::gen::*;
use crate::gx::*;
use crate::rng::Rng;
use crate::run::*;

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C10", c10)]
}

/// text around a seed: function bodies, loops, classes ...
pub const WRAPS: &[(&str, &str)] = &[
    ("", ""),
    ("function f() {", "}"),
    ("function* f() {", "}"),
    ("async function f() {", "}"),
    ("async function* f() {", "}"),
    ("function f() { 'use strict';", "}"),
    ("x = () => {", "}"),
    ("x = async () => {", "}"),
    ("class A { m() {", "} }"),
    ("class A extends B { constructor() {", "} }"),
    ("class A { static *m() {", "} }"),
    ("x = { async m() {", "} }"),
    ("x = { get m() {", "} }"),
    ("while (x) {", "}"),
    ("l: for (;;) {", "}"),
    ("switch (x) { case 1:", "}"),
    ("try {", "} finally { }"),
    ("if (x) {", "} else { }"),
    ("{", "}"),
    ("function* f() { x = () => {", "} }"),
    ("async function f() { function g() {", "} }"),
    ("'use strict';", ""),
    ("function f(a = function () {", "}) { }"),
    ("(function () {", "})()"),
];

fn wrap_text(r: &mut Rng, t: &str) -> (String, usize) {
    let k = r.n(WRAPS.len());
    (format!("{}\n{}\n{}", WRAPS[k].0, t, WRAPS[k].1), k)
}

fn c10(cfg: &Cfg, o: &mut Obs) -> Report {
    let s = seeds(&cfg.root);
    let nt = s.texts.len() as u64;
    // every seed in every surrounding
    diff(cfg, o, "seeds", nt * WRAPS.len() as u64, |_r, i| {
        let (t, m) = &s.texts[(i % nt) as usize];
        let k = (i / nt) as usize;
        let text = if k == 0 { t.clone() } else { format!("{}\n{}\n{}", WRAPS[k].0, t, WRAPS[k].1) };
        if text.contains("<!--") || text.contains("-->") || text.contains('\\') {
            return None;
        }
        let c = cut(&text)?;
        // whether a slash divides is the tokenizer's business
        if c.iter().any(|x| x.1.starts_with('/')) {
            return None;
        }
        Some(Dt { text, module: *m, label: "seed".into() })
    });
    diff(cfg, o, "mutated-seeds", cfg.n(110_000, 2_500_000), |r, _| {
        let (c, m) = &s.cuts[r.n(s.cuts.len())];
        let mut c = c.clone();
        let mut l = "";
        for _ in 0..1 + (r.pc(25) as usize) + (r.pc(8) as usize) {
            l = mutate(r, &mut c, &s.pool);
        }
        let mut text = glue(&c)?;
        if r.pc(40) {
            text = wrap_text(r, &text).0;
        }
        Some(Dt { text, module: *m || r.pc(10), label: format!("mutation.{}", l) })
    });
    diff(cfg, o, "mutated-programs", cfg.n(40_000, 1_000_000), |r, _| {
        let mut pf = prof_small();
        pf.import_call = false;
        let mut g = Gen::new(Rng::new(r.next(), "mp", 0), pf);
        let p = g.program();
        let mut c: Cut = p.toks.iter().map(|k| (if r.pc(8) && !k.no_nl { "\n".to_string() } else { " ".to_string() }, k.t.clone())).collect();
        let mut l = "";
        for _ in 0..1 + (r.pc(15) as usize) {
            l = mutate(r, &mut c, &s.pool);
        }
        let text = glue(&c)?;
        Some(Dt { text, module: p.module, label: format!("program-mutation.{}", l) })
    });
    let n = cfg.n(80_000, super::rules::composed_total());
    diff(cfg, o, "composed", n, |r, i| {
        let text = super::rules::composed_cell(i, n, r);
        if !super::rules::slashes(&text) {
            return None;
        }
        Some(Dt { module: text.starts_with("export") || r.pc(4), text, label: "composed".into() })
    });
    diff(cfg, o, "composed-deep", cfg.n(60_000, 1_500_000), |r, _| {
        let mut text = super::rules::composed(r);
        if !super::rules::slashes(&text) {
            return None;
        }
        let m = text.starts_with("export") || r.pc(4);
        if !m && r.pc(35) {
            text = wrap_text(r, &text).0;
        }
        Some(Dt { text, module: m, label: "composed-deep".into() })
    });
    // two seeds in a row, on one line and on two
    diff(cfg, o, "joined-seeds", cfg.n(40_000, 800_000), |r, _| {
        let (a, m1) = &s.cuts[r.n(s.cuts.len())];
        let (b, m2) = &s.cuts[r.n(s.cuts.len())];
        let mut c = a.clone();
        let mut b = b.clone();
        if let Some(x) = b.first_mut() {
            x.0 = if r.pc(60) { "\n".into() } else { " ".into() };
        }
        c.extend(b);
        let mut text = glue(&c)?;
        if r.pc(30) {
            text = wrap_text(r, &text).0;
        }
        Some(Dt { text, module: *m1 || *m2, label: "joined".into() })
    });
    rep(
        "a case counts when both this parser and the reference parser gave a verdict on a program derived from the seed texts or from a generated program by token edits, and verdicts (and trees when valid) agree; distinct by text",
        &["both.accept", "both.reject", "mutation.delete", "mutation.insert", "mutation.replace", "mutation.swap", "mutation.newline", "program-mutation.delete", "seed", "composed", "composed-deep"],
        20_000,
    )
}
